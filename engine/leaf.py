"""Opaque sub-trees: values about which nothing but the contracts of the code under test is known.

A leaf is expanded by a case split only if the code looks into it."""
import z3
from core import *
import rt

MAX_EXPAND = 12
F_cls = z3.Function('cls', z3.IntSort(), z3.IntSort())
F_ocls = z3.Function('ocls', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Leaf:
    def __init__(self, ty, kind, vid=None):
        self.ty = ty
        self.kind = kind
        self.vid = z3.Int(fresh_name(kind)) if vid is None else vid
        self.val = None
        self.used = set()
        self.memo = {}
        self.src = None
        self.cond = False
        self.maskof = None
        self.whole = None     # the opaque conditional with this condition
        self.gen = False      # made by a generator of the contracts: prints and parses

    @property
    def v(self):
        if self.val is None: self.expand()
        return self.val.v

    @property
    def f(self):
        if self.val is None: self.expand()
        return self.val.f

    def expand(self):
        if self.maskof is not None: raise Undecided('a mask type is looked at')
        S.expanded = getattr(S, 'expanded', 0) + 1
        if S.expanded > MAX_EXPAND: raise Undecided('too many expansions of opaque %s' % self.kind)
        if self.used: S.taint = 'a %s expanded after %s was applied to it' % (self.kind, '/'.join(sorted(self.used)))
        self.val = fresh_adt(self.ty)

    def __repr__(self): return 'Leaf(%s %s)' % (self.kind, self.vid)


class Unknown:
    """A part of an opaque value at which nothing may look"""
    def __getattr__(self, a): raise Undecided('a part of an opaque value')
    def __len__(self): raise Undecided('a part of an opaque value')
    def __iter__(self): raise Undecided('a part of an opaque value')
    def __getitem__(self, i): raise Undecided('a part of an opaque value')


def conditional(ty):
    """An opaque conditional statement"""
    l = Leaf(ty, 'stmt')
    T = S.prog.types
    fs = T[ty]['v'][0]['f']
    parts = []
    for n, t in fs:
        vs = T[t].get('v') or []
        k = next((k for k, v in enumerate(vs) if v['n'] == 'Conditional'), None)
        if k is None:
            parts.append(Unknown())
            continue
        sub = []
        for m, u in vs[k]['f']:
            c = Unknown()
            if T[u]['k'] == 'adt' and T[u]['d'] == 'firrtl_ast::Expression':
                c = Leaf(u, 'expr')
                c.whole = l
            sub.append(c)
        parts.append(A(k, tuple(sub)))
    l.val = A(0, tuple(parts))
    l.gen = True
    l.cond = True
    return l


class Lazy:
    """A fresh value of an enum type; the variant is chosen when its contents are looked at, before
    that it is known as far as the code tells variants apart"""
    def __init__(self, ty):
        self.ty = ty
        self.val = None
        self.d = None
        self.name = None

    def expand(self):
        if self.name is not None: S.taint = 'an entity expanded after its name was taken'
        vs = S.prog.types[self.ty]['v']
        if self.d is None: k = split(len(vs)) if len(vs) > 1 else 0
        else:
            k = switch(self.d, list(range(len(vs) - 1)), 64) if len(vs) > 1 else 0
        self.val = A(k, tuple(fresh(f[1]) for f in vs[k]['f']))

    def disc(self):
        if self.val is not None: return self.val.v
        n = len(S.prog.types[self.ty]['v'])
        if n < 4: return self.v
        if self.d is None:
            self.d = z3.BitVec(fresh_name('disc'), 64)
            assume(z3.ULT(self.d, z3.BitVecVal(n, 64)))
        return self.d

    @property
    def v(self):
        if self.val is None: self.expand()
        return self.val.v

    @property
    def f(self):
        if self.val is None: self.expand()
        return self.val.f

    def __repr__(self): return 'Lazy(%r)' % (self.val,)


def disc(x):
    if x.__class__ is Lazy: return x.disc()
    return x.v


rt.disc = disc


LEAF_ADTS = {
    'firrtl_ast::Type': 'type',
    'firrtl_ast::types::OrientedType': 'otype',
    'firrtl_ast::Expression': 'expr',
    'firrtl_ast::stmt::Statement': 'stmt',
    'firrtl_ast::Statement': 'stmt',
}


def fresh(ty):
    T = S.prog.types
    t = T[ty]
    k = t['k']
    if k == 'bool': return z3.Bool(fresh_name('b'))
    if k == 'int': return z3.BitVec(fresh_name('n'), t['w'])
    if k == 'char': return S.strs.fresh_char()
    if k == 'tuple': return A(0, tuple(fresh(x) for x in t['es']))
    if k == 'ref': return Ptr(Cell(fresh(t['e'])))
    if k == 'adt':
        d = t['d']
        if d in LEAF_ADTS: return Leaf(ty, LEAF_ADTS[d])
        if d in ('std::sync::Arc', 'std::rc::Rc'):
            e = T[t['a'][0]]
            if e['k'] == 'str': return S.strs.fresh_name('ident')
            if e['k'] == 'slice':
                n = split(3)
                if n == 2: S.full = True
                return ArcV(tuple(fresh(e['e']) for _ in range(n)))
            return ArcV(fresh(t['a'][0]))
        if d == 'std::vec::Vec':
            n = split(3)
            if n == 2: S.full = True
            return tuple(fresh(t['a'][0]) for _ in range(n))
        if d == 'std::string::String': return S.strs.fresh_name('text')
        if d in S.prog.native_adts: raise Undecided('fresh ' + d)
        if t['kind'] == 'enum': return Lazy(ty)
        if t['kind'] == 'struct': return A(0, tuple(fresh(f[1]) for f in t['v'][0]['f']))
    raise Undecided('fresh value of %s' % (t.get('n') or k))


def fresh_adt(ty):
    t = S.prog.types[ty]
    vs = t['v']
    n = split(len(vs)) if len(vs) > 1 else 0
    return A(n, tuple(fresh(f[1]) for f in vs[n]['f']))


def unexp(x): return x.__class__ is Leaf and x.val is None


def same_leaf(a, b):
    if a is b: return True
    return rt.normb(a.vid == b.vid)
