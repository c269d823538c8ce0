"""Loops over lists are uniform: what extends a proof over lists of up to two elements to all lengths.

Contracts draw lists of 0, 1 and 2 arbitrary elements.  At the head of each loop the state (the live
locals and everything reachable from them) after one iteration is compared to the state after two.  If
they agree, up to what has been appended to lists and texts the loop does not read, up to the position
of iterators and up to the consumed input, then the state after one iteration is a loop invariant:
the second iteration, for an arbitrary element, preserves it.  The way on from an arbitrary later iteration is
the one explored from the second.  Otherwise the bound is reported."""
import z3
from core import *
import rt
import strs
import models
import leaf

DBG = "VC_UNI" in __import__("os").environ


class Bad(Exception):
    pass


def snap(v, cells):
    todo = [v]
    while todo:
        x = todo.pop()
        c = x.__class__
        if c is A: todo.extend(x.f)
        elif c is Ptr:
            k = id(x.c)
            if k not in cells:
                cells[k] = (x.c, x.c.x)
                todo.append(x.c.x)
        elif c is models.SI:
            todo.append(x.p)
        elif c is rt.DynV:
            todo.append(x.p)
        elif c is tuple and len(x) < 40:
            todo.extend(y for y in x if y.__class__ in (A, Ptr))


class Skip(Exception):
    """The loop is dealt with by induction"""


class Cmp:
    def __init__(self, c1, c2, reads):
        self.c1 = c1
        self.c2 = c2
        self.reads = reads
        self.seen = set()
        self.same = {}
        self.lists = False
        self.text = False

    def bad(self, why, *a): raise Bad(why + "".join(" [%s]" % repr(x)[:300] for x in a) if DBG else why)

    def grow(self, where, x=None, y=None):
        """x has grown to y: neither has been looked at in between"""
        for c, p, v in self.reads:
            if where is not None and (c, p) == where: self.bad('what has been collected so far is read')
            if x is not None and v.__class__ is y.__class__ and 1 <= len(v) >= len(x) and len(v) <= len(y) and all(a is b for a, b in zip(v, y)): self.bad('what has been collected so far is read')

    def val(self, x, y, where=None):
        if not DBG: return self.val_(x, y, where)
        try: return self.val_(x, y, where)
        except Bad as e:
            e.args = (e.args[0] + ' < ' + x.__class__.__name__ + (str(len(x))+','+str(len(y)) if x.__class__ is tuple else str(x.v) if x.__class__ is A else str(x.p) if x.__class__ is Ptr else ''),)
            raise

    def val_(self, x, y, where=None):
        c = x.__class__
        if x is y:
            if c not in (A, Ptr, tuple, models.SI, rt.DynV, Cell) or id(x) in self.same: return
            self.same[id(x)] = x
        if c is not y.__class__:
            if isinstance(x, tuple) and isinstance(y, tuple): return self.seq(x, y, where)
            if c is bool or y.__class__ is bool: self.bad('a flag')
            if {c, y.__class__} <= {leaf.Leaf, leaf.Lazy, A}: self.bad('an element', x, y)
            self.bad('a value', x, y)
        if c is A:
            if x.v != y.v: self.bad('a variant', x, y)
            if len(x.f) != len(y.f): self.bad('a value', x, y)
            for k, (p, q) in enumerate(zip(x.f, y.f)): self.val(p, q, where and (where[0], where[1] + (k,)))
            return
        if c is Cell:
            k = (id(x), id(y))
            if k in self.seen: return
            self.seen.add(k)
            self.val(self.c1.get(id(x), (x, x.x))[1], self.c2.get(id(y), (y, y.x))[1], (id(x), ()) if x is y else None)
            return
        if c is Ptr:
            if x.c is not y.c:
                self.val(x.c, y.c)
                if x.p == y.p and x.m == y.m: return
                self.bad('a pointer', x, y)
            self.val(x.c, y.c)
            if x.p == y.p and x.m == y.m: return
            if x.p == y.p and x.m.__class__ is tuple and y.m.__class__ is tuple and x.m[0] <= y.m[0] and y.m[1] <= x.m[1]:
                self.lists = True
                return
            self.bad('a pointer to an element')
        if c is models.SI or c is models.VI:
            if c is models.SI: self.val(x.p, y.p)
            else: self.val(x.v, y.v)
            if x.i <= y.i and y.j <= x.j:
                if (x.i, x.j) != (y.i, y.j): self.lists = True
                return
            self.bad('an iterator')
        if c is textm_MI():
            self.val(x.p, y.p)
            self.lists = True
            return
        if c is tuple or isinstance(x, tuple): return self.seq(x, y, where)
        if c is strs.Str: return self.string(x, y, where)
        if c is int or c is bool: return x == y or self.bad('a flag' if c is bool else 'a number')
        if c is leaf.Leaf: return x.vid is y.vid or self.bad('an element')
        if isinstance(x, z3.AstRef): return x.eq(y) or self.bad('a number')
        if c is rt.DynV:
            if x.m != y.m: self.bad('a type')
            return self.val(x.p, y.p)
        if c is ArcV: return x.c is y.c or self.val(x.c, y.c)
        if c is FnV: return x.i == y.i or self.bad('a function')
        if c is leaf.Lazy and x.val is None and y.val is None and x.ty == y.ty: return
        ss = getattr(c, '__slots__', None)
        if ss:
            for s in ss:
                if hasattr(x, s) or hasattr(y, s): self.val(getattr(x, s, None), getattr(y, s, None), None)
            return
        if c is str: return x == y or self.bad('text', x, y)
        self.bad('a %s' % c.__name__, x, y)

    def seq(self, x, y, where):
        if RV(x) or RV(y): raise Skip()
        n, k = len(x), len(y)
        if n == k:
            for p, q in zip(x, y): self.val(p, q)
            return
        if k > n:
            for p, q in zip(x, y): self.val(p, q)
            self.grow(where, x, y)
            return
        for p, q in zip(x[n - k:], y): self.val(p, q)
        self.lists = True
        return

    def string(self, x, y, where):
        if x.z is not None or y.z is not None:
            if x.z is not None and y.z is not None and x.z[0] is y.z[0] and x.z[1] is y.z[1]: return
            self.text = True
            self.bad('text', x, y)
        if x.q is not None and y.q is not None and x.e is y.e:
            n = x.q
            if n is y.q: return
            opaque = False
            while n is not x.e:
                opaque = opaque or not literal(n.a)
                n = n.n
                if n is y.q:
                    self.text = self.text or opaque
                    return
        a, b = x.atoms(), y.atoms()
        n, k = len(a), len(b)
        if k >= n and all(same(p, q) for p, q in zip(a, b)):
            if k > n: self.grow(where)
            return
        if n > k and all(same(p, q) for p, q in zip(a[n - k:], b)):
            self.text = self.text or not all(literal(p) for p in a[:n - k])
            return
        self.text = True
        self.bad('text', x, y)


def RV(x): return x.__class__ is models.RVec or x.__class__ is models.RVI


def literal(a): return a.__class__ in (int, str) or a.__class__ is strs.Chr and a.x.__class__ is int


def same(p, q):
    if p is q: return True
    if p.__class__ is str and q.__class__ is str: return p == q
    if p.__class__ is strs.Chr and q.__class__ is strs.Chr: return p.x is q.x or (p.x.__class__ is q.x.__class__ and (p.x == q.x if p.x.__class__ is int else p.x.eq(q.x)))
    return False


def textm_MI():
    import textm
    return textm.MI


def loop_head(lh, h, fn, vals, inner):
    for k in inner: lh.pop(k, None)
    st = lh.get(h)
    if st is not None and st[0] < 0: return
    vals = [(n, v, v.x if v.__class__ is Cell else v) for n, v in vals if v is not UNDEF]
    cells = {}
    for _, _, v in vals: snap(v, cells)
    if st is None:
        lh[h] = [0, vals, cells, len(S.reads), S.idx]
        return
    k, vals1, c1, r1, i1 = st
    st[:] = k + 1, vals, cells, len(S.reads), S.idx
    d2 = {n: (v, x) for n, v, x in vals}
    cm = Cmp(c1, cells, S.reads[r1:])
    why = None
    for n, v1, x1 in vals1:
        if n not in d2: continue
        v2, x2 = d2[n]
        try: cm.val(x1, x2, (id(v1), ()) if v1.__class__ is Cell else None)
        except Skip: return
        except Bad as e: why = why or '%s changes from iteration to iteration (%s)' % (e, n)
    if not (cm.lists or cm.text or S.idx != i1): return
    name = S.prog.fns[fn]['d']
    if DBG: __import__('os').write(1, ('LOOP %s %s %s %s\n' % (k, name, why, [(n, x1, d2[n][1]) for n, v1, x1 in vals1 if why and n in why])).encode())
    if why is None:
        S.uniform.add(name)
        st[0] = -1
        S.pending.pop((id(lh), h), None)
    elif k: S.pending[(id(lh), h)] = (lh, 'loop in %s: %s' % (name, why))


def logged(fac):
    def f(P, i, fn):
        g = fac(P, i, fn)
        if g is None: return None

        def h(*a):
            p = a[0]
            if p.__class__ is Ptr: S.reads.append((id(p.c), p.p, p.get()))
            return g(*a)
        return h
    return f


V = 'std::vec::Vec::<T, A>::'
D = '<std::vec::Vec<T, A> as std::'
READS = [V + 'len', V + 'is_empty', V + 'pop', D + 'ops::Deref>::deref', D + 'ops::DerefMut>::deref_mut', D + 'convert::AsRef<[T]>>::as_ref', V + 'as_slice', V + 'as_mut_slice', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
         D + 'ops::Index<I>>::index', D + 'ops::IndexMut<I>>::index_mut', 'std::string::String::len', 'std::string::String::is_empty', 'std::string::String::as_str', 'std::string::String::pop', '<std::string::String as std::ops::Deref>::deref',
         'std::collections::HashMap::<K, V, S, A>::len', 'std::collections::HashMap::<K, V, S, A>::is_empty', 'std::collections::HashMap::<K, V, S, A>::get', 'std::collections::HashMap::<K, V, S, A>::contains_key',
         'std::collections::HashSet::<T, S, A>::len', 'std::collections::HashSet::<T, S, A>::is_empty', 'std::collections::HashSet::<T, S, A>::insert', 'std::collections::HashSet::<T, S, A>::contains']
for n_ in READS:
    if n_ in models.MODELS: models.MODELS[n_] = logged(models.MODELS[n_])
rt.loop_head = loop_head


def bound(s):
    if s not in S.bounded: S.bounded = S.bounded | {s}


rt.bound = bound
