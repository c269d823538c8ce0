"""Operations the generated code refers to: machine arithmetic, pointers, calls"""
import z3
from core import *

BV = z3.BitVecVal


def unreachable():
    # reached only if a value escapes its type: the path does not exist
    raise Undecided('unreachable code reached')


def undecided(why): raise Undecided(why)


def bad_place(): raise Undecided('place')


# ---------------------------------------------------------------- integers

def wrap(n, w, s):
    n &= (1 << w) - 1
    if s and n >> (w - 1): n -= 1 << w
    return n


def bv(x, w):
    if x.__class__ is int: return BV(x, w)
    if x.__class__ is bool: return BV(int(x), w)
    if not z3.is_bv(x): raise Undecided('integer operand %r' % (x,))
    return x


def norm(x, w, s):
    """Concrete values become python integers"""
    x = z3.simplify(x)
    if z3.is_bv_value(x): return x.as_signed_long() if s else x.as_long()
    return x


def normb(x):
    x = z3.simplify(x)
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x


def isint(a, b): return a.__class__ is int and b.__class__ is int


def _arith(py, sym):
    def f(a, b, w, s):
        if a.__class__ is int and b.__class__ is int: return wrap(py(a, b), w, s)
        if a.__class__ is OFF or b.__class__ is OFF: return off_arith(py, a, b)
        return norm(sym(bv(a, w), bv(b, w)), w, s)
    return f


OFF = None      # the class of symbolic string offsets (set by `strs`)
strs = None


def off_arith(py, a, b):
    if py is PY_ADD: return strs.mkoff((a, b))
    if py is PY_SUB: return strs.off_sub(a, b)
    raise Undecided('arithmetic on string offsets')


PY_ADD = lambda a, b: a + b
PY_SUB = lambda a, b: a - b


i_Add = i_AddUnchecked = _arith(PY_ADD, lambda a, b: a + b)
i_Sub = i_SubUnchecked = _arith(PY_SUB, lambda a, b: a - b)
i_Mul = i_MulUnchecked = _arith(lambda a, b: a * b, lambda a, b: a * b)
i_BitXor = _arith(lambda a, b: a ^ b, lambda a, b: a ^ b)
i_BitAnd = _arith(lambda a, b: a & b, lambda a, b: a & b)
i_BitOr = _arith(lambda a, b: a | b, lambda a, b: a | b)


def i_Div(a, b, w, s):
    if isint(a, b):
        q = abs(a) // abs(b)
        return wrap(q if (a < 0) == (b < 0) else -q, w, s)
    a, b = bv(a, w), bv(b, w)
    return norm(a / b if s else z3.UDiv(a, b), w, s)


def i_Rem(a, b, w, s):
    if isint(a, b):
        r = abs(a) % abs(b)
        return wrap(-r if a < 0 else r, w, s)
    a, b = bv(a, w), bv(b, w)
    return norm(z3.SRem(a, b) if s else z3.URem(a, b), w, s)


def shamt(b, w, w2):
    if b.__class__ is int: return BV(b % w, w)
    if w2 > w: b = z3.Extract(w - 1, 0, b)
    elif w2 < w: b = z3.ZeroExt(w - w2, b)
    return b & BV(w - 1, w)


def i_Shl(a, b, w, s, w2):
    if isint(a, b): return wrap(a << (b % w), w, s)
    return norm(bv(a, w) << shamt(b, w, w2), w, s)


def i_Shr(a, b, w, s, w2):
    if isint(a, b): return wrap(a >> (b % w), w, s)
    a = bv(a, w)
    k = shamt(b, w, w2)
    return norm(a >> k if s else z3.LShR(a, k), w, s)


i_ShlUnchecked, i_ShrUnchecked = i_Shl, i_Shr


def _cmp(py, ss, us, name):
    def f(a, b, w, s):
        if a.__class__ is int and b.__class__ is int: return py(a, b)
        if a.__class__ is OFF or b.__class__ is OFF: return strs.off_cmp(name, a, b)
        a, b = bv(a, w), bv(b, w)
        return normb(ss(a, b) if s else us(a, b))
    return f


i_Lt = _cmp(lambda a, b: a < b, lambda a, b: a < b, z3.ULT, 'Lt')
i_Le = _cmp(lambda a, b: a <= b, lambda a, b: a <= b, z3.ULE, 'Le')
i_Gt = _cmp(lambda a, b: a > b, lambda a, b: a > b, z3.UGT, 'Gt')
i_Ge = _cmp(lambda a, b: a >= b, lambda a, b: a >= b, z3.UGE, 'Ge')
i_Eq = _cmp(lambda a, b: a == b, lambda a, b: a == b, lambda a, b: a == b, 'Eq')
i_Ne = _cmp(lambda a, b: a != b, lambda a, b: a != b, lambda a, b: a != b, 'Ne')


def i_Cmp(a, b, w, s):
    if branch(i_Lt(a, b, w, s)): return A(0, ())
    if branch(i_Eq(a, b, w, s)): return A(1, ())
    return A(2, ())


def _checked(op, ext, add=True):
    def f(a, b, w, s):
        if a.__class__ is OFF or b.__class__ is OFF: return A(0, (strs.mkoff((a, b)) if add else strs.off_sub(a, b), False))
        if isint(a, b):
            r = op(a, b)
            q = wrap(r, w, s)
            return A(0, (q, q != r))
        a, b = bv(a, w), bv(b, w)
        e = z3.SignExt if s else z3.ZeroExt
        k = w if ext else 2
        r = op(e(k, a), e(k, b))
        lo = z3.Extract(w - 1, 0, r)
        return A(0, (norm(lo, w, s), normb(e(k, lo) != r)))
    return f


c_Add = _checked(lambda a, b: a + b, False)
c_Sub = _checked(lambda a, b: a - b, False, False)
c_Mul = _checked(lambda a, b: a * b, True)


def u_Not(a, w, s):
    if a.__class__ is int: return wrap(~a, w, s)
    return norm(~a, w, s)


def u_Neg(a, w, s):
    if a.__class__ is int: return wrap(-a, w, s)
    return norm(-a, w, s)


def i2i(x, w1, s1, w2, s2):
    if x.__class__ is int: return wrap(x, w2, s2)
    if x.__class__ is bool: return int(x)
    if not z3.is_bv(x): raise Undecided('integer cast of %r' % (x,))
    w1 = x.size()
    if w2 > w1: x = (z3.SignExt if s1 else z3.ZeroExt)(w2 - w1, x)
    elif w2 < w1: x = z3.Extract(w2 - 1, 0, x)
    return norm(x, w2, s2)


def b2i(x, w):
    if x.__class__ is bool: return int(x)
    return z3.If(x, BV(1, w), BV(0, w))


def enum2i(x, fr, to):
    t = S.prog.types[fr]
    return S.prog.int_const(to, int(t['v'][x.v]['d']))


# ---------------------------------------------------------------- bools

def bb(x): return z3.BoolVal(x) if x.__class__ is bool else x


def b_Eq(a, b):
    if a.__class__ is bool and b.__class__ is bool: return a is b
    return normb(bb(a) == bb(b))


def b_Ne(a, b):
    if a.__class__ is bool and b.__class__ is bool: return a is not b
    return normb(bb(a) != bb(b))


def b_BitAnd(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return normb(z3.And(a, b))


def b_BitOr(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return normb(z3.Or(a, b))


b_BitXor = b_Ne


def b_Not(a):
    if a.__class__ is bool: return not a
    return normb(z3.Not(a))


def b_Lt(a, b): return b_BitAnd(b_Not(a), b)
def b_Gt(a, b): return b_BitAnd(a, b_Not(b))
def b_Le(a, b): return b_BitOr(b_Not(a), b)
def b_Ge(a, b): return b_BitOr(a, b_Not(b))


def b_Cmp(a, b):
    if branch(b_Lt(a, b)): return A(0, ())
    if branch(b_Eq(a, b)): return A(1, ())
    return A(2, ())


def f_bin(*a): raise Undecided('floating point')
def f_un(*a): raise Undecided('floating point')
def fcast(*a): raise Undecided('floating point')


# ---------------------------------------------------------------- places and pointers

def cint(i):
    if i.__class__ is int: return i
    raise Undecided('symbolic index')


def index(v, i): return v[cint(i)]


def at(p, i):
    S.idx += 1
    return p.at(cint(i))


def lenof(p):
    if p.__class__ is Ptr:
        if p.m.__class__ is tuple: return p.m[1] - p.m[0]
        v = p.get()
        if v.__class__ is tuple: return len(v)
    return ptrmeta(p)


def ptrmeta(p):
    if p.__class__ is Ptr:
        if p.m.__class__ is tuple: return p.m[1] - p.m[0]
        if p.m is None: return UNIT
    r = getattr(p, 'ptrmeta', None)
    if r is not None: return r()
    raise Undecided('metadata of %r' % (p,))


def subslice(p, fr, to, end):
    lo, hi = p.m if p.m.__class__ is tuple else (0, len(p.get()))
    return Ptr(p.c, p.p, (lo + fr, hi - to if end else lo + to))


def getslice(self):
    v = self.get()
    if self.m.__class__ is tuple: return v[self.m[0]:self.m[1]]
    return v


Ptr.getslice = getslice


def unsize_slice(p, n):
    if p.__class__ is Ptr:
        return Ptr(p.c, p.p, (0, n))
    if p.__class__ is ArcV: return p
    if p.__class__ is A: return mapptr(p, lambda q: unsize_slice(q, n))
    raise Undecided('unsize')


def mapptr(v, f):
    """Apply `f` to the one pointer within nested wrappers"""
    if v.__class__ is Ptr or v.__class__ is ArcV: return f(v)
    if v.__class__ is A and v.f: return A(v.v, (mapptr(v.f[0], f),) + v.f[1:])
    raise Undecided('no pointer inside')


def unsize_dyn(p, ty):
    if p.__class__ is Ptr: return Ptr(p.c, p.p, ty)
    if p.__class__ is A: return mapptr(p, lambda q: unsize_dyn(q, ty))
    if p.__class__ is ArcV:
        q = ArcV.__new__(ArcV)
        q.c = p.c
        return Dyn(q, ty)
    return DynV(p, ty)


class DynV:
    """`dyn` behind a reference to a native value"""
    __slots__ = ('p', 'm')

    def __init__(self, p, m):
        self.p = p
        self.m = m


def Dyn(q, ty): return DynV(q, ty)


def ptr2ptr(p, fr, to):
    if p.__class__ is Ptr:
        T = S.prog.types
        te = T[T[to]['e']]['k']
        if p.m.__class__ is tuple and te not in ('slice', 'str'): return Ptr(p.c, p.p + (p.m[0],))
        if p.m is not None and te not in ('slice', 'str', 'dyn'): return Ptr(p.c, p.p)
    return p


def rawptr(p, *m):
    if m and m[0].__class__ is int:
        if p.__class__ is Ptr and p.p and p.p[-1].__class__ is int:
            lo = p.p[-1]
            return Ptr(p.c, p.p[:-1], (lo, lo + m[0]))
        raise Undecided('raw slice')
    return p


def ptr_bin(op, a, b):
    if op == 'Offset':
        return ptr_add(a, b)
    if op in ('Eq', 'Ne'):
        r = ptr_eq(a, b)
        return r if op == 'Eq' else not r
    raise Undecided('pointer comparison')


def ptr_add(p, n):
    if p.__class__ is Ptr and n.__class__ is int:
        if p.p and p.p[-1].__class__ is int: return Ptr(p.c, p.p[:-1] + (p.p[-1] + n,))
        if n == 0: return p
    raise Undecided('pointer arithmetic')


def ptr_eq(a, b):
    while a.__class__ is A and a.f: a = a.f[0]
    while b.__class__ is A and b.f: b = b.f[0]
    if a.__class__ is Ptr and b.__class__ is Ptr: return a.c is b.c and a.p == b.p
    if a.__class__ is FnV and b.__class__ is FnV: raise Undecided('fn pointer comparison')
    raise Undecided('pointer comparison of %r %r' % (a, b))


def transmute(v, fr, to):
    T = S.prog.types
    tt, ft = T[to], T[fr]
    if tt['k'] in ('ptr', 'ref', 'int', 'char', 'bool', 'fnptr', 'float', 'other'):
        if ft['k'] in ('float',) and tt['k'] == 'int': return v.d
        if ft['k'] == 'int' and tt['k'] == 'float': return Ext('f64', v)
        while v.__class__ is A:
            fs = [x for x in v.f if not (x.__class__ is A and not x.f) and x is not UNDEF]
            if len(fs) != 1: raise Undecided('transmute')
            v = fs[0]
        # the address of a live allocation is only looked at by the compiler's own null and alignment checks
        if tt['k'] == 'int' and isinstance(v, Ptr): return 1 << 20
        if tt['k'] == 'bool' and ft['k'] == 'int': return branch(i_Ne(v, 0, 8, False))
        return v
    if tt['k'] == 'adt':
        if v.__class__ is A and ft['k'] == 'adt':
            if ft['d'] == tt['d']: return v
            return transmute_wrap(transmute_inner(v), to)
        return transmute_wrap(v, to)
    if tt['k'] == 'array' and ft['k'] == 'array': return v
    raise Undecided('transmute to %s' % tt['k'])


def transmute_inner(v):
    while v.__class__ is A:
        fs = [x for x in v.f if not (x.__class__ is A and not x.f)]
        if len(fs) != 1: raise Undecided('transmute')
        v = fs[0]
    return v


def transmute_wrap(v, to):
    T = S.prog.types
    t = T[to]
    if t['k'] != 'adt': return v
    if t['d'] in S.prog.native_adts: return v
    if t['kind'] == 'enum':
        # Option<NonZero..>, Option<&T>, field-less enums
        if all(not x['f'] for x in t['v']):
            if v.__class__ is not int: raise Undecided('transmute to enum')
            for i, x in enumerate(t['v']):
                if int(x['d']) == v: return A(i, ())
        raise Undecided('transmute to enum')
    fs = t['v'][0]['f']
    if t['kind'] == 'union': return A(0, (v,))
    out = []
    done = False
    for n, f in fs:
        ft = T[f]
        if not done and not zero_sized(f):
            out.append(transmute_wrap(v, f))
            done = True
        else: out.append(S.prog.zst(f))
    return A(0, tuple(out))


def zero_sized(i):
    t = S.prog.types[i]
    k = t['k']
    if k == 'tuple' or k == 'closure': return all(zero_sized(x) for x in t['es'])
    if k == 'fndef': return True
    if k == 'adt': return t['kind'] == 'struct' and all(zero_sized(f[1]) for f in t['v'][0]['f'])
    return False


# ---------------------------------------------------------------- control

def swval(x, vals, w):
    if x.__class__ is bool: return int(x)
    if z3.is_bool(x):
        return int(branch(x))
    if x.__class__ is OFF:
        for v in vals:
            if strs.off_eq(x, v): return v
        return None
    if not z3.is_bv(x): raise Undecided('switch on %r' % (x,))
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        n = x.as_long()
        for v in vals:
            if v % (1 << w) == n: return v
        return None
    k = switch(x, [v % (1 << w) for v in vals], w)
    return vals[k] if k < len(vals) else None


def assert_(c, expected, msg):
    """A proof obligation arising from the code: no overflow, no index out of bounds"""
    if c.__class__ is bool:
        if c is expected:
            S.n_chk += 1
            S.n_triv += 1
            return
        panic(msg)
    check(c if expected else z3.Not(c), 'no panic: ' + msg)


def pcall(f, *a):
    if f.__class__ is FnV:
        g = S.prog.fns[f.i]
        if g['sp'] and g['k'] == 'shim': return S.prog.G[S.prog.fn(f.i)](UNIT, A(0, a))
        return S.prog.G[S.prog.fn(f.i)](*a)
    raise Undecided('call through %r' % (f,))


def vcall(v, *a):
    p = a[0]
    q = p
    while q.__class__ is A: q = q.f[0]
    m = q.m
    i = S.prog.virt.get((v, m))
    if i is None: raise Undecided('virtual call')
    if q.__class__ is DynV: r = q.p
    else: r = Ptr(q.c, q.p)
    return S.prog.G[S.prog.fn(i)](r, *a[1:])
