"""Native models of library functions (the trusted base) and of the verification intrinsics,
keyed by definition path."""
import z3
from core import *
import rt
import strs
import leaf
from leaf import Leaf, Lazy, unexp, same_leaf, fresh, F_cls, F_ocls
from rt import DynV, ptr_eq, bv, norm, normb

THROUGH = set()  # contracts which may fall back to the body
MODELS = {}      # definition path -> factory (P, i, f) -> function or None
NONE = A(0, ())
NATIVE_ADTS = {'std::vec::Vec', 'std::sync::Arc', 'std::string::String', 'std::slice::Iter', 'std::vec::IntoIter', 'num_bigint::BigUint', 'num_bigint::BigInt', 'std::collections::HashMap', 'std::collections::HashSet', 'std::fmt::Formatter', 'std::fmt::Arguments'}


def Some(x): return A(1, (x,))
def Ok(x): return A(0, (x,))
def Err(x): return A(1, (x,))


def m(*paths):
    def deco(fn):
        for p in paths: MODELS[p] = lambda P, i, f: fn
        return fn
    return deco


def mf(*paths):
    def deco(fac):
        for p in paths: MODELS[p] = fac
        return fac
    return deco


def contract(*paths):
    """Factory with access to the real body: fac(P, i, f, body) -> function"""
    def deco(fac):
        for p in paths:
            def g(P, i, f, fac=fac):
                body = [P.body(i)] if f['b'] else []

                def run(*a):
                    if not body: body.append(P.body(i))
                    return body[0](*a)
                return fac(P, i, f, run)
            MODELS[p] = g
            THROUGH.add(p)
        return fac
    return deco


def use_contract(name): S.used_con.add(name)


def model_names():
    return sorted(MODELS)


# ---------------------------------------------------------------- intrinsics of the contracts

V = 'contracts::vc::'
G = 'contracts::gen::'


@m(V + 'choose')
def _(n):
    if n.__class__ is not int: raise Undecided('choose')
    k = split(n) if n > 1 else 0
    S.tokens = S.tokens + [('const', k)]
    return k


@m(G + 'any_len')
def _(n):
    k = split(3)
    S.tokens = S.tokens + [('const', k)]
    if k == 2: S.full = True
    return k


@m(G + 'any_from')
def _(n, _max):
    k = split(2)
    S.tokens = S.tokens + [('const', k)]
    if n + k == 2: S.full = True
    return n + k


@m(V + 'any_bool')
def _():
    b = z3.Bool(fresh_name('b'))
    S.tokens = S.tokens + [('bool', b)]
    return b


def any_int(w, signed):
    def f():
        x = z3.BitVec(fresh_name('n'), w)
        S.tokens = S.tokens + [('sint' if signed else 'int', x)]
        return x
    return f


for n_, w_, s_ in (('any_u16', 16, False), ('any_i16', 16, True), ('any_u64', 64, False), ('any_i64', 64, True)): m(V + n_)(any_int(w_, s_))


@m(V + 'any_char')
def _():
    c = strs.fresh_char()
    S.tokens = S.tokens + [('int', c)]
    return c


def any_str(kind):
    def f():
        s = strs.fresh_name(kind)
        S.tokens = S.tokens + [('fn', lambda model: strs.esc(strs.witness(s, model)))]
        return s
    return f


m(V + 'any_name')(any_str('name'))
m(V + 'any_line')(any_str('line'))
m(V + 'any_line_not_else')(any_str('line_not_else'))
m(V + 'any_word_line')(any_str('word_line'))
m(V + 'any_field_name')(any_str('ident'))


@m(V + 'any_plain')
def _():
    if split(2) == 0:
        S.tokens = S.tokens + [('const', 's:')]
        return strs.EMPTY
    return any_str('plain')()


@m(V + 'any_text')
def _():
    if split(2) == 0:
        S.tokens = S.tokens + [('const', 's:')]
        return strs.EMPTY
    return any_str('text')()


@m(V + 'depth')
def _(): return 1


@m(V + 'native')
def _(): return False


@m(V + 'assume')
def _(c):
    if c is True: return UNIT
    if c is False: raise Dead()
    assume(c)
    if check_sat() == z3.unsat: raise Dead()
    return UNIT


@m(V + 'check')
def _(c, what):
    check(c, what.concrete())
    return UNIT


@m(V + 'cover')
def _(what):
    if check_sat() != z3.unsat: S.covers.append(what.concrete())
    return UNIT


def new_leaf(ty, kind):
    S.leafs += 1
    l = Leaf(ty, kind)
    l.gen = True
    S.tokens = S.tokens + [('const', 'leaf:%d' % S.leafs)]
    return l


def leaf_model(kind):
    def fac(P, i, f):
        ty = f['sig'][-1]
        return lambda: new_leaf(ty, kind)
    return fac


mf(G + 'leaf_type')(leaf_model('type'))
mf(G + 'leaf_expr')(leaf_model('expr'))
mf(G + 'leaf_stmt')(leaf_model('stmt'))


@mf(G + 'leaf_cond')
def _(P, i, f):
    ty = f['sig'][-1]

    def g():
        l = leaf.conditional(ty)
        S.leafs += 1
        S.tokens = S.tokens + [('const', 'leaf:%d' % S.leafs)]
        return l
    return g


@m(G + 'any_biguint')
def _():
    x = z3.Int(fresh_name('big'))
    assume(x >= 0)
    S.tokens = S.tokens + [('fn', lambda mo: 'big:%d' % mo.eval(x, model_completion=True).as_long())]
    return Big(x)


@m(G + 'any_bigint')
def _():
    x = z3.Int(fresh_name('big'))
    S.tokens = S.tokens + [('fn', lambda mo: 'big:%d' % mo.eval(x, model_completion=True).as_long())]
    return Big(x)


for n_ in ('entity', 'memory', 'module'): m('contracts::env::' + n_)(lambda name: NONE)
m('contracts::env::declare')(lambda s: UNIT)


# ---------------------------------------------------------------- panics

def conc(s):
    try: return s.concrete() or '?'
    except Exception: return '?'


@m('core::panicking::panic', 'core::panicking::panic_str_literal', 'std::rt::begin_panic')
def _(*a): panic(conc(a[0]))


@m('core::panicking::panic_fmt', 'std::rt::panic_fmt')
def _(*a): panic('panic!')


@m('std::option::unwrap_failed', 'core::option::unwrap_failed')
def _(*a): panic('unwrap on None')


@m('std::option::expect_failed', 'core::option::expect_failed')
def _(*a): panic('expect: ' + conc(a[0]))


@m('std::result::unwrap_failed', 'core::result::unwrap_failed')
def _(*a): panic('unwrap on Err')


@m('core::panicking::assert_failed', 'core::panicking::assert_failed_inner')
def _(*a): panic('assertion failed')


@m('core::panicking::panic_bounds_check', 'core::slice::index::slice_index_fail', 'std::slice::index::slice_index_fail', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'core::panicking::panic_const::panic_const_div_by_zero')
def _(*a): panic('library panic')


# ---------------------------------------------------------------- drops, memory

m('std::mem::forget')(lambda *a: UNIT)


@m('std::mem::take')
def _(*a): raise Undecided('mem::take')


MODELS.pop('std::mem::take')


@m('std::ptr::read', 'core::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read')
def _(p): return p.get()


@m('std::ptr::write', 'core::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def _(p, v):
    p.set(v)
    return UNIT


@m('std::mem::replace', 'core::mem::replace')
def _(p, v):
    o = p.get()
    p.set(v)
    return o


@m('std::mem::swap')
def _(p, q):
    a, b = p.get(), q.get()
    p.set(b)
    q.set(a)
    return UNIT


@m('std::hint::must_use', 'std::hint::black_box', 'core::hint::must_use')
def _(x): return x


@m('std::hint::assert_unchecked', 'core::hint::assert_unchecked')
def _(c):
    return UNIT


m('core::ub_checks::check_language_ub')(lambda: False)
m('core::ub_checks::check_library_ub')(lambda: False)


# ---------------------------------------------------------------- intrinsics

def intrinsic(name):
    def deco(fn):
        MODELS['std::intrinsics::' + name] = lambda P, i, f: fn
        return fn
    return deco


intrinsic('ub_checks')(lambda: False)
intrinsic('cold_path')(lambda: UNIT)
intrinsic('assume')(lambda c: UNIT)
intrinsic('likely')(lambda c: c)
intrinsic('unlikely')(lambda c: c)
intrinsic('black_box')(lambda c: c)


@intrinsic('abort')
def _(): panic('abort')


@mf('std::intrinsics::discriminant_value')
def _(P, i, f):
    ty = f['ga'][0]
    t = P.types[ty]

    def g(p):
        v = p.get()
        if v.__class__ is int or v.__class__ is bool: return int(v)
        return int(t['v'][v.v]['d'])
    return g


@mf('std::intrinsics::size_of', 'std::mem::size_of', 'std::intrinsics::min_align_of', 'std::mem::align_of', 'std::intrinsics::align_of')
def _(P, i, f):
    z = rt.zero_sized(f['ga'][0])
    return lambda: 0 if z else 8


m('std::intrinsics::needs_drop', 'std::mem::needs_drop')(lambda: False)
m('std::intrinsics::type_id')(lambda: (_ for _ in ()).throw(Undecided('type_id')))


@mf('std::intrinsics::transmute')
def _(P, i, f):
    fr, to = f['ga'][0], f['ga'][1]
    return lambda v: rt.transmute(v, fr, to)


def width_of(P, f, k=0): return P.wid(f['ga'][k])


def arith(name, op):
    @mf('std::intrinsics::' + name)
    def _(P, i, f):
        w, s = width_of(P, f)
        return lambda a, b: op(a, b, w, s)


arith('wrapping_add', rt.i_Add)
arith('wrapping_sub', rt.i_Sub)
arith('wrapping_mul', rt.i_Mul)
arith('unchecked_add', rt.i_Add)
arith('unchecked_sub', rt.i_Sub)
arith('unchecked_mul', rt.i_Mul)
arith('unchecked_div', rt.i_Div)
arith('unchecked_rem', rt.i_Rem)
arith('exact_div', rt.i_Div)
arith('add_with_overflow', rt.c_Add)
arith('sub_with_overflow', rt.c_Sub)
arith('mul_with_overflow', rt.c_Mul)
arith('three_way_compare', rt.i_Cmp)


@mf('std::intrinsics::integer_max')
def _(P, i, f):
    w, s = width_of(P, f)
    return lambda a, b: ite(rt.i_Lt(a, b, w, s), b, a, w, s)


@mf('std::intrinsics::integer_min')
def _(P, i, f):
    w, s = width_of(P, f)

    def g(a, b):
        if a.__class__ is strs.Off or b.__class__ is strs.Off: return a if strs.off_cmp('Le', a, b) else b
        return ite(rt.i_Lt(b, a, w, s), b, a, w, s)
    return g


@mf('std::intrinsics::unchecked_shl')
def _(P, i, f):
    w, s = width_of(P, f)
    w2, _s = width_of(P, f, 1)
    return lambda a, b: rt.i_Shl(a, b, w, s, w2)


@mf('std::intrinsics::unchecked_shr')
def _(P, i, f):
    w, s = width_of(P, f)
    w2, _s = width_of(P, f, 1)
    return lambda a, b: rt.i_Shr(a, b, w, s, w2)


def ite(c, a, b, w, s):
    if c is True: return a
    if c is False: return b
    return norm(z3.If(c, bv(a, w), bv(b, w)), w, s)


@mf('std::intrinsics::saturating_add')
def _(P, i, f):
    w, s = width_of(P, f)
    hi = (1 << (w - 1)) - 1 if s else (1 << w) - 1
    lo = -(1 << (w - 1)) if s else 0

    def g(a, b):
        if rt.isint(a, b): return max(lo, min(hi, a + b))
        r = rt.c_Add(a, b, w, s).f
        sat = hi if not s else ite(rt.i_Lt(b, 0, w, s), lo, hi, w, s)
        return ite(r[1], sat, r[0], w, s)
    return g


@mf('std::intrinsics::saturating_sub')
def _(P, i, f):
    w, s = width_of(P, f)
    hi = (1 << (w - 1)) - 1 if s else (1 << w) - 1
    lo = -(1 << (w - 1)) if s else 0

    def g(a, b):
        if rt.isint(a, b): return max(lo, min(hi, a - b))
        if a.__class__ is strs.Off or b.__class__ is strs.Off:
            try: return strs.off_sub(a, b)
            except Undecided: raise
        r = rt.c_Sub(a, b, w, s).f
        sat = lo if not s else ite(rt.i_Lt(b, 0, w, s), hi, lo, w, s)
        return ite(r[1], sat, r[0], w, s)
    return g


@mf('std::intrinsics::select_unpredictable')
def _(P, i, f):
    return lambda c, a, b: a if branch(c) else b


# ---------------------------------------------------------------- comparison helpers

# clones of scalars are copies by their bodies


# ---------------------------------------------------------------- Arc

def tgt(p):
    """The value behind a pointer"""
    return p.get()


@m('std::sync::Arc::<T>::new')
def _(x): return ArcV(x)


@m('<std::sync::Arc<T, A> as std::clone::Clone>::clone')
def _(p): return p.get()


def arc_deref(p):
    a = p.get()
    return arc_ref(a)


def arc_ref(a):
    if a.__class__ is ArcV:
        x = a.c.x
        return Ptr(a.c, (), (0, len(x)) if x.__class__ is tuple else None)
    if a.__class__ is strs.Str: return a
    if a.__class__ is DynV: return Ptr(a.p.c, (), a.m)
    raise Undecided('deref of %r' % (a,))


m('<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref', '<std::sync::Arc<T, A> as std::borrow::Borrow<T>>::borrow')(arc_deref)


@m('std::sync::Arc::<T, A>::ptr_eq')
def _(p, q):
    a, b = p.get(), q.get()
    if a.__class__ is ArcV and b.__class__ is ArcV: return a is b or a.c is b.c
    raise Undecided('ptr_eq')


@m('<std::sync::Arc<str> as std::convert::From<&str>>::from', '<std::sync::Arc<str> as std::convert::From<std::string::String>>::from')
def _(s): return s


@m('<std::sync::Arc<[T], A> as std::convert::From<std::vec::Vec<T, A>>>::from', '<std::sync::Arc<[T]> as std::convert::From<std::vec::Vec<T>>>::from')
def _(v): return ArcV(v)


# Box<T>: not interpreted natively beyond `vec!`
@mf('std::boxed::Box::<T>::new_uninit', 'std::boxed::box_new_uninit')
def _(P, i, f):
    return lambda *a: BoxNew()


class BoxNew(Ptr):
    __slots__ = ()

    def __init__(self): Ptr.__init__(self, Cell(), ())

    @property
    def f(self): return (self,)


@m('std::boxed::box_assume_init_into_vec_unsafe')
def _(b):
    v = b.get()
    while v.__class__ is A and v.f:
        fs = [x for x in v.f if x is not UNDEF and not (x.__class__ is A and not x.f)]
        if len(fs) != 1: raise Undecided('vec!')
        v = fs[0]
    if v.__class__ is not tuple: raise Undecided('vec!')
    return v


# ---------------------------------------------------------------- Vec and slices

m('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')(lambda *a: ())


@m('std::vec::Vec::<T, A>::push')
def _(p, x):
    p.set(p.get() + (x,) if x.__class__ is not Splice else RVec(tuple.__add__(p.get(), (x,))))
    return UNIT


@m('std::vec::Vec::<T, A>::pop')
def _(p):
    v = p.get()
    if not v: return NONE
    p.set(v[:-1])
    return Some(v[-1])


m('std::vec::Vec::<T, A>::len')(lambda p: len(p.get()))
m('std::vec::Vec::<T, A>::is_empty')(lambda p: len(p.get()) == 0)
m('std::vec::Vec::<T, A>::reserve')(lambda p, n: UNIT)


def vec_slice(p):
    if p.__class__ is Ptr: return Ptr(p.c, p.p, (0, len(p.get())))
    raise Undecided('slice of a vector')


m('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')(vec_slice)


def bounds(p):
    if p.m.__class__ is tuple: return p.m
    return (0, len(p.get()))


class SI:
    """slice::Iter"""
    __slots__ = ('p', 'i', 'j')

    def __init__(self, p, i, j):
        self.p = p
        self.i = i
        self.j = j

    def el(self, k): return Ptr(self.p.c, self.p.p + (k,))


Splice = RVec = RVI = None      # set by loops.py


class VI:
    """vec::IntoIter"""
    __slots__ = ('v', 'i', 'j')

    def __init__(self, v, i, j):
        self.v = v
        self.i = i
        self.j = j

    def el(self, k): return self.v[k]


def mk(it, i, j): return SI(it.p, i, j) if it.__class__ is SI else VI(it.v, i, j)


def slice_iter(p):
    lo, hi = bounds(p)
    return SI(Ptr(p.c, p.p), lo, hi)


m('core::slice::<impl [T]>::iter', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter', 'core::slice::<impl [T]>::iter_mut', 'std::slice::Iter::<\'a, T>::new')(slice_iter)


@m('<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def _(p): return slice_iter(p)


@m('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def _(v): return VI(v, 0, len(v)) if v.__class__ is not RVec else RVI(v)


def it_next(p):
    it = p.get()
    if it.i >= it.j: return NONE
    p.set(mk(it, it.i + 1, it.j))
    return Some(it.el(it.i))


def it_back(p):
    it = p.get()
    if it.i >= it.j: return NONE
    p.set(mk(it, it.i, it.j - 1))
    return Some(it.el(it.j - 1))


for t_ in ("std::slice::Iter<'a, T>", "std::slice::IterMut<'a, T>", 'std::vec::IntoIter<T, A>'):
    m('<%s as std::iter::Iterator>::next' % t_)(it_next)
    m('<%s as std::iter::DoubleEndedIterator>::next_back' % t_)(it_back)

    @m('<%s as std::iter::Iterator>::size_hint' % t_)
    def _(p):
        it = p.get()
        return A(0, (it.j - it.i, Some(it.j - it.i)))

    @m('<%s as std::iter::ExactSizeIterator>::len' % t_, '<%s as std::iter::Iterator>::count' % t_)
    def _(p):
        it = p.get() if p.__class__ is Ptr else p
        return it.j - it.i

    @m('<%s as std::iter::Iterator>::__iterator_get_unchecked' % t_)
    def _(p, k):
        it = p.get()
        return it.el(it.i + k)

    @m('<%s as std::iter::Iterator>::nth' % t_)
    def _(p, k):
        it = p.get()
        if it.i + k >= it.j:
            p.set(mk(it, it.j, it.j))
            return NONE
        p.set(mk(it, it.i + k + 1, it.j))
        return Some(it.el(it.i + k))

    @m('<%s as std::iter::Iterator>::advance_by' % t_)
    def _(p, k):
        it = p.get()
        if it.i + k > it.j: raise Undecided('advance_by')
        p.set(mk(it, it.i + k, it.j))
        return A(0, (UNIT,))

    @m('<%s as std::clone::Clone>::clone' % t_)
    def _(p): return p.get()

m("<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len")


@m("<std::slice::Iter<'_, T> as std::clone::Clone>::clone")
def _(p): return p.get()


@m("<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len")
def _(p):
    it = p.get()
    return it.j - it.i


@m("<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::is_empty")
def _(p):
    it = p.get()
    return it.j == it.i


@m("std::slice::Iter::<'a, T>::as_slice")
def _(p):
    it = p.get()
    return Ptr(it.p.c, it.p.p, (it.i, it.j))


@m('core::slice::<impl [T]>::len')
def _(p):
    lo, hi = bounds(p)
    return hi - lo


@m('core::slice::<impl [T]>::is_empty')
def _(p):
    lo, hi = bounds(p)
    return hi == lo


@m('core::slice::<impl [T]>::reverse')
def _(p):
    lo, hi = bounds(p)
    v = p.get()
    p.set(v[:lo] + v[lo:hi][::-1] + v[hi:])
    return UNIT


@m('core::slice::<impl [T]>::get')
def _(p, i):
    if i.__class__ is not int: raise Undecided('slice::get')
    lo, hi = bounds(p)
    return Some(p.at(i)) if i < hi - lo else NONE


@m('core::slice::<impl [T]>::first')
def _(p):
    lo, hi = bounds(p)
    return Some(p.at(0)) if hi > lo else NONE


@m('core::slice::<impl [T]>::last')
def _(p):
    lo, hi = bounds(p)
    return Some(p.at(hi - lo - 1)) if hi > lo else NONE


def slice_index(P, i, f):
    # Index<I> for [T] / Vec<T>
    it = None
    for g in f['ga']:
        if not isinstance(g, int): continue
        t = P.types[g]
        if t['k'] == 'int' and f['ga'].index(g) > 0: it = 'int'
        if t['k'] == 'adt' and t['d'].startswith('std::ops::Range'): it = t['d'].split('::')[-1]

    def g(p, k):
        lo, hi = bounds(p)
        n = hi - lo
        if k.__class__ is int:
            if k >= n: panic('index out of bounds')
            return Ptr(p.c, p.p + (lo + k,))
        if k.__class__ is A:
            if it == 'Range': a, b = k.f
            elif it == 'RangeFrom': a, b = k.f[0], n
            elif it == 'RangeTo': a, b = 0, k.f[0]
            elif it == 'RangeFull': a, b = 0, n
            else: raise Undecided('index by ' + str(it))
            if a.__class__ is not int or b.__class__ is not int: raise Undecided('symbolic range')
            if a > b or b > n: panic('range out of bounds')
            return Ptr(p.c, p.p, (lo + a, lo + b))
        raise Undecided('symbolic index')
    return g


mf('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')(slice_index)


# ---------------------------------------------------------------- contracts of the code under test on opaque sub-trees

def taint2(a, b, what):
    a.used.add(what)
    b.used.add(what)


@contract('<firrtl_ast::Type as std::cmp::PartialEq>::eq', '<firrtl_ast::types::OrientedType as std::cmp::PartialEq>::eq', '<firrtl_ast::Expression<R> as std::cmp::PartialEq>::eq', '<firrtl_ast::stmt::Statement as std::cmp::PartialEq>::eq', '<firrtl_ast::Statement as std::cmp::PartialEq>::eq', '<firrtl_ast::Expression as std::cmp::PartialEq>::eq')
def _(P, i, f, body):
    def g(p, q):
        a, b = p.get(), q.get()
        if a is b and (a.__class__ is Leaf): return True
        if unexp(a) and unexp(b):
            taint2(a, b, 'equality')
            return same_leaf(a, b)
        return body(p, q)
    return g


@contract('<firrtl_ast::Type as std::clone::Clone>::clone', '<firrtl_ast::types::OrientedType as std::clone::Clone>::clone', '<firrtl_ast::Expression<R> as std::clone::Clone>::clone', '<firrtl_ast::Statement as std::clone::Clone>::clone', '<firrtl_ast::stmt::Statement as std::clone::Clone>::clone')
def _(P, i, f, body):
    def g(p):
        a = p.get()
        if a.__class__ is Leaf: return a
        return body(p)
    return g


@contract('<firrtl_ast::Type as firrtl_ast::types::TypeExt>::eq')
def _(P, i, f, body):
    def g(p, q):
        a, b = p.get(), q.get()
        if unexp(a) and unexp(b):
            use_contract('TypeExt::eq on a sub-tree: an equivalence relation')
            taint2(a, b, 'equivalence')
            if a is b: return True
            return normb(F_cls(a.vid) == F_cls(b.vid))
        return body(p, q)
    return g


# orientation of an opaque type: a leaf of its own, identified by (type, orientation)
F_orient = z3.Function('orient', z3.IntSort(), z3.IntSort(), z3.IntSort())
F_pass = z3.Function('passive', z3.IntSort(), z3.BoolSort())
F_opass = z3.Function('opassive', z3.IntSort(), z3.BoolSort())


def orient_leaf(t, o, oty):
    # o: 0 normal, 1 flipped
    k = ('o', o)
    r = t.memo.get(k)
    if r is None:
        r = Leaf(oty, 'otype', F_orient(t.vid, z3.IntVal(o)))
        r.src = (t, o)
        t.memo[k] = r
        t.used.add('orientation')
    return r


@contract('firrtl_ast::Type::with_orientation')
def _(P, i, f, body):
    oty = f['sig'][-1]

    def g(p, o):
        t = p.get()
        if unexp(t):
            use_contract('Type::with_orientation on a sub-tree: some oriented type')
            return orient_leaf(t, o.v, oty)
        return body(p, o)
    return g


F_mask = z3.Function('mask', z3.IntSort(), z3.IntSort())


@contract('<firrtl_ast::Memory as firrtl_ast::types::Typed>::r#type::mask', '<firrtl_ast::memory::Memory as firrtl_ast::types::Typed>::r#type::mask')
def _(P, i, f, body):
    ty = f['sig'][-1]

    def g(p):
        t = p
        while t.__class__ is Ptr: t = t.get()
        if not unexp(t): return body(p)
        use_contract('mask type of an opaque type: some type satisfying the definition of masks (is_mask)')
        r = t.memo.get('mask')
        if r is None:
            r = Leaf(ty, 'type', F_mask(t.vid))
            r.maskof = t
            t.memo['mask'] = r
            t.used.add('mask')
        return r
    return g


@contract('contracts::entity::is_mask')
def _(P, i, f, body):
    def g(p, q):
        t, r = p, q
        while t.__class__ is Ptr: t = t.get()
        while r.__class__ is Ptr: r = r.get()
        if unexp(t) and unexp(r) and r.maskof is t: return True
        return body(p, q)
    return g


def expand_otype(l):
    """The oriented form of an opaque type is the real function applied to the expanded type"""
    t, o = l.src
    t.v
    P = S.prog
    i = next(k for k, f in enumerate(P.fns) if f['d'] == 'firrtl_ast::Type::with_orientation')
    return P.callf(i, Ptr(Cell(t)), A(o, ()))


@contract('firrtl_ast::types::OrientedType::flipped')
def _(P, i, f, body):
    oty = f['sig'][-1]

    def g(p):
        t = p.get()
        if unexp(t) and t.src is not None:
            use_contract('OrientedType::flipped on a sub-tree: the other orientation')
            return orient_leaf(t.src[0], 1 - t.src[1], oty)
        return body(p)
    return g


@contract('<firrtl_ast::types::OrientedType as firrtl_ast::types::TypeExt>::eq')
def _(P, i, f, body):
    def g(p, q):
        a, b = p.get(), q.get()
        if unexp(a) and unexp(b) and a.src and b.src:
            use_contract('TypeExt::eq on an oriented sub-tree: an equivalence relation, implied by the equivalence of types of the same orientation')
            taint2(a, b, 'equivalence')
            taint2(a.src[0], b.src[0], 'equivalence')
            if a is b: return True
            return normb(F_ocls(F_cls(a.src[0].vid), z3.IntVal(a.src[1])) == F_ocls(F_cls(b.src[0].vid), z3.IntVal(b.src[1])))
        return body(p, q)
    return g


@contract('<firrtl_ast::Type as firrtl_ast::types::TypeExt>::is_passive')
def _(P, i, f, body):
    def g(p):
        t = p.get()
        if unexp(t):
            t.used.add('is_passive')
            use_contract('TypeExt::is_passive on a sub-tree: some predicate')
            return F_pass(t.vid)
        return body(p)
    return g


@contract('<firrtl_ast::types::OrientedType as firrtl_ast::types::TypeExt>::is_passive')
def _(P, i, f, body):
    def g(p):
        t = p.get()
        if unexp(t) and t.src:
            t.used.add('is_passive')
            use_contract('TypeExt::is_passive on an oriented sub-tree: holds for passive types of normal orientation')
            c = F_opass(t.vid)
            if t.src[1] == 0:
                t.src[0].used.add('is_passive')
                assume(z3.Implies(F_pass(t.src[0].vid), c))
            return c
        return body(p)
    return g


F_cok = z3.Function('combines', z3.IntSort(), z3.IntSort(), z3.BoolSort())
F_comb = z3.Function('combined', z3.IntSort(), z3.IntSort(), z3.IntSort())


@contract('firrtl_ast::types::r#type::<impl firrtl_ast::types::Combinator<firrtl_ast::Type> for C>::combine')
def _(P, i, f, body):
    mx = any(isinstance(g, int) and P.types[g].get('d', '').endswith('MaxWidth') for g in f['ga'])
    rty = f['sig'][-1]
    tty = P.types[rty]['a'][0] if P.types[rty]['k'] == 'adt' else None

    def g(c, p, q):
        a, b = p.get(), q.get()
        if unexp(a) and unexp(b):
            if not mx: raise Undecided('combination of opaque types')
            use_contract('Combinator<Type>::combine on sub-trees: some partial function')
            taint2(a, b, 'combination')
            if branch(F_cok(a.vid, b.vid)):
                k = ('comb', id(b))
                r = a.memo.get(k)
                if r is None:
                    r = Leaf(tty, 'type', F_comb(a.vid, b.vid))
                    a.memo[k] = r
                return Ok(r)
            return Err(A(0, (p, q)))
        return body(c, p, q)
    return g


def memoised(name, kind):
    def fac(P, i, f, body):
        rty = f['sig'][-1]

        def g(p):
            e = p.get()
            if unexp(e):
                use_contract(name + ' on a sub-tree: some result')
                k = (kind, rty)
                r = e.memo.get(k)
                if r is None:
                    r = fresh(rty)
                    e.memo[k] = r
                    e.used.add(name)
                return r
            return body(p)
        return g
    return fac


contract('<firrtl_ast::Expression<R> as firrtl_ast::types::Typed>::r#type')(memoised('Expression::type', 'type'))
contract('firrtl_ast::Expression::<R>::flow')(memoised('Expression::flow', 'flow'))


# ---------------------------------------------------------------- big integers

m('<num_bigint::BigUint as std::clone::Clone>::clone', '<num_bigint::BigInt as std::clone::Clone>::clone')(lambda p: p.get())


@m('<num_bigint::BigUint as std::cmp::PartialEq>::eq', '<num_bigint::BigInt as std::cmp::PartialEq>::eq')
def _(p, q): return strs.num_eq(p.get().x, q.get().x) if p is not q else True


@m('num_bigint::bigint::convert::<impl std::convert::From<num_bigint::BigUint> for num_bigint::BigInt>::from')
def _(x): return x


@m('<num_bigint::BigInt as std::ops::Neg>::neg')
def _(x): return Big(-x.x)


# ---------------------------------------------------------------- strings

def sv(p):
    """The string behind any reference"""
    while p.__class__ is Ptr: p = p.get()
    if p.__class__ is not strs.Str: raise Undecided('string expected: %r' % (p,))
    return p


@m('core::str::traits::<impl std::cmp::PartialEq for str>::eq', '<std::string::String as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq<str>>::eq', '<std::string::String as std::cmp::PartialEq<&str>>::eq', 'std::string::<impl std::cmp::PartialEq<std::string::String> for &str>::eq', 'std::string::<impl std::cmp::PartialEq<std::string::String> for str>::eq')
def _(p, q): return strs.eq(sv(p), sv(q))
