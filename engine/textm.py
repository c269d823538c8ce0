"""Native models of the text side of the library: String, str, char, formatting, parsing of numbers,
the text primitives of nom, hash maps and queues (part of the trusted base)."""
import itertools
import z3
from core import *
import rt
import strs
import models
from strs import Str, Run, Chr, Dec, Piece, EMPTY, concat, lit, Off
from models import m, mf, MODELS, THROUGH, NONE, Some, Ok, Err, sv, NATIVE_ADTS
from leaf import unexp

NATIVE_ADTS |= {'std::collections::VecDeque', 'std::str::Chars', 'std::str::CharIndices', 'std::hash::RandomState', 'std::collections::hash_map::Iter'}


# ---------------------------------------------------------------- calls of closures

def callv(ty, val, *args):
    """Call a closure, function item, function pointer or reference to one"""
    P = S.prog
    t = P.types[ty]
    k = t['k']
    if k == 'closure':
        if t.get('i') is None: raise Undecided('closure without body')
        return P.G[P.fn(t['i'])](val if t['by'] == 'v' else Ptr(Cell(val)), *args)
    if k == 'fndef': return P.G[P.fn(t['i'])](*args)
    if k == 'ref': return callp(t['e'], val, *args)
    if k == 'fnptr': return rt.pcall(val, *args)
    raise Undecided('call of a ' + k)


def callp(ty, p, *args):
    """The same behind a pointer"""
    P = S.prog
    t = P.types[ty]
    if t['k'] == 'closure' and t.get('i') is not None and t['by'] != 'v': return P.G[P.fn(t['i'])](p, *args)
    return callv(ty, p.get(), *args)


# ---------------------------------------------------------------- characters

def char_atom(c):
    if c.__class__ is int: return chr(c)
    w = strs.charval(c)
    return w if w is not None else Chr(c)


@m('std::char::methods::<impl char>::is_alphanumeric')
def _(c): return strs.is_alphanumeric(c)


@m('std::char::methods::<impl char>::is_alphabetic')
def _(c): return strs.is_alphabetic(c)


@m('std::char::methods::<impl char>::is_numeric')
def _(c): return strs.is_numeric(c)


@m('std::char::methods::<impl char>::is_whitespace')
def _(c): return strs.is_whitespace(c)


@m('std::char::methods::<impl char>::len_utf8')
def _(c): return strs.clen(c)


def slice_contains(P, i, f):
    t = P.types[f['ga'][0]]
    if t['k'] not in ('char', 'int'): return None
    w, s = P.wid(f['ga'][0])

    def g(p, x):
        lo, hi = models.bounds(p)
        v = p.get()
        c = x.get()
        return strs.Or(*[rt.i_Eq(v[k], c, w, s) for k in range(lo, hi)])
    return g


mf('core::slice::<impl [T]>::contains')(slice_contains)
THROUGH.add('core::slice::<impl [T]>::contains')


# ---------------------------------------------------------------- String

m('std::string::String::new', 'std::string::String::with_capacity', '<std::string::String as std::default::Default>::default')(lambda *a: EMPTY)
m('std::string::String::reserve', 'std::string::String::shrink_to_fit')(lambda *a: UNIT)


def app(p, s):
    """Append to the string behind a pointer"""
    o = sv(p)
    while p.get().__class__ is Ptr: p = p.get()
    p.set(s if o.empty() else concat(o, s))


@m('std::string::String::push')
def _(p, c):
    app(p, Str((char_atom(c),)))
    return UNIT


@m('std::string::String::push_str')
def _(p, s):
    app(p, sv(s))
    return UNIT


@m('std::string::String::pop')
def _(p):
    t = sv(p).atoms()
    if not t: return NONE
    a = t[-1]
    if a.__class__ is str: c = ord(a)
    elif a.__class__ is Chr: c = a.x
    else: raise Undecided('String::pop')
    p.set(Str(t[:-1]))
    return Some(c)


@m('std::string::String::clear')
def _(p):
    p.set(EMPTY)
    return UNIT


m('std::string::String::len', 'core::str::<impl str>::len')(lambda p: strs.length(sv(p)))
m('std::string::String::is_empty', 'core::str::<impl str>::is_empty')(lambda p: sv(p).empty())
m('std::string::String::as_str', 'std::string::String::as_mut_str', '<std::string::String as std::ops::Deref>::deref', '<std::string::String as std::ops::DerefMut>::deref_mut', '<std::string::String as std::convert::AsRef<str>>::as_ref', '<str as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow', '<std::string::String as std::clone::Clone>::clone', '<std::string::String as std::convert::From<&str>>::from', 'std::string::<impl std::convert::From<&str> for std::string::String>::from', 'std::str::<impl std::borrow::ToOwned for str>::to_owned', 'std::string::String::into_boxed_str', '<std::string::String as std::convert::From<&std::string::String>>::from', '<std::boxed::Box<str> as std::convert::From<&str>>::from', 'std::str::<impl str>::to_owned', 'std::str::<impl str>::into_string', '<str as std::string::SpecToString>::spec_to_string', '<std::string::String as std::string::SpecToString>::spec_to_string', '<std::sync::Arc<str> as std::convert::From<&str>>::from', '<std::string::String as std::string::ToString>::to_string')(sv)


@m('<char as std::string::SpecToString>::spec_to_string', '<std::string::String as std::convert::From<char>>::from')
def _(p): return Str((char_atom(p.get() if p.__class__ is Ptr else p),))


def string_ne(p, q):
    r = strs.eq(sv(p), sv(q))
    return rt.b_Not(r)


m('<std::string::String as std::cmp::PartialEq>::ne', '<std::string::String as std::cmp::PartialEq<str>>::ne', '<std::string::String as std::cmp::PartialEq<&str>>::ne', 'core::str::traits::<impl std::cmp::PartialEq for str>::ne', 'std::string::<impl std::cmp::PartialEq<std::string::String> for &str>::ne', 'std::string::<impl std::cmp::PartialEq<std::string::String> for str>::ne')(string_ne)


# ---------------------------------------------------------------- str

def cut(s, a, b, n):
    """Sub-string by byte offsets; `b` may be None"""
    if a.__class__ is int and a == 0: x = s
    elif b is None and a.__class__ is Off and len(a.i) == 1 and a.i[0].__class__ is Chr:
        if s.s is None: s.link()
        return Str(None, None, s.e, (s, a))
    else: x = s.tail(strs.seek(s, a))
    if b is None: return x
    if s.s is None: s.link()
    e = strs.seek(s, b)
    return Str(None, x.s if x.s is not None else s.s, e)


def range_kind(P, f):
    for g in f['ga']:
        if isinstance(g, int):
            t = P.types[g]
            if t['k'] == 'adt' and t['d'].startswith('std::ops::Range'): return t['d'].split('::')[-1]
    return None


def str_index(opt):
    def fac(P, i, f):
        k = range_kind(P, f)

        def g(p, r):
            s = sv(p)
            if k == 'RangeFrom': v = cut(s, r.f[0], None, None)
            elif k == 'RangeTo': v = cut(s, 0, r.f[0], None)
            elif k == 'Range': v = cut(s, r.f[0], r.f[1], None)
            elif k == 'RangeFull': v = s
            else: raise Undecided('index of a string by %s' % k)
            return Some(v) if opt else v
        return g
    return fac


mf('core::str::traits::<impl std::ops::Index<I> for str>::index', 'core::str::<impl str>::get_unchecked', '<std::string::String as std::ops::Index<I>>::index')(str_index(False))


@m('core::str::<impl str>::split_at')
def _(p, k):
    s = sv(p)
    n = strs.seek(s, k)
    return A(0, (s.head(n), s.tail(n)))


def str_pred(P, ty, pat):
    """A character predicate of a pattern, or None"""
    f = str_pred_(P, ty, pat)
    if f is None: return None
    k = strs.freeze(pat)
    return strs.Pred(f, None if k is None else (ty, k))


def str_pred_(P, ty, pat):
    t = P.types[ty]
    k = t['k']
    if k == 'char':
        if pat.__class__ is int: return lambda c: (c == pat) if c.__class__ is int else (c == z3.BitVecVal(pat, 32))
        return lambda c: rt.i_Eq(c, pat, 32, False)
    if k in ('closure', 'fndef', 'fnptr'):
        return lambda c: callv(ty, pat, c)
    if k == 'ref':
        e = P.types[t['e']]
        if e['k'] in ('closure', 'fndef'): return lambda c: callp(t['e'], pat, c)
        if e['k'] in ('slice', 'array') and P.types[e['e']]['k'] == 'char':
            lo, hi = models.bounds(pat)
            v = pat.get()
            return lambda c: strs.Or(*[rt.i_Eq(c, v[q], 32, False) for q in range(lo, hi)])
    if k == 'array' and P.types[t['e']]['k'] == 'char': return lambda c: strs.Or(*[rt.i_Eq(c, q, 32, False) for q in pat])
    return None


@mf('core::str::<impl str>::find')
def _(P, i, f):
    ty = f['ga'][0]

    def g(p, pat):
        s = sv(p)
        pr = str_pred(P, ty, pat)
        if pr is None: raise Undecided('str::find of text')
        n = strs.scan(s, pr)
        return NONE if n is None else Some(strs.length(s.head(n)))
    return g


@mf('core::str::<impl str>::contains')
def _(P, i, f):
    ty = f['ga'][0]

    def g(p, pat):
        s = sv(p)
        w = s.concrete()
        if P.types[ty]['k'] == 'char' and w is not None: return strs.Or(*[rt.i_Eq(pat, ord(x), 32, False) for x in w])
        pr = str_pred(P, ty, pat)
        if pr is None: raise Undecided('str::contains of text')
        return strs.scan(s, pr) is not None
    return g


def prefix(P, ty, s, pat):
    """(starts with, node behind the prefix)"""
    t = P.types[ty]
    if t['k'] == 'ref' and P.types[t['e']]['k'] in ('str', 'ref', 'adt'):
        w = sv(pat).concrete()
        if w is None: raise Undecided('prefix')
        if not strs.starts_with(s, w): return None
        return strs.seek(s, len(w.encode()))
    pr = str_pred(P, ty, pat)
    if pr is None: raise Undecided('prefix')
    n = strs.first(s)
    if n is None or not branch(pr(strs.char_at(n))): return None
    n = strs.peel_first(s)
    return n.n


@mf('core::str::<impl str>::starts_with')
def _(P, i, f):
    ty = f['ga'][0]

    def g(p, pat):
        t = P.types[ty]
        if t['k'] == 'ref' and P.types[t['e']]['k'] in ('str', 'ref', 'adt'): return strs.starts_with(sv(p), sv(pat).concrete())
        s = sv(p)
        pr = str_pred(P, ty, pat)
        if pr is None: raise Undecided('prefix')
        n = strs.first(s)
        return n is not None and branch(pr(strs.char_at(n)))
    return g


@mf('core::str::<impl str>::strip_prefix')
def _(P, i, f):
    ty = f['ga'][0]

    def g(p, pat):
        s = sv(p)
        n = prefix(P, ty, s, pat)
        return NONE if n is None else Some(s.tail(n))
    return g


@mf('core::str::<impl str>::trim_start_matches')
def _(P, i, f):
    ty = f['ga'][0]

    def g(p, pat):
        s = sv(p)
        pr = str_pred(P, ty, pat)
        if pr is None: raise Undecided('str::trim_start_matches of text')
        n = strs.scan(s, strs.Pred(lambda c: strs.Not(pr(c)), None if pr.key is None else ('not', pr.key)))
        return EMPTY if n is None else s.tail(n)
    return g


@m('core::str::<impl str>::trim_start')
def _(p):
    s = sv(p)
    n = strs.scan(s, strs.Pred(lambda c: strs.Not(strs.is_whitespace(c)), ('not', 'ws')))
    return EMPTY if n is None else s.tail(n)


@mf('core::str::<impl str>::split_once')
def _(P, i, f):
    ty = f['ga'][0]

    def g(p, pat):
        s = sv(p)
        pr = str_pred(P, ty, pat)
        if pr is None: raise Undecided('str::split_once at text')
        n = strs.scan(s, pr)
        if n is None: return NONE
        n = strs.peel_first(s.tail(n))
        return Some(A(0, (s.head(n), s.tail(n.n))))
    return g


# ---------------------------------------------------------------- characters of a string

class Chars:
    __slots__ = ('s', 'pend', 'o')

    def __init__(self, s, pend=False, o=None):
        self.s = s
        self.pend = pend
        self.o = o        # char_indices: the whole string


m('core::str::<impl str>::chars')(lambda p: Chars(sv(p)))
m('core::str::<impl str>::char_indices')(lambda p: Chars(sv(p), False, sv(p)))


def chars_adv(it):
    if it.pend:
        n = strs.peel_first(it.s)
        return Chars(it.s.tail(n.n), False, it.o)
    return it


UNREAD = Ext('unread', None)      # a character behind the first one, of which only the position is asked for


def chars_next(p):
    later = p.get().pend
    it = chars_adv(p.get())
    n = strs.first(it.s, not (later and it.o is not None))
    if n is None:
        p.set(it)
        return NONE
    c = UNREAD if n.a.__class__ is Run and n.a.kind == 'img' else strs.char_at(n)
    p.set(Chars(it.s, True, it.o))
    if it.o is None: return Some(c)
    return Some(A(0, (strs.length(it.o.head(n)), c)))


m("<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::CharIndices<'a> as std::iter::Iterator>::next")(chars_next)
m("std::str::Chars::<'a>::as_str")(lambda p: chars_adv(p.get()).s)
m("<std::str::Chars<'a> as std::clone::Clone>::clone", "<std::str::CharIndices<'a> as std::clone::Clone>::clone")(lambda p: p.get())


# ---------------------------------------------------------------- nom on &str

@m("<&'a str as nom::Compare<&'b str>>::compare")
def _(p, w):
    w = sv(w).concrete()
    if w is None: raise Undecided('tag')
    s = sv(p)
    if strs.starts_with(s, w): return A(0, ())
    # input which is too short counts as an error in complete parsers
    return A(2, ())


@m("<&'a str as nom::Offset>::offset")
def _(p, q):
    s, t = sv(p), sv(q)
    if s.s is None: s.link()
    if s is t: return 0
    n = t.s
    k = s.s
    while k is not n:
        if k is s.e or k is None: raise Undecided('offset')
        k = k.n
    return strs.length(s.head(n))


def pkey(ty, v):
    k = strs.freeze(v)
    return None if k is None else (ty, k)


@mf("<&'a str as nom::InputIter>::position")
def _(P, i, f):
    ty = f['ga'][-1]

    def g(p, pred):
        s = sv(p)
        n = strs.scan(s, strs.Pred(lambda c: callv(ty, pred, c), pkey(ty, pred)))
        return NONE if n is None else Some(strs.length(s.head(n)))
    return g


# ---------------------------------------------------------------- formatting

class Fmt:
    """Formatter with default options: where it writes to"""
    __slots__ = ('p', 'ty')

    def __init__(self, p, ty):
        self.p = p
        self.ty = ty


class Args:
    __slots__ = ('t', 'a')

    def __init__(self, t, a):
        self.t = t
        self.a = a


OKU = A(0, (UNIT,))


def sink(P, ty, p):
    """The pointer to the String written to by a writer of type `ty` behind `p`"""
    while True:
        if ty is None: raise Undecided('writer')
        t = P.types[ty]
        k = t['k']
        if k in ('ref', 'ptr'):
            p = p.get()
            ty = t['e']
            continue
        if k == 'dyn':
            q = p
            if q.__class__ is rt.DynV: raise Undecided('writer')
            ty = q.m
            p = Ptr(q.c, q.p)
            continue
        if k == 'adt':
            if t['d'] == 'std::string::String': return p
            if t['d'] == 'std::fmt::Formatter':
                f = p.get()
                if f.__class__ is not Fmt: raise Undecided('formatter')
                p, ty = f.p, f.ty
                continue
        raise Undecided('writer of type %s' % (t.get('n') or k))


def fmt_sink(p):
    f = p
    while f.__class__ is Ptr: f = f.get()
    if f.__class__ is not Fmt: raise Undecided('formatter')
    return sink(S.prog, f.ty, f.p)


def arg_parts(v):
    """Pointer and function of a format argument"""
    out = []

    def go(x):
        if x.__class__ is A:
            for y in x.f: go(y)
        elif x.__class__ is FnV or x.__class__ is Ptr or x.__class__ is Str: out.append(x)
        elif x is UNDEF: pass
        else: raise Undecided('format argument %r' % (x,))
    go(v)
    fn = [x for x in out if x.__class__ is FnV]
    ps = [x for x in out if x.__class__ is not FnV]
    if len(fn) != 1 or len(ps) != 1: raise Undecided('format argument')
    return ps[0], fn[0]


def template(t):
    """Pieces of a format string: text or the index of an argument"""
    b = list(t)
    out = []
    i = 0
    k = 0
    while True:
        if i >= len(b): raise Undecided('format template')
        x = b[i]
        i += 1
        if x == 0: return out
        if x < 0x80:
            out.append(bytes(b[i:i + x]).decode())
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(bytes(b[i + 2:i + 2 + n]).decode())
            i += 2 + n
        elif x == 0xC0:
            out.append(k)
            k += 1
        else: raise Undecided('format options')


def write_args(target, a):
    if a.t.__class__ is Str:
        app(target, a.t)
        return OKU
    f = Ptr(Cell(Fmt(target, STRING())))
    args = a.a.get() if a.a is not None else ()
    for x in template(a.t):
        if x.__class__ is str: app(target, lit(x))
        else:
            p, fn = arg_parts(args[x])
            r = S.prog.G[S.prog.fn(fn.i)](p, f)
            if r.v != 0: return r
    return OKU


def STRING():
    P = S.prog
    if getattr(P, 'string_ty', None) is None:
        P.string_ty = next(k for k, t in enumerate(P.types) if t['k'] == 'adt' and t['d'] == 'std::string::String')
    return P.string_ty


@m("std::fmt::Arguments::<'a>::new")
def _(t, a):
    v = t.get()
    if v.__class__ is not tuple: raise Undecided('format template')
    return Args(v, a)


@m("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _(s): return Args(sv(s), None)


@m("std::fmt::Arguments::<'a>::as_str", "std::fmt::Arguments::<'a>::as_statically_known_str")
def _(p):
    a = p.get() if p.__class__ is Ptr else p
    return Some(a.t) if a.t.__class__ is Str else NONE


@m("std::fmt::Arguments::<'a>::estimated_capacity")
def _(p): return 0


@mf('std::fmt::Write::write_fmt')
def _(P, i, f):
    w = f['ga'][0]
    return lambda p, a: write_args(sink(P, w, p), a)


@m("std::fmt::Formatter::<'a>::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt")
def _(p, a): return write_args(fmt_sink(p), a)


@m('std::fmt::write')
def _(p, a):
    if p.__class__ is not Ptr: raise Undecided('writer')
    return write_args(sink(S.prog, p.m, Ptr(p.c, p.p)), a)


@m('std::fmt::format', 'std::fmt::format::format_inner', 'alloc::fmt::format', 'alloc::fmt::format::format_inner')
def _(a):
    c = Ptr(Cell(EMPTY))
    if write_args(c, a).v != 0: panic('formatting failed')
    return c.get()


m("std::fmt::FormattingOptions::new")(lambda: Ext('opts', None))


@m("std::fmt::Formatter::<'a>::new")
def _(p, o):
    if p.__class__ is not Ptr: raise Undecided('writer')
    return Fmt(Ptr(p.c, p.p), p.m)


@m("std::fmt::Formatter::<'a>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "std::fmt::Formatter::<'a>::pad")
def _(p, s):
    app(fmt_sink(p), sv(s))
    return OKU


@m("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char")
def _(p, c):
    app(fmt_sink(p), Str((char_atom(c),)))
    return OKU


@m('<std::string::String as std::fmt::Write>::write_str')
def _(p, s):
    app(p, sv(s))
    return OKU


@m('<std::string::String as std::fmt::Write>::write_char')
def _(p, c):
    app(p, Str((char_atom(c),)))
    return OKU


@mf('<&mut W as std::fmt::Write>::write_str', '<&mut W as std::fmt::Write>::write_char')
def _(P, i, f):
    w = f['ga'][0]
    ch = f['d'].endswith('char')

    def g(p, x):
        app(sink(P, w, p.get()), Str((char_atom(x),)) if ch else sv(x))
        return OKU
    return g


@m('<str as std::fmt::Display>::fmt', '<std::string::String as std::fmt::Display>::fmt')
def _(p, f):
    app(fmt_sink(f), sv(p))
    return OKU


@m('<char as std::fmt::Display>::fmt')
def _(p, f):
    app(fmt_sink(f), Str((char_atom(p.get()),)))
    return OKU


m('<bool as std::fmt::Display>::fmt')(lambda p, f: (app(fmt_sink(f), lit('true' if branch(p.get()) else 'false')), OKU)[1])


def digits(x, w, signed):
    """Decimal text of a machine integer"""
    if x.__class__ is Off: raise Undecided('text of a length')
    if x.__class__ is int: return lit(str(x))
    if signed:
        if branch(rt.i_Lt(x, 0, w, True)): return Str(('-', Dec(norm_(-x))))
    return Str((Dec(x),))


def norm_(x):
    return z3.simplify(x)


def int_display(w, signed):
    def f(p, fm):
        app(fmt_sink(fm), digits(p.get(), w, signed))
        return OKU
    return f


INTS = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'u128': (128, False), 'usize': (64, False), 'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True), 'i128': (128, True), 'isize': (64, True)}
for n_, (w_, s_) in INTS.items():
    m('core::fmt::num::imp::<impl std::fmt::Display for %s>::fmt' % n_, 'core::fmt::num::<impl std::fmt::Display for %s>::fmt' % n_)(int_display(w_, s_))


    @mf('<%s as std::string::SpecToString>::spec_to_string' % n_)
    def _(P, i, f, w=w_, s=s_): return lambda p: digits(p.get(), w, s)


@m('<num_bigint::BigUint as std::fmt::Display>::fmt', '<num_bigint::BigInt as std::fmt::Display>::fmt')
def _(p, f):
    x = p.get().x
    if x.__class__ is int: t = lit(str(x))
    elif branch(x < 0): t = Str(('-', Dec(z3.simplify(-x))))
    else: t = Str((Dec(x),))
    app(fmt_sink(f), t)
    return OKU


# ---------------------------------------------------------------- numbers from text

def parsed(s):
    """(sign character, magnitude) of decimal text: the magnitude is an int, a z3 term, None if it is
    malformed; raises Undecided if the text is not known well enough"""
    t = list(s.atoms())
    sg = ''
    if t and t[0].__class__ is str and t[0] in '+-':
        sg = t[0]
        t = t[1:]
    if not t: return sg, None
    if len(t) == 1 and t[0].__class__ is Dec:
        if t[0].radix != 10: raise Undecided('radix of a number')
        return sg, t[0].x
    if all(a.__class__ is str for a in t):
        w = ''.join(t)
        if all('0' <= c <= '9' for c in w): return sg, int(w)
        return sg, None
    if t[0].__class__ is str and not ('0' <= t[0] <= '9'): return sg, None
    raise Unknown('value of digits')


class Unknown(Undecided):
    pass


def as_int(x):
    if x.__class__ is int: return z3.IntVal(x)
    if z3.is_bv(x): return z3.BV2Int(x)
    return x


def num_err(): return Err(Ext('numerr', None))


def from_str_int(w, signed):
    hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    lo = -(1 << (w - 1)) if signed else 0

    def f(p):
        s = sv(p)
        try: sg, x = parsed(s)
        except Unknown:
            S.taint = 'the value of unknown digits'
            if split(2) == 0: return num_err()
            return Ok(z3.BitVec(fresh_name('v'), w))
        if x is None: return num_err()
        if sg == '-' and not signed: return num_err()
        neg = sg == '-'
        if x.__class__ is int:
            v = -x if neg else x
            return Ok(v) if lo <= v <= hi else num_err()
        # a symbolic magnitude
        top = -lo if neg else hi
        if z3.is_bv(x):
            k = x.size()
            if (1 << k) - 1 > top and not branch(z3.ULE(x, z3.BitVecVal(top, k))): return num_err()
            y = z3.ZeroExt(w - k, x) if k < w else (z3.Extract(w - 1, 0, x) if k > w else x)
        else:
            if not branch(x <= top): return num_err()
            y = z3.Int2BV(x, w)
        if neg: y = -y
        return Ok(rt.norm(y, w, signed))
    return f


for n_, (w_, s_) in INTS.items(): m('core::num::<impl std::str::FromStr for %s>::from_str' % n_)(from_str_int(w_, s_))


def big(x):
    return x if x.__class__ is int else as_int(x)


@m('num_bigint::biguint::convert::<impl std::str::FromStr for num_bigint::BigUint>::from_str')
def _(p):
    try: sg, x = parsed(sv(p))
    except Unknown:
        S.taint = 'the value of unknown digits'
        if split(2) == 0: return num_err()
        v = z3.Int(fresh_name('v'))
        assume(v >= 0)
        return Ok(Big(v))
    if x is None or sg == '-': return num_err()
    return Ok(Big(big(x)))


@m('num_bigint::bigint::convert::<impl std::str::FromStr for num_bigint::BigInt>::from_str')
def _(p):
    try: sg, x = parsed(sv(p))
    except Unknown:
        S.taint = 'the value of unknown digits'
        if split(2) == 0: return num_err()
        return Ok(Big(z3.Int(fresh_name('v'))))
    if x is None: return num_err()
    x = big(x)
    return Ok(Big(-x if sg == '-' else x))


def radix_of(signed):
    def f(p, r):
        if r.__class__ is not int: raise Undecided('radix')
        t = list(sv(p).atoms())
        sg = ''
        if t and t[0].__class__ is str and t[0] in '+-':
            sg = t[0]
            t = t[1:]
        if sg == '-' and not signed: return num_err()
        if not t: return num_err()
        if len(t) == 1 and t[0].__class__ is Dec:
            if t[0].radix == r: x = big(t[0].x)
            else: raise Undecided('radix of a number')
        elif all(a.__class__ is str for a in t):
            w = ''.join(t)
            try:
                if '_' in w: raise Undecided('number with underscores')
                x = int(w, r)
            except ValueError: return num_err()
        else:
            S.taint = 'the value of unknown digits'
            if split(2) == 0: return num_err()
            x = z3.Int(fresh_name('v'))
            assume(x >= 0)
        return Ok(Big(-x if sg == '-' else x))
    return f


m('num_bigint::biguint::convert::<impl num_traits::Num for num_bigint::BigUint>::from_str_radix')(radix_of(False))
m('num_bigint::bigint::convert::<impl num_traits::Num for num_bigint::BigInt>::from_str_radix')(radix_of(True))

F_bits = z3.Function('bits', z3.IntSort(), z3.BitVecSort(64))


def magnitude(x):
    """The bit vector whose unsigned value is the absolute value of x, if it is visible"""
    x = z3.simplify(x)
    k = x.decl().kind()
    if k == z3.Z3_OP_BV2INT: return x.arg(0)
    if k == z3.Z3_OP_UMINUS: return magnitude(x.arg(0))
    if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() == -1: return magnitude(x.arg(1))
    return None


@m('num_bigint::BigUint::bits', 'num_bigint::BigInt::bits')
def _(p):
    x = p.get().x
    if x.__class__ is int: return abs(x).bit_length()
    b = magnitude(x)
    if b is not None:
        r = z3.BitVecVal(0, 64)
        for k in range(b.size()): r = z3.If(z3.Extract(k, k, b) == 1, z3.BitVecVal(k + 1, 64), r)
        return r
    x = z3.simplify(z3.If(x < 0, -x, x))
    return F_bits(x)


def from_int(signed, w):
    def f(x):
        if x.__class__ is int: return Big(x)
        if signed and branch(rt.i_Lt(x, 0, w, True)): return Big(-z3.BV2Int(norm_(-x)))
        return Big(z3.BV2Int(x))
    return f


for n_, (w_, s_) in INTS.items():
    m('num_bigint::bigint::convert::<impl std::convert::From<%s> for num_bigint::BigInt>::from' % n_)(from_int(s_, w_))
    if not s_: m('num_bigint::biguint::convert::<impl std::convert::From<%s> for num_bigint::BigUint>::from' % n_)(from_int(s_, w_))


# ---------------------------------------------------------------- NonZero

@mf('std::num::NonZero::<T>::new')
def _(P, i, f):
    w, s = P.wid(f['ga'][0])
    nz = P.types[f['sig'][-1]]['a'][0]

    def g(x):
        if branch(rt.i_Eq(x, 0, w, s)): return NONE
        return Some(rt.transmute_wrap(x, nz))
    return g


@m('std::num::NonZero::<T>::get')
def _(x): return rt.transmute_inner(x)


# ---------------------------------------------------------------- HashMap: a tuple of pairs, iterated in any order

m('std::hash::RandomState::new', '<std::hash::RandomState as std::default::Default>::default', '<std::hash::RandomState as std::clone::Clone>::clone')(lambda *a: Ext('hash', None))
m('std::collections::HashMap::<K, V>::new', '<std::collections::HashMap<K, V, S> as std::default::Default>::default', 'std::collections::HashMap::<K, V, S>::with_hasher', 'std::collections::HashMap::<K, V>::with_capacity')(lambda *a: ())
m('<std::collections::HashMap<K, V, S, A> as std::clone::Clone>::clone')(lambda p: p.get())
m('std::collections::HashMap::<K, V, S, A>::len')(lambda p: len(p.get()))
m('std::collections::HashMap::<K, V, S, A>::is_empty')(lambda p: len(p.get()) == 0)


def key_eq(a, b): return branch(strs.eq(sv(a), sv(b)))


def find_key(v, k):
    for n, e in enumerate(v):
        if key_eq(e.f[0], k): return n
    return None


@m('std::collections::HashMap::<K, V, S, A>::get')
def _(p, k):
    n = find_key(p.get(), k)
    return NONE if n is None else Some(Ptr(p.c, p.p + (n, 1)))


@m('std::collections::HashMap::<K, V, S, A>::contains_key')
def _(p, k): return find_key(p.get(), k) is not None


def map_insert(v, k, x):
    n = find_key(v, k)
    if n is None: return v + (A(0, (k, x)),), NONE
    old = v[n].f[1]
    return v[:n] + (A(0, (v[n].f[0], x)),) + v[n + 1:], Some(old)


@m('std::collections::HashMap::<K, V, S, A>::insert')
def _(p, k, x):
    v, r = map_insert(p.get(), k, x)
    p.set(v)
    return r


def orders(n):
    if n > 3: raise Undecided('iteration over a large map')
    ps = list(itertools.permutations(range(n)))
    if getattr(S, 'fixed_order', False): return ps[0]
    return ps[split(len(ps))] if len(ps) > 1 else ps[0]


@models.contract('contracts::models::map_eq')
def _(P, i, f, body):
    def g(a, b):
        # equality of maps does not depend on the order of iteration
        S.fixed_order = True
        try: return body(a, b)
        finally: S.fixed_order = False
    return g


class MI:
    """Iterator over a map"""
    __slots__ = ('p', 'o', 'k')

    def __init__(self, p, o, k):
        self.p = p
        self.o = o
        self.k = k


def map_iter(p):
    return MI(Ptr(p.c, p.p), orders(len(p.get())), 0)


m('std::collections::HashMap::<K, V, S, A>::iter', "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter", "<&'a std::collections::HashMap<K, V, S> as std::iter::IntoIterator>::into_iter")(map_iter)


@m("<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::next")
def _(p):
    it = p.get()
    if it.k >= len(it.o): return NONE
    p.set(MI(it.p, it.o, it.k + 1))
    e = it.p.p + (it.o[it.k],)
    return Some(A(0, (Ptr(it.p.c, e + (0,)), Ptr(it.p.c, e + (1,)))))


@m("<std::collections::hash_map::Iter<'_, K, V> as std::clone::Clone>::clone")
def _(p): return p.get()


@m('<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter', '<std::collections::HashMap<K, V, S> as std::iter::IntoIterator>::into_iter')
def _(v):
    o = orders(len(v))
    return models.VI(tuple(v[k] for k in o), 0, len(v))


m('<std::collections::hash_map::IntoIter<K, V> as std::iter::Iterator>::next', '<std::collections::hash_map::IntoIter<K, V, A> as std::iter::Iterator>::next')(models.it_next)
NATIVE_ADTS.add('std::collections::hash_map::IntoIter')


# ---------------------------------------------------------------- HashSet: a tuple

m('std::collections::HashSet::<T>::new', '<std::collections::HashSet<T, S> as std::default::Default>::default', 'std::collections::HashSet::<T, S>::with_hasher')(lambda *a: ())
m('std::collections::HashSet::<T, S, A>::len')(lambda p: len(p.get()))
m('std::collections::HashSet::<T, S, A>::is_empty')(lambda p: len(p.get()) == 0)


@m('std::collections::HashSet::<T, S, A>::insert')
def _(p, k):
    v = p.get()
    if any(key_eq(e, k) for e in v): return False
    p.set(v + (k,))
    return True


@m('std::collections::HashSet::<T, S, A>::contains')
def _(p, k): return any(key_eq(e, k) for e in p.get())


NATIVE_ADTS.add('std::collections::HashSet')

# ---------------------------------------------------------------- try_fold: a loop

CONT = {'std::option::Option': 1, 'std::result::Result': 0, 'std::ops::ControlFlow': 0}


def try_fold(P, i, f):
    g = [x for x in f['ga'] if isinstance(x, int)]
    fty, rty = g[-2], g[-1]
    t = P.types[rty]
    if t['k'] != 'adt' or t['d'] not in CONT: return None
    c = CONT[t['d']]

    def g(p, acc, fn):
        cell = Cell(fn)
        while True:
            n = models.it_next(p)
            if n is NONE or n.v == 0: return A(c, (acc,))
            r = callp(fty, Ptr(cell), acc, n.f[0])
            if r.__class__ is not A: r = unexp(r)
            if r.__class__ is not A: raise Undecided('try_fold')
            if r.v != c: return r
            acc = r.f[0]
    return g


mf('<std::vec::IntoIter<T, A> as std::iter::Iterator>::try_fold')(try_fold)

# ---------------------------------------------------------------- VecDeque: a tuple

m('std::collections::VecDeque::<T>::new', 'std::collections::VecDeque::<T>::with_capacity', '<std::collections::VecDeque<T> as std::default::Default>::default')(lambda *a: ())
m('std::collections::VecDeque::<T, A>::len')(lambda p: len(p.get()))
m('std::collections::VecDeque::<T, A>::is_empty')(lambda p: len(p.get()) == 0)
m('std::collections::VecDeque::<T, A>::reserve')(lambda *a: UNIT)
m('<std::collections::VecDeque<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from', '<std::vec::Vec<T, A> as std::convert::From<std::collections::VecDeque<T, A>>>::from')(lambda v: v)


@m('std::collections::VecDeque::<T, A>::pop_front')
def _(p):
    v = p.get()
    if not v: return NONE
    p.set(v[1:])
    return Some(v[0])


m('std::collections::VecDeque::<T, A>::pop_back')(MODELS['std::vec::Vec::<T, A>::pop'](None, None, None))
m('std::collections::VecDeque::<T, A>::push_back')(MODELS['std::vec::Vec::<T, A>::push'](None, None, None))


@m('std::collections::VecDeque::<T, A>::push_front')
def _(p, x):
    p.set((x,) + p.get())
    return UNIT


# ---------------------------------------------------------------- intrinsics

@m('contracts::vc::any_usize')
def _(mx):
    if mx.__class__ is int and mx <= 24:
        k = split(mx + 1) if mx else 0
        S.tokens = S.tokens + [('const', k)]
        return k
    x = z3.BitVec(fresh_name('n'), 64)
    assume(z3.ULE(x, z3.BitVecVal(mx, 64) if mx.__class__ is int else mx))
    S.tokens = S.tokens + [('int', x)]
    return x
