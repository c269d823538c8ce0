"""Contracts of printing and parsing opaque sub-trees: the induction hypothesis of the round trips.

Printing an opaque sub-tree yields an opaque piece of text of which only the shape of the beginning is
known; parsing a piece yields the sub-tree and leaves what follows, provided that what follows is one
of the tails for which the contract is established (see `tail`, `type_tail`, `line_tail` in
contracts/src/print.rs)."""
import z3
from core import *
import rt
import strs
import models
import textm
from strs import Str, Run, Chr, Piece, ceq, Or, And, Not, k_ident, k_start
import leaf
from leaf import Leaf
from models import contract, Ok, sv, use_contract

OKU = textm.OKU


def piece(l, k, n=0):
    key = ('piece', k, n if n.__class__ is int else n.sexpr())
    p = l.memo.get(key)
    if p is None:
        p = Piece(l, k, n)
        l.memo[key] = p
    return p


def display(kind, what):
    def fac(P, i, f, body):
        def g(p, fm):
            l = p
            while l.__class__ is Ptr: l = l.get()
            if l.__class__ is not Leaf: return body(p, fm)
            if not l.gen: raise Undecided('text of an arbitrary %s' % what)
            use_contract('printing of an opaque %s: some text of the shape of a %s' % (what, what))
            textm.app(textm.fmt_sink(fm), Str((piece(l, kind),)))
            return OKU
        return g
    return fac


contract('<firrtl_ast::Expression<R> as std::fmt::Display>::fmt')(display('expr', 'expression'))
contract('<firrtl_ast::Type as std::fmt::Display>::fmt')(display('type', 'type'))


@contract('<firrtl_ast::stmt::Statement as firrtl_ast::verif::DisplayIndented>::fmt')
def _(P, i, f, body):
    w = [x for x in f['ga'] if isinstance(x, int)][-1]
    lock = next((k for k, g in enumerate(P.fns) if g['d'] == 'firrtl_ast::verif::Indentation::lock'), None)

    def g(p, ind, out):
        l = p
        while l.__class__ is Ptr: l = l.get()
        if l.__class__ is not Leaf: return body(p, ind, out)
        if not l.gen: raise Undecided('text of an arbitrary statement')
        if lock is None: raise Undecided('Indentation::lock')
        n = P.callf(lock, ind)
        while n.__class__ is A and n.f: n = n.f[0]
        if n.__class__ is int:
            if n > 64: raise Undecided('indentation')
            t = (' ',) * n
        elif branch(rt.i_Lt(0, n, 64, False)): t = (strs.Sp(n),)
        else: t = ()
        use_contract('printing of an opaque statement: locks the indentation, some lines of the shape of a statement')
        textm.app(textm.sink(P, w, out), Str(t + (piece(l, 'stmt', n),)))
        return OKU
    return g


@contract('<firrtl_ast::stmt::Statement as firrtl_ast::verif::DisplayIndented>::fmt::fmt_indendet_cond')
def _(P, i, f, body):
    w = [x for x in f['ga'] if isinstance(x, int)][-1]

    def g(cond, when, els, ind, info, out):
        l = cond
        while l.__class__ is Ptr: l = l.get()
        if l.__class__ is not Leaf or l.whole is None: return body(cond, when, els, ind, info, out)
        v = ind
        while v.__class__ is Ptr: v = v.get()
        if v.v != 1: raise Undecided('indentation of a condition')
        use_contract('printing of an opaque conditional behind its indentation: some lines of the shape of a statement')
        textm.app(textm.sink(P, w, out), Str((piece(l.whole, 'cond', v.f[0]),)))
        return OKU
    return g


@contract('firrtl_ast::stmt::parsers::indented_condition')
def _(P, i, f, body):
    def g(ctx, inp, ind):
        s = sv(inp)
        b = begins(s, 'cond')
        if b is None: return body(ctx, inp, ind)
        p, n = b
        v = ind
        while v.__class__ is Ptr: v = v.get()
        if v.v != 1 or not equal(p.n, v.f[0]): raise Undecided('indentation of an opaque conditional')
        stmt_tail(s, n, p.n)
        use_contract('parsing of the text of an opaque conditional behind its indentation: yields it and leaves what follows')
        return Ok(A(0, (s.tail(n), p.l)))
    return g


def begins(s, kind):
    """(piece at the beginning of the text, node behind it) or None"""
    if s.s is None: s.link()
    n = s.s
    if n is s.e: return None
    if n.p is not None and n.p[0].k == kind: return n.p
    if n.a.__class__ is Piece and n.a.k == kind: return n.a, n.n
    return None


def indented(s):
    """(number of spaces, node behind them)"""
    if s.s is None: s.link()
    n = s.s
    k = 0
    while n is not s.e:
        strs.fix(n)
        if n.a.__class__ is str and n.a == ' ': m = 1
        elif n.a.__class__ is Run and n.a.kind == 'sp': m = n.a.n
        else: break
        k = k + m if k.__class__ is int and m.__class__ is int else z3.simplify(bv(k) + bv(m))
        n = n.n
    return k, n


def bv(k): return z3.BitVecVal(k, 64) if k.__class__ is int else k


def stmt_at(s, n):
    if n is s.e: return None
    if n.p is not None and n.p[0].k == 'stmt': return n.p
    if n.a.__class__ is Piece and n.a.k == 'stmt': return n.a, n.n
    return None


def equal(a, b): return branch(rt.i_Eq(a, b, 64, False))


def less(a, b): return branch(rt.i_Lt(a, b, 64, False))


P_BLANK = strs.Pred(strs.k_blank, 'blank')


def all_blank(r):
    return strs.classify(P_BLANK, r.k1) is True and strs.classify(P_BLANK, r.k2) is True


def skip_blank(s, n):
    """(node behind blanks, whether there is any)"""
    some = False
    while n is not s.e:
        strs.fix(n)
        a = n.a
        if a.__class__ is str:
            if a not in ' \t': break
        elif a.__class__ is Chr:
            if not branch(strs.k_blank(a.x)): break
        elif a.__class__ is Run:
            if a.words is not None or a.can(' ', True) is False and a.can('\t', True) is False: break
            if not all_blank(a):
                if branch(strs.k_blank(a.first_char())):
                    raise Undecided('blanks')
                break
        else: break
        some = True
        n = n.n
    return n, some


def one_of(c, cs): return Or(*[ceq(c, x) for x in cs])


def second(s, n, ok):
    """Whether the text at `n` continues with one of the given strings"""
    return any(strs.starts_with(s.tail(n), w) for w in ok)


def expr_tail(s, n):
    """'end': the piece ends here; 'sub': a subscript may follow; None: unknown"""
    m, blank = skip_blank(s, n)
    if m is s.e: return 'end'
    c = strs.char_at(m)
    if branch(one_of(c, '),]:@;\n\r=')): return 'end'
    if branch(one_of(c, '.[')): return 'sub'
    if branch(ceq(c, '<')): return 'end' if second(s, m, ('<=', '<- ')) else None
    if blank and branch(k_ident(c)): return 'end'
    return None


def type_tail(s, n):
    m, blank = skip_blank(s, n)
    if m is s.e: return 'end'
    c = strs.char_at(m)
    if branch(one_of(c, ',}@;\n\r')): return 'end'
    if branch(one_of(c, '[')): return 'sub'
    if blank and branch(k_ident(c)): return 'end'
    return None


def parse(kind, what, tail):
    def fac(P, i, f, body):
        def g(*args):
            s = sv(args[-1])
            b = begins(s, kind)
            if b is None: return body(*args)
            p, n = b
            t = tail(s, n)
            r = A(0, (s.tail(n), p.l))
            if t == 'end':
                use_contract('parsing of the text of an opaque %s: yields the %s and leaves what follows' % (what, what))
                return Ok(r)
            if t == 'sub':
                # The loop over subscripts, entered with the opaque sub-tree as what was parsed before
                use_contract('parsing of the text of an opaque %s followed by a subscript: a state of the loop over subscripts' % what)
                old = HOLE[0]
                HOLE[0] = (s, r)
                try: v = body(*args)
                finally: h, HOLE[0] = HOLE[0], old
                if h is not None: raise Undecided('no loop over subscripts')
                return v
            raise Undecided('what follows the text of an opaque %s' % what)
        return g
    return fac


HOLE = [None]


def same_text(a, b):
    return a is b or (a.s is not None and a.s is b.s and a.e is b.e)


@contract('nom::branch::alt::{closure#0}')
def _(P, i, f, body):
    def g(*args):
        h = HOLE[0]
        if h is not None and args and args[-1].__class__ is Str and same_text(args[-1], h[0]):
            HOLE[0] = None
            return Ok(h[1])
        return body(*args)
    return g


contract('firrtl_ast::verif::expr::expr')(parse('expr', 'expression', expr_tail))
contract('firrtl_ast::verif::types::r#type')(parse('type', 'type', type_tail))


@contract('firrtl_ast::verif::stmt::stmt')
def _(P, i, f, body):
    def g(ctx, inp, ind):
        s = sv(inp)
        m, at = indented(s)
        b = stmt_at(s, at)
        if b is None: return body(ctx, inp, ind)
        p, n = b
        if not equal(m, p.n): raise Undecided('indentation of an opaque statement')
        q = ind
        v = q.get()
        while v.__class__ is Ptr: q, v = v, v.get()
        k = v.f[0]
        if not (equal(p.n, k) if v.v == 1 else less(k, p.n)): return body(ctx, inp, ind)
        stmt_tail(s, n, p.n)
        use_contract('parsing of the text of an opaque statement: yields the statement, locks the indentation and leaves what follows')
        q.set(A(1, (p.n,)))
        return Ok(A(0, (s.tail(n), p.l)))
    return g


def stmt_tail(s, n, ind):
    """The line which follows belongs neither to the statement nor to the line ending"""
    if n is s.e: return
    s = s.tail(n)
    k, n = indented(s)
    b = stmt_at(s, n)
    if b is not None:
        if not equal(k, b[0].n): raise Undecided('indentation of an opaque statement')
        if less(ind, k): raise Undecided('nested statement')
        return
    if n is s.e: raise Undecided('blanks at the end')
    c = strs.char_at(n)
    if not branch(k_start(c)): raise Undecided('what follows the text of an opaque statement')
    if less(k, ind): return
    if less(ind, k): raise Undecided('what follows the text of an opaque statement')
    t = s.tail(n)
    if not strs.starts_with(t, 'else'): return
    m = strs.seek(t, 4)
    if m is s.e or not branch(k_ident(strs.char_at(m))): raise Undecided('what follows the text of an opaque statement')


@contract('<firrtl_ast::stmt::Entity as firrtl_ast::Named>::name')
def _(P, i, f, body):
    def g(p):
        l = p
        while l.__class__ is Ptr: l = l.get()
        if l.__class__ is not leaf.Lazy or l.val is not None: return body(p)
        if l.name is None: l.name = Ptr(Cell(strs.fresh_name('ident')))
        use_contract('name of an opaque entity: some name')
        return l.name
    return g


@contract('<firrtl_ast::stmt::Statement as firrtl_ast::info::WithInfo>::info')
def _(P, i, f, body):
    def g(p):
        l = p
        while l.__class__ is Ptr: l = l.get()
        if l.__class__ is Leaf and l.cond: return leaf.Unknown()
        return body(p)
    return g
