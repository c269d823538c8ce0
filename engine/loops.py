"""Loops over the characters of opaque text: decided by induction on the text.

A loop which applies the same step to every character of an opaque run is executed once for an
arbitrary character (the proof of the step, on a path of its own); on the other path, its effect on the
whole run is taken as the step says. Whatever deviates from the form of the step leaves the harness
undecided."""
import hashlib, os
import z3
from core import *
import rt
import strs
import models
import textm
from strs import Str, Run, Chr, EMPTY, And, Or, Not, Sp
from models import contract, m, Ok, sv, use_contract, NONE

SUMMED = ('plain', 'text', 'name', 'ident', 'img', 'sp')


def induct(step):
    if S.pure is not None: raise Undecided('induction within a predicate')
    if split(2) == 0:
        step()
        raise Dead()


def once(step, *key):
    """The same step needs no second proof on the path"""
    done = getattr(S, 'steps', ())
    if any(len(k) == len(key) and all(same(x, y) or x is y for x, y in zip(k, key)) for k in done): return
    induct(step)
    S.steps = done + (key,)


class Open(Exception):
    """The key of a step depends on more than closed data"""


def freeze(v):
    """A description of closed data, equal in all processes"""
    c = v.__class__
    if c in (int, bool, str) or v is None: return v
    if v is UNDEF: return 'undef'
    if c is A: return ('A', v.v) + tuple(freeze(x) for x in v.f)
    if c is tuple: return ('T',) + tuple(freeze(x) for x in v)
    if c is FnV: return ('F', v.i)
    if c is Str:
        t = v.concrete()
        if t is None: raise Open()
        return ('S', t)
    if c is Ptr: return ('P', v.m if v.m.__class__ in (int, tuple) else None, v.m is None, freeze(v.get()))
    raise Open()


def classes(ks):
    out = []
    for k in ks:
        if k.__closure__ is not None or getattr(strs, k.__name__, None) is not k: raise Open()
        out.append(k.__name__)
    return tuple(out)


def run_key(r):
    if r.kind == 'img':
        if r.g.key is None: raise Open()
        return ('img', r.g.key, run_key(r.r))
    return ('run', classes(r.k1), classes(r.k2))


def key_of(*parts):
    """parts: runs and data"""
    try: return tuple(run_key(x) if x.__class__ is Run else freeze(x) for x in parts)
    except Open: return None


def lemma(key, step):
    """The proof of a step on closed data, in an empty context: once for all paths of the harness. The other
    paths may rely on it, as the harness is proved only if all of its processes succeed."""
    if S.pure is not None: raise Undecided('induction within a predicate')
    n = hashlib.sha256(repr(key).encode()).hexdigest()
    try: os.close(os.open(os.path.join(S.lemmas, n), os.O_CREAT | os.O_EXCL | os.O_WRONLY))
    except FileExistsError: return
    if split(2) == 0:
        S.solver = z3.Solver()
        S.solver.set('timeout', 10000)
        S.neq = []
        step()
        raise Dead()


def follow(nodes):
    """The input of a step: some characters, and arbitrary text behind them"""
    for a, b in zip(nodes, nodes[1:]): a.n = b
    e = strs.Node(None)
    end = e
    if split(2) == 0:
        end = strs.Node(Run((strs.k_any,), (strs.k_any,), (), 'rest'))
        end.n = e
    nodes[-1].n = end
    return Str(None, nodes[0], e), end


def generic(r):
    """An arbitrary character of the run"""
    x = strs.fresh_char()
    assume(Or(And(*[k(x) for k in r.k1]), And(*[k(x) for k in r.k2])))
    strs.feasible()
    return x


def head(s):
    """The node of the run at the beginning of the text, if it is one to be summarised"""
    n = strs.first(s, False)
    if n is None or n.a.__class__ is not Run: return None
    r = n.a
    if r.words is not None or r.kind not in SUMMED: return None
    return n


def pointers(v, out):
    c = v.__class__
    if c is A:
        for x in v.f: pointers(x, out)
    elif c is tuple:
        for x in v: pointers(x, out)
    elif c is Ptr: out.append(v)
    else: raise Undecided('captured value')


def sink_of(env):
    """The formatter which is all a closure captures, or None"""
    ps = []
    try: pointers(env, ps)
    except Undecided: return None
    if len(ps) != 1: return None
    p = ps[0]
    v = p.get()
    while v.__class__ is Ptr: p, v = v, v.get()
    if v.__class__ is not textm.Fmt: return None
    q = textm.fmt_sink(p)
    while q.get().__class__ is Ptr: q = q.get()
    return q


def same(a, b):
    if a is b: return True
    if a.__class__ is not b.__class__: return False
    if a.__class__ is A: return a.v == b.v and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if a.__class__ is tuple: return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a.__class__ is Ptr: return a.c is b.c and a.p == b.p
    if a.__class__ is FnV: return a.i == b.i
    if a.__class__ in (int, bool): return a == b
    if z3.is_expr(a): return a.eq(b)
    return False


CONT = textm.CONT


class Image:
    """What a closure appends to its formatter for a character"""
    def __init__(self, fty, fn, acc, c, sink, key):
        self.fty, self.fn, self.acc, self.c, self.sink, self.key = fty, fn, acc, c, sink, key

    def __call__(self, x):
        cell = Cell(self.fn)
        old = self.sink.get()
        self.sink.set(EMPTY)
        r = textm.callp(self.fty, Ptr(cell), self.acc, x)
        out = self.sink.get()
        self.sink.set(old)
        if r.__class__ is not A or r.v != self.c or not same(r.f[0], self.acc): raise Undecided('a loop over text which ends early')
        if not same(cell.x, self.fn): raise Undecided('a loop over text with a state')
        t = sv(out).atoms()
        if not t: raise Undecided('a loop over text which drops characters')
        return t


def try_fold(P, i, f, body):
    g = [x for x in f['ga'] if isinstance(x, int)]
    t = P.types[g[0]]
    rty = P.types[g[-1]]
    if rty['k'] != 'adt' or rty['d'] not in CONT or t['k'] != 'adt': return body
    c = CONT[rty['d']]
    fty = g[-2]
    if t['d'] == 'std::str::Chars': return chars_fold(body, fty, c, i)
    if t['d'] == 'std::ops::Range': return range_fold(body, fty, c)
    return body


def chars_fold(body, fty, c, i):
    def g(p, acc, fn):
        while True:
            it = textm.chars_adv(p.get())
            n = head(it.s)
            sink = sink_of(fn) if n is not None and it.o is None else None
            if sink is not None and n.a.kind != 'sp':
                r = n.a
                im = Image(fty, fn, acc, c, sink, (i,))
                k = key_of('image', r, i) if acc.__class__ is A and not acc.f else None
                if k is None: induct(lambda: im(generic(r)))
                else: lemma(k, lambda: im(generic(r)))
                use_contract('loops over the characters of text: the effect of one step, for an arbitrary character, on all of them')
                sink.set(Str(sv(sink.get()).atoms() + (strs.image(r, im),)))
                p.set(textm.Chars(it.s.tail(n.n)))
                continue
            p.set(it)
            x = textm.chars_next(p)
            if x is NONE or x.v == 0: return A(c, (acc,))
            cell = Cell(fn)
            r = textm.callp(fty, Ptr(cell), acc, x.f[0])
            fn = cell.x
            if r.__class__ is not A: r = textm.unexp(r)
            if r.__class__ is not A: raise Undecided('try_fold')
            if r.v != c: return r
            acc = r.f[0]
    return g


def range_fold(body, fty, c):
    def g(p, acc, fn):
        v = p.get()
        a, b = v.f
        if a.__class__ is int and b.__class__ is int: return body(p, acc, fn)
        sink = sink_of(fn)
        if sink is None or a.__class__ is not int or not z3.is_bv(b): return body(p, acc, fn)
        if not branch(rt.i_Lt(a, b, 64, False)): return A(c, (acc,))
        im = Image(fty, fn, acc, c, sink, None)

        def step():
            x = z3.BitVec(fresh_name('i'), 64)
            assume(z3.And(z3.UGE(x, a), z3.ULT(x, b)))
            if im(x) != (' ',): raise Undecided('a loop which writes something else than spaces')
        induct(step)
        use_contract('loops which write as many spaces as they have iterations')
        sink.set(Str(sv(sink.get()).atoms() + (Sp(b if a == 0 else z3.simplify(b - a)),)))
        p.set(A(v.v, (b, b)))
        return A(c, (acc,))
    return g


contract('std::iter::Iterator::try_fold')(try_fold)


# ---------------------------------------------------------------- parsing character by character

class Splice:
    """In place of a character: those of a run"""
    __slots__ = ('r',)

    def __init__(self, r): self.r = r


class RVec(tuple):
    """A vector some elements of which are splices"""
    def __add__(self, o): return RVec(tuple.__add__(self, o))
    def __len__(self): raise Undecided('length of a vector of characters')
    def __iter__(self): raise Undecided('vector of characters')
    def __getitem__(self, k): raise Undecided('vector of characters')


class RVI:
    def __init__(self, v): self.v = v
    def __getattr__(self, k): raise Undecided('iterator over characters')


models.Splice, models.RVec, models.RVI = Splice, RVec, RVI


def text_of(r): return r.r if r.kind == 'img' else r


def step_input(s, n, wall):
    """(arbitrary character of the run at n, an input which starts with its text, the node behind it)"""
    r = n.a
    o = text_of(r)
    x = generic(o)
    t = r.g(x) if r.kind == 'img' else (textm.char_atom(x),)
    nodes = [strs.Node(a) for a in t]
    for a, b in zip(nodes, nodes[1:]): a.n = b
    end = n.n
    if wall:
        inp, end = follow(nodes)
        return x, inp, end
    if split(2) == 0:
        q = Run(o.k2, o.k2, (), o.kind)
        if r.kind == 'img': q = strs.image(q, r.g)
        end = strs.Node(q)
        end.n = n.n
    nodes[-1].n = end
    return x, Str(None, nodes[0], s.e), end


def expect(val, x):
    if val.__class__ is not int and not z3.is_expr(val): raise Undecided('a parser of characters')
    q = rt.i_Eq(val, x, 32, False)
    if q is True: return
    if q is False or check_sat(Not(q)) != z3.unsat: raise Undecided('text which is not read as it is')


def at(rest, s, end):
    if rest.__class__ is not Str or rest.s is not end or rest.e is not s.e: raise Undecided('a parser which reads on')


def find_call(P, i, suffix):
    for t in P.calls(i):
        if P.fns[t]['d'].endswith(suffix): return t
    return None


def string_from_iter(P, i, f, body):
    t = P.types[f['ga'][0]]
    if t['k'] == 'ref': t = P.types[t['e']]
    if t['k'] != 'adt': return body
    if t['d'] == 'std::vec::IntoIter':
        def g(it):
            if it.__class__ is not RVI: return body(it)
            out = ()
            for x in tuple.__iter__(it.__dict__['v']): out += (x.r,) if x.__class__ is Splice else (textm.char_atom(x),)
            return Str(out)
        return g
    if t['d'] != 'nom::combinator::ParserIterator': return body
    nxt = find_call(P, i, '::next')
    if nxt is None: return body

    def g(it):
        F = P.G[P.fn(nxt)]
        out = ()

        def nxt1():
            return F(Ptr(Cell(it)))
        while True:
            v = it.get()
            st = v.f[2]
            s = v.f[1]
            running = st.__class__ is A and st.v == 1 and st.f[0].__class__ is A and st.f[0].v == 0
            n = head(s) if running and s.__class__ is Str else None
            if n is not None and n.a.kind != 'sp':
                key = key_of('text', nxt, n.a, v.f[0], st)

                def step():
                    x, inp, end = step_input(s, n, key is not None)
                    it.set(A(v.v, (v.f[0], inp, st)))
                    r = nxt1()
                    if r.__class__ is not A or r.v != 1: raise Undecided('a parser of characters which stops')
                    expect(r.f[0], x)
                    w = it.get()
                    at(w.f[1], inp, end)
                    if not same(w.f[0], v.f[0]) or not same(w.f[2], st): raise Undecided('a parser with a state')
                if key is None: once(step, nxt, n.a, v.f[0], st)
                else: lemma(key, step)
                use_contract('parsing character by character: the effect of one step, for an arbitrary character, on all of them')
                out += (text_of(n.a),)
                it.set(A(v.v, (v.f[0], s.tail(n.n), st)))
                continue
            r = nxt1()
            if r.v == 0: return Str(out)
            out += (textm.char_atom(r.f[0]),)
    return g


contract('contracts::models::string_from_iter')(string_from_iter)


def many(P, i, f, body):
    """many0 and many1 of characters: the parser, called from the loop, takes a whole run at once"""
    g = f['ga']
    if not (isinstance(g[1], int) and P.types[g[1]]['k'] == 'char'): return body
    par = find_call(P, i, 'nom::Parser<I, O, E>>::parse')
    if par is None: return body

    def g(env, inp):
        old = ACTIVE[0]
        ACTIVE[0] = (par, env.sub((0,)))
        try: return body(env, inp)
        finally: ACTIVE[0] = old
    return g


ACTIVE = [None]
contract('nom::multi::many0::{closure#0}', 'nom::multi::many1::{closure#0}')(many)


@contract('<F as nom::Parser<I, O, E>>::parse')
def _(P, i, f, body):
    def first(p, s):
        a = ACTIVE[0]
        if a is None: return body(p, s)
        ACTIVE[0] = None
        try:
            if i == a[0] and p.c is a[1].c and p.p == a[1].p:
                n = head(s)
                if n is not None and n.a.kind != 'sp':
                    v = p.get()

                    key = key_of('many', i, n.a, v)

                    def step():
                        x, inp, end = step_input(s, n, key is not None)
                        r = body(p, inp)
                        if r.v != 0: raise Undecided('a parser of characters which stops')
                        at(r.f[0].f[0], inp, end)
                        expect(r.f[0].f[1], x)
                        if not same(p.get(), v): raise Undecided('a parser with a state')
                    if key is None: once(step, i, n.a, v)
                    else: lemma(key, step)
                    use_contract('parsing character by character: the effect of one step, for an arbitrary character, on all of them')
                    return Ok(A(0, (s.tail(n.n), Splice(text_of(n.a)))))
            return body(p, s)
        finally: ACTIVE[0] = a
    return first if isinstance(f['ga'][1], int) and P.types[f['ga'][1]]['k'] == 'char' else body


def many_count(P, i, f, body):
    par = find_call(P, i, 'nom::Parser<I, O, E>>::parse')
    if par is None: return body

    def g(env, inp):
        s = sv(inp)
        n = strs.first(s, False)
        if n is None or n.a.__class__ is not Run or n.a.kind != 'sp': return body(env, inp)
        k = n.a.n
        F = P.G[P.fn(par)]
        p = env.sub((0,))
        v = p.get()

        key = key_of('spaces', par, v)

        def step():
            end = n.n
            if key is None and split(2) == 0:
                q = Sp(z3.BitVec(fresh_name('n'), 64))
                assume(q.n != 0)
                end = strs.Node(q)
                end.n = n.n
            a = strs.Node(' ')
            if key is None:
                a.n = end
                inp = Str(None, a, s.e)
            else: inp, end = follow([a])
            r = F(p, inp)
            if r.v != 0: raise Undecided('a parser of characters which stops')
            at(r.f[0].f[0], inp, end)
            if not same(p.get(), v): raise Undecided('a parser with a state')
        if key is None: once(step, par, n.a, v)
        else: lemma(key, step)
        use_contract('counting spaces: the effect of one step, for an arbitrary number of them')
        r = g(env, s.tail(n.n))
        if r.v != 0: return r
        x = r.f[0].f[1]
        y = k if x.__class__ is int and x == 0 else z3.simplify(k + (z3.BitVecVal(x, 64) if x.__class__ is int else x))
        return Ok(A(0, (r.f[0].f[0], y)))
    return g


contract('nom::multi::many0_count::{closure#0}')(many_count)


@m('contracts::print::spaces')
def _(n):
    if n.__class__ is int: return strs.lit(' ' * n)
    if not branch(rt.i_Lt(0, n, 64, False)): return EMPTY
    return Str((Sp(n),))
