"""Symbolic strings: sequences of concrete characters, symbolic characters and opaque non-empty runs.

A run stands for an arbitrary non-empty sequence of characters of a class; it is split only as far
as the code under test tells its characters apart."""
import z3
from core import *
import rt

BV32 = lambda n: z3.BitVecVal(n, 32)
F_alpha = z3.Function('alphabetic', z3.BitVecSort(32), z3.BoolSort())
F_numeric = z3.Function('numeric', z3.BitVecSort(32), z3.BoolSort())
F_white = z3.Function('whitespace', z3.BitVecSort(32), z3.BoolSort())


def rng(c, a, b): return z3.And(z3.UGE(c, BV32(ord(a))), z3.ULE(c, BV32(ord(b))))


def ch_class(py, ascii_, uf):
    def f(c):
        if c.__class__ is int: return py(chr(c))
        return z3.simplify(z3.If(z3.ULT(c, BV32(128)), ascii_(c), uf(c)))
    return f


# the Unicode tables are abstracted by uninterpreted predicates beyond ASCII
is_alphabetic = ch_class(str.isalpha, lambda c: z3.Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')), F_alpha)
is_numeric = ch_class(lambda s: __import__('unicodedata').category(s) in ('Nd', 'Nl', 'No'), lambda c: rng(c, '0', '9'), F_numeric)
is_whitespace = ch_class(str.isspace, lambda c: z3.Or(c == BV32(32), z3.And(z3.UGE(c, BV32(9)), z3.ULE(c, BV32(13)))), F_white)


def is_alphanumeric(c):
    if c.__class__ is int: return is_alphabetic(c) or is_numeric(c)
    return z3.Or(is_alphabetic(c), is_numeric(c))


def ceq(c, s):
    if c.__class__ is int: return c == ord(s)
    return c == BV32(ord(s))


def Or(*xs):
    ys = [x for x in xs if x is not False]
    if any(x is True for x in ys): return True
    return z3.Or(*ys) if ys else False


def And(*xs):
    ys = [x for x in xs if x is not True]
    if any(x is False for x in ys): return False
    return z3.And(*ys) if ys else True


def Not(x): return (not x) if x.__class__ is bool else z3.Not(x)


def k_ident(c): return Or(is_alphanumeric(c), ceq(c, '_'), ceq(c, '$'))
def k_start(c): return And(k_ident(c), Not(is_numeric(c)))


SPECIAL = '\\\'"]\n\t\r%'


def k_plain(c): return And(*[Not(ceq(c, s)) for s in SPECIAL])
def k_digit(c):
    if c.__class__ is int: return 48 <= c <= 57
    return rng(c, '0', '9')
def k_hex(c):
    if c.__class__ is int: return chr(c) in '0123456789abcdef'
    return z3.Or(rng(c, '0', '9'), rng(c, 'a', 'f'))
def k_any(c): return True
def k_blank(c): return Or(ceq(c, ' '), ceq(c, '\t'))
def k_letter(c):
    if c.__class__ is int: return chr(c).isalpha() and c < 128
    return Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z'))


class Chr:
    """A symbolic character"""
    __slots__ = ('x',)

    def __init__(self, x): self.x = x


CHARS = {}      # characters known to be concrete on this path


def charval(x):
    r = CHARS.get(x.get_id())
    return r[1] if r is not None else None


def char_known(x, ch): CHARS[x.get_id()] = (x, ch)


class Run:
    """A non-empty sequence of characters: the first of class `k1`, the others of class `k2`"""
    def __init__(self, k1, k2, excl=(), kind='run'):
        self.k1 = tuple(k1)
        self.k2 = tuple(k2)
        self.kind = kind
        self.excl = set(excl)      # ('=', s): not equal to s; ('p', s): does not start with s
        self.id = z3.Int(fresh_name_('str'))
        self.exp = None
        self.first = None
        self.words = None
        self.r = self.g = self.n = None

    def __repr__(self): return '<%s %s>' % (self.kind, self.id) if self.exp is None else repr(self.exp)

    def first_char(self):
        if self.kind == 'sp': return 32
        if self.first is None:
            self.first = z3.BitVec(fresh_name_('c'), 32)
            valid_char(self.first)
            for k in self.k1: assume(k(self.first))
        return self.first

    def peel(self):
        """Split off the first character"""
        if self.words is not None: return self.choose()
        if self.kind == 'img': return open_image(self)
        if self.kind == 'sp':
            m = z3.simplify(self.n - 1)
            if branch(m == 0): self.exp = (' ',)
            else: self.exp = (' ', Sp(m))
            return
        c = self.first_char()
        n = split(2)
        if n == 0: self.set((Chr(c),))
        else:
            ex = set()
            for k, s in self.excl:
                # an exclusion of a concrete string constrains the rest only once the first is known
                pass
            self.set((Chr(c), Run(self.k2, self.k2, ex, self.kind)))

    def set(self, pieces):
        if self.kind in ('rest', 'img', 'sp'): S.taint = 'the inside of opaque text'
        self.exp = pieces

    def choose(self, ws=None):
        ws = self.words if ws is None else ws
        self.words = None
        w = ws[split(len(ws))] if len(ws) > 1 else ws[0]
        if self.first is not None:
            assume(self.first == BV32(ord(w[0])))
            feasible()
        self.exp = tuple(w)

    def can(self, ch, first):
        """Whether the concrete character may occur: True/False, or None if unknown"""
        r = True
        for k in (self.k1 if first else self.k2):
            v = k(ord(ch))
            if v is not True:
                v = simp(v)
                if v is False: return False
                if v is not True: r = None
        return r


def Sp(n):
    """A symbolic positive number of spaces"""
    r = Run((k_space,), (k_space,), (), 'sp')
    r.n = n
    return r


def image(r, g):
    """The text of all characters of a run, each of which is mapped by `g`"""
    key = (g.key, id(r))
    q = IMAGES.get(key)
    if q is None:
        q = Run((k_any,), (k_any,), (), 'img')
        q.r, q.g = r, g
        q.depth = getattr(r, 'depth', 0)
        IMAGES[key] = q
    return q


IMAGES = {}


def open_image(q):
    r = q.r
    if r.exp is None:
        if getattr(r, 'depth', 0) >= 2: raise Undecided('the inside of an image of text')
        r.peel()
    out = ()
    for a in flat(r.exp):
        if a.__class__ is str: out += q.g(ord(a))
        elif a.__class__ is Chr: out += q.g(a.x)
        else:
            a.depth = getattr(r, 'depth', 0) + 1
            out += (image(a, q.g),)
    q.exp = out


class Dec:
    """Decimal digits of a non-negative integer: a bit vector or an unbounded one"""
    __slots__ = ('x', 'radix')

    def __init__(self, x, radix=10):
        self.x = x
        self.radix = radix

    def __repr__(self): return 'Dec(%s)' % (self.x,)


OPWORDS = ('add sub mul div rem lt leq gt geq eq neq pad asUInt asSInt asFixed asClock asAsyncReset shl shr dshl dshr cvt neg not and or xor andr orr xorr cat bits head tail incp decp setp mux validif').split()


def word(ws, first=None):
    r = Run((k_letter,), (k_letter,), (), 'word')
    r.words = list(ws)
    r.first = first
    return r


def rest(*chars):
    return Run((lambda c: Or(*[ceq(c, x) for x in chars]),), (k_any,), (), 'rest')


def k_type(c): return Or(*[ceq(c, x) for x in 'USFCRA{'])
def k_when(c): return ceq(c, 'w')
def k_space(c): return ceq(c, ' ')


class Piece:
    """The text of an opaque sub-tree; only its beginning may be looked at. That every text has one of
    these shapes is an obligation of the contracts of C01, C02 and C03."""
    __slots__ = ('l', 'k', 'n', 'exp', 'first')

    def __init__(self, l, k='', n=0):
        self.l = l
        self.k = k
        self.n = n
        self.exp = None
        self.first = None

    @property
    def k1(self):
        if self.k == 'type': return k_type
        if self.k == 'cond': return k_when
        return k_start

    def can(self, ch, first):
        v = simp(self.k1(ord(ch)))
        return v if v.__class__ is bool else None

    def first_char(self):
        if self.first is None:
            self.first = z3.BitVec(fresh_name_('c'), 32)
            valid_char(self.first)
            assume(self.k1(self.first))
        return self.first

    def open(self):
        f = self.first
        if self.k == 'expr':
            o = split(4)
            if o == 0: ps = (named(f),)
            elif o == 1: ps = (named(f), rest('.', '['))
            elif o == 2: ps = (word(OPWORDS, f), rest('('))
            else: ps = (word(('UInt', 'SInt'), f), rest('<'))
        elif self.k == 'type':
            o = split(3)
            if o == 0: ps = (word(('UInt', 'SInt', 'Fixed', 'Analog', 'Clock', 'Reset', 'AsyncReset'), f),)
            elif o == 1: ps = (word(('UInt', 'SInt', 'Fixed', 'Analog', 'Clock', 'Reset', 'AsyncReset'), f), rest('<', '['))
            else:
                if f is not None: assume(f == BV32(ord('{')))
                ps = ('{', Run((k_any,), (k_any,), (), 'rest'))
        elif self.k == 'cond':
            if f is not None: assume(f == BV32(ord('w')))
            ps = (*'when', rest(' '))
        else:
            o = split(4)
            if o == 0:
                r = Run((lambda c: Not(k_ident(c)),), (k_any,), (), 'rest')
                ps = (named(f, {('=', 'else')}), r)
            else:
                # a reference named `else`, connected or invalidated
                if f is not None: assume(f == BV32(ord('e')))
                if o == 1: ps = (*'else', rest('.', '['))
                elif o == 2: ps = (*'else ', rest('<'))
                else: ps = (*'else is', rest(' '))
        feasible()
        self.exp = ps

    def __repr__(self): return 'Piece(%r %s)' % (self.l, self.k)


def named(f, excl=()):
    r = Run((k_start,), (k_ident,), excl, 'name')
    r.first = f
    return r


class Node:
    __slots__ = ('a', 'n', 'p')

    def __init__(self, a):
        self.a = a
        self.n = None
        self.p = None       # of the first node of an opened Piece: (piece, node behind it)


class Str:
    __slots__ = ('t', 'q', 'e', 'z')

    def __init__(self, t=None, s=None, e=None, z=None):
        self.t = t
        self.q = s
        self.e = e
        self.z = z          # (text, offset): the beginning is yet to be found, which may split the path

    @property
    def s(self):
        z = self.z
        if z is not None:
            self.q = seek(*z)
            self.z = None
        return self.q

    @s.setter
    def s(self, v): self.q = v

    def get(self): return self

    def sub(self, path): return self

    def nodes(self):
        if self.s is None: self.link()
        n = self.s
        while n is not self.e:
            if n.a.__class__ is Run: fix(n)
            yield n
            n = n.n

    def link(self):
        first = Node(None)
        cur = first
        for a in self.t:
            cur.a = a
            cur.n = Node(None)
            cur = cur.n
        self.s = first
        self.e = cur

    def atoms(self):
        """Opened pieces count as one atom"""
        if self.s is None:
            t = self.t
            if any(a.__class__ is Run and a.exp is not None for a in t): self.t = t = tuple(flat(t))
            return t
        out = []
        n = self.s
        while n is not self.e:
            if n.p is not None:
                m = n
                while m is not n.p[1] and m is not self.e: m = m.n
                if m is n.p[1]:
                    out.append(n.p[0])
                    n = m
                    continue
            if n.a.__class__ is Run: fix(n)
            out.append(n.a)
            n = n.n
        return tuple(out)

    def tail(self, n):
        return Str(None, n, self.e)

    def head(self, n):
        if self.s is None: self.link()
        return Str(None, self.s, n)

    def concrete(self):
        t = self.atoms()
        if all(a.__class__ is str for a in t): return ''.join(t)
        return None

    def empty(self):
        if self.s is None: return not self.t
        return self.s is self.e

    def ptrmeta(self): return length(self)

    def __repr__(self): return 'Str(%s)' % ''.join(a if a.__class__ is str else '{%r}' % (a.x if a.__class__ is Chr else a) for a in self.atoms())


def flat(t):
    for a in t:
        if a.__class__ is Run and a.exp is not None: yield from flat(a.exp)
        else: yield a


def fix(n):
    while (n.a.__class__ is Run or n.a.__class__ is Piece) and n.a.exp is not None:
        ps = n.a.exp
        rest = n.n
        if n.a.__class__ is Piece: n.p = (n.a, rest)
        n.a = ps[0]
        cur = n
        for p in ps[1:]:
            m = Node(p)
            cur.n = m
            cur = m
        cur.n = rest


_lits = {}


def lit(s):
    r = _lits.get(s)
    if r is None:
        r = Str(tuple(s))
        _lits[s] = r
    return r


EMPTY = Str(())


def concat(*ss):
    t = ()
    for s in ss: t += s.atoms()
    return Str(t)


def valid_char(c):
    assume(z3.And(z3.ULE(c, BV32(0x10ffff)), z3.Not(z3.And(z3.UGE(c, BV32(0xd800)), z3.ULE(c, BV32(0xdfff))))))


def fresh_char():
    c = z3.BitVec(fresh_name_('c'), 32)
    valid_char(c)
    return c


def fresh_name(kind):
    if kind == 'name': return Str((Run((k_start,), (k_ident,), (), 'name'),))
    if kind == 'ident': return Str((Run((k_ident,), (k_ident,), (), 'ident'),))
    if kind == 'plain': return Str((Run((k_plain,), (k_plain,), (), 'plain'),))
    if kind == 'line': return Str((Run((k_start,), (k_any,), (), 'text'),))
    if kind == 'line_not_else': return Str((Run((k_start,), (k_any,), {('p', 'else')}, 'text'),))
    if kind == 'word_line': return Str((Run((k_ident,), (k_any,), (), 'text'),))
    if kind == 'text':
        return Str((Run((k_any,), (k_any,), (), 'text'),))
    raise Undecided('string kind')


# ---------------------------------------------------------------- offsets

def u8len(ch):
    return len(ch.encode('utf-8', 'surrogatepass'))


class Off:
    """A symbolic number of bytes: those of a sequence of atoms, and a constant"""
    __slots__ = ('i',)

    def __init__(self, i): self.i = i

    def flat(self):
        out = []
        for a in self.i:
            if (a.__class__ is Run or a.__class__ is Piece) and a.exp is not None:
                for b in flat(a.exp): push_off(out, b)
            else: push_off(out, a)
        return out

    def __repr__(self): return 'Off%r' % (self.flat(),)


rt.OFF = Off
rt.strs = __import__('sys').modules[__name__]


def push_off(out, a):
    if a.__class__ is str: a = u8len(a)
    elif a.__class__ is Chr:
        w = charval(a.x)
        if w is not None: a = u8len(w)
    if a.__class__ is int:
        if a == 0: return
        if out and out[-1].__class__ is int:
            out[-1] += a
            return
    out.append(a)


def mkoff(items):
    out = []
    for a in items:
        if a.__class__ is Off:
            for b in a.flat(): push_off(out, b)
        elif (a.__class__ is Run or a.__class__ is Piece) and a.exp is not None:
            for b in flat(a.exp): push_off(out, b)
        else: push_off(out, a)
    if not out: return 0
    if len(out) == 1 and out[0].__class__ is int: return out[0]
    return Off(tuple(out))


def length(s):
    return mkoff(s.atoms())


def same_atom(a, b):
    if a is b: return True
    if a.__class__ is Chr and b.__class__ is Chr: return a.x is b.x or z3.eq(a.x, b.x)
    return False


def cancel(a, b):
    """(constant, atoms) of both lengths without what they have in common: lengths commute"""
    a = a.flat() if a.__class__ is Off else [a]
    b = b.flat() if b.__class__ is Off else [b]
    ka, kb = (sum(x for x in t if x.__class__ is int) for t in (a, b))
    a, b = ([x for x in t if x.__class__ is not int] for t in (a, b))
    for x in list(a):
        k = next((i for i, z in enumerate(b) if same_atom(z, x)), None)
        if k is not None:
            b.pop(k)
            a.pop(next(i for i, z in enumerate(a) if z is x))
    k = min(ka, kb)
    return ka - k, a, kb - k, b


def off_eq(a, b):
    ka, a, kb, b = cancel(a, b)
    if not a and not b: return ka == kb
    # all atoms are non-empty
    if not a and len(b) + kb > ka: return False
    if not b and len(a) + ka > kb: return False
    raise Undecided('comparison of lengths')


def count_bv(x):
    """A length which is a number of spaces, as a bit vector; None for other lengths"""
    if x.__class__ is int: return z3.BitVecVal(x, 64)
    if x.__class__ is not Off: return x if z3.is_bv(x) else None
    r = z3.BitVecVal(0, 64)
    for a in x.flat():
        if a.__class__ is int: r = r + z3.BitVecVal(a, 64)
        elif a.__class__ is Run and a.kind == 'sp' and a.exp is None: r = r + a.n
        else: return None
    return z3.simplify(r)


def off_sub(a, b):
    """a - b, where b is a prefix or suffix of a"""
    x, y = (q.flat() if q.__class__ is Off else [q] for q in (a, b))
    try: return off_sub_(x, y)
    except Undecided: r = off_sub_(x[::-1], y[::-1])
    return mkoff((r.flat() if r.__class__ is Off else [r])[::-1])


def off_sub_(a, b):
    a = [x for x in a if x.__class__ is not int or x]
    b = [x for x in b if x.__class__ is not int or x]
    while b:
        if not a: raise Undecided('difference of lengths')
        x, y = a[0], b[0]
        if x.__class__ is int and y.__class__ is int:
            m = min(x, y)
            a = a[1:] if x == m else [x - m] + a[1:]
            b = b[1:] if y == m else [y - m] + b[1:]
        elif x.__class__ is not int and y.__class__ is not int and same_atom(x, y): a, b = a[1:], b[1:]
        else: raise Undecided('difference of lengths')
    return mkoff(a)


def off_cmp(op, a, b):
    if a.__class__ is not int and b.__class__ is not int:
        x, y = count_bv(a), count_bv(b)
        if x is not None and y is not None:
            return rt.normb({'Lt': z3.ULT, 'Le': z3.ULE, 'Gt': z3.UGT, 'Ge': z3.UGE, 'Eq': lambda p, q: p == q, 'Ne': lambda p, q: p != q}[op](x, y))
    if op in ('Eq', 'Ne'):
        r = off_eq(a, b)
        return r if op == 'Eq' else not r
    # a < b etc.
    def least(x): return x if x.__class__ is int else sum(y if y.__class__ is int else 1 for y in x.flat())
    if b.__class__ is int:
        m = least(a)
        if op == 'Lt' and m >= b: return False
        if op == 'Ge' and m >= b: return True
        if op == 'Gt' and m > b: return True
        if op == 'Le' and m > b: return False
    if a.__class__ is int:
        m = least(b)
        if op == 'Lt' and a < m: return True
        if op == 'Ge' and a < m: return False
        if op == 'Gt' and a <= m: return False
        if op == 'Le' and a <= m: return True
    ka, a, kb, b = cancel(a, b)
    if not a and not b: return rt_cmp(op, ka, kb)
    if not a and len(b) + kb > ka: return op in ('Lt', 'Le')
    if not b and len(a) + ka > kb: return op in ('Gt', 'Ge')
    raise Undecided('comparison of lengths')


def rt_cmp(op, a, b): return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]


def open_(n):
    """Open the piece at the node"""
    if n.a.exp is None: n.a.open()
    fix(n)


def known_char(n):
    """Replace the character at the node by a concrete one if it is the only possibility"""
    a = n.a
    if a.__class__ is Run and a.kind in ('img', 'sp') and a.exp is None:
        a.peel()
        fix(n)
        return True
    if a.__class__ is Run and a.words is not None and len(a.words) == 1: a.choose()
    if a.__class__ is Run or a.__class__ is Piece:
        if a.exp is not None:
            fix(n)
            return True
        if a.first is None: return False
        x = a.first
    elif a.__class__ is Chr: x = a.x
    else: return False
    if charval(x) is None:
        if check_sat() != z3.sat: raise Dead()
        v = S.solver.model().eval(x, model_completion=True)
        if check_sat(x != v) != z3.unsat: return False
        char_known(x, chr(v.as_long()))
    if a.__class__ is Piece:
        open_(n)
        return True
    if a.__class__ is Run:
        a.peel()
        fix(n)
    if n.a.__class__ is Chr: n.a = charval(n.a.x)
    return True


def seek(s, off):
    """The node at a byte offset into `s`"""
    if s.s is None: s.link()
    items = off.flat() if off.__class__ is Off else [off]
    items = [x for x in items if x.__class__ is not int or x]
    n = s.s
    items = list(items)
    while items:
        if n is s.e: raise Undecided('offset beyond the end')
        if n.a.__class__ is Run: fix(n)
        x = items[0]
        a = n.a
        if x.__class__ is int:
            if a.__class__ is str:
                k = u8len(a)
                if k > x: raise Undecided('offset within a character')
                items[0] = x - k
                if items[0] == 0: items.pop(0)
                n = n.n
                continue
            if known_char(n): continue
            raise Undecided('offset into a run')
        if same_atom(x, a):
            items.pop(0)
            n = n.n
            continue
        if x.__class__ is Piece and n.p is not None and n.p[0] is x:
            items.pop(0)
            n = n.p[1]
            continue
        if a.__class__ is Piece and (a.exp is not None or (x.__class__ is Chr and a.first is not None and z3.eq(a.first, x.x))):
            open_(n)
            continue
        if x.__class__ is Piece and x.exp is not None:
            items[0:1] = list(flat(x.exp))
            continue
        if x.__class__ is Chr and a.__class__ is Run and a.first is not None and z3.eq(a.first, x.x):
            a.peel()
            continue
        if x.__class__ is Run and x.exp is not None:
            items[0:1] = list(flat(x.exp))
            continue
        raise Undecided('offset')
    return n


# ---------------------------------------------------------------- comparison

def decide(k, c):
    """Formula of a class of a symbolic or concrete character"""
    return k(c)


def eq(a, b):
    """Equality as a condition; runs are split as far as necessary"""
    if a is b: return True
    cond = []
    while True:
        x, y = list(a.atoms()), list(b.atoms())
        i = 0
        again = False
        m = min(len(x), len(y))
        cond = []
        while i < m:
            p, q = x[i], y[i]
            if p is q:
                i += 1
                continue
            pc, qc = p.__class__, q.__class__
            if pc is str and qc is str:
                if p != q: return False
            elif pc is Chr and qc is Chr: cond.append(p.x == q.x)
            elif pc is Chr and qc is str: cond.append(p.x == BV32(ord(q)))
            elif pc is str and qc is Chr: cond.append(q.x == BV32(ord(p)))
            elif pc is Run and qc is Run and 'img' in (p.kind, q.kind):
                if p.kind != 'img': p, q = q, p
                if q.kind == 'img' and q.r is p.r and q.g.key == p.g.key or p.r is q and identity(p):
                    i += 1
                    continue
                p.peel()
                again = True
                break
            elif pc is Run and qc is Run and p.kind == 'sp' == q.kind:
                nx = [t[i + 1] if i + 1 < len(t) else None for t in (x, y)]
                if all(z is None or z.__class__ is str and z != ' ' or z.__class__ is Piece or z.__class__ is Run and z.kind != 'img' and z.can(' ', True) is False for z in nx):
                    cond.append(p.n == q.n)
                    i += 1
                    continue
                raise Undecided('equality of spaces')
            elif pc is Run and qc is Run:
                if i == len(x) - 1 and i == len(y) - 1:
                    if S.pure is not None: cond.append(p.id == q.id)
                    elif not branch(And(*cond)): return False
                    elif unify(p, q): return True
                    else: return False
                else: raise Undecided('equality of concatenated runs')
            elif (pc is Piece) != (qc is Piece):
                w = p if pc is Piece else q
                if w.exp is None: w.open()
                a, b = Str(tuple(unpiece(x, w))), Str(tuple(unpiece(y, w)))
                again = True
                break
            elif pc is Run or qc is Run:
                r, o = (p, q) if pc is Run else (q, p)
                if r.kind in ('img', 'sp'):
                    if r.kind == 'sp' and o.__class__ is str and o != ' ': return False
                    r.peel()
                    again = True
                    break
                if o.__class__ is str:
                    rest = y[i:] if r is p else x[i:]
                    own = (x if r is p else y)[i + 1:]
                    w = ''
                    for z in rest:
                        if z.__class__ is not str: break
                        w += z
                    whole = len(w) == len(rest)
                    if whole and not own:
                        v = run_is(r, w)
                        if v is False: return False
                        again = True
                        break
                    if not run_starts(r, o): return False
                    again = True
                    break
                if o.__class__ is Chr:
                    r.peel()
                    again = True
                    break
                raise Undecided('equality of a run and a number')
            elif pc is Dec and qc is Dec:
                if p.radix != q.radix: raise Undecided('radix')
                for s in (x[i + 1:i + 2] + y[i + 1:i + 2]):
                    if s.__class__ is not str or s.isalnum(): raise Undecided('equality of numbers in text')
                cond.append(num_eq(p.x, q.x))
            elif pc is Piece and qc is Piece:
                raise Undecided('equality of opaque text')
            elif pc is Dec or qc is Dec:
                d, o = (p, q) if pc is Dec else (q, p)
                if o.__class__ is str:
                    if not o.isdigit(): return False
                    rest = y[i:] if d is p else x[i:]
                    own = (x if d is p else y)[i + 1:]
                    w = ''.join(z for z in rest if z.__class__ is str)
                    if len(w) == len(rest) and not own and d.radix == 10:
                        if not w.isdigit() or (len(w) > 1 and w[0] == '0'): return False
                        return And(*cond, num_eq(d.x, int(w)))
                raise Undecided('equality of a number and text')
            else: raise Undecided('equality of text')
            i += 1
        if again: continue
        if len(x) != len(y): return False
        return And(*cond)


def identity(p):
    """Whether an image is the text itself"""
    if S.pure is not None: raise Undecided('image of text')
    if split(2) == 0:
        x = fresh_char()
        assume(Or(And(*[k(x) for k in p.r.k1]), And(*[k(x) for k in p.r.k2])))
        feasible()
        t = p.g(x)
        if len(t) != 1 or branch(Not(eq(Str(t), Str((Chr(x),))))): raise Undecided('an image which is not the text itself')
        raise Dead()
    return True


def unify(p, q):
    """Whether two runs are equal: decided by splitting the path; in the affirmative case they become one"""
    if not branch(p.id == q.id):
        S.neq = S.neq + [(Str((p,)), Str((q,)))]
        return False
    same = p.k1 == q.k1 and p.k2 == q.k2
    n = Run(p.k1 if same else p.k1 + q.k1, p.k2 if same else p.k2 + q.k2, p.excl | q.excl, 'rest' if 'rest' in (p.kind, q.kind) else p.kind)
    n.id = p.id
    if p.first is not None and q.first is not None: assume(p.first == q.first)
    n.first = p.first if p.first is not None else q.first
    for a, b in ((p, q), (q, p)):
        if a.words is not None:
            ws = [w for w in a.words if allowed(b, w) is not False and not any((k == '=' and w == e) or (k == 'p' and w.startswith(e)) for k, e in n.excl)]
            n.words = ws if n.words is None else [w for w in n.words if w in ws]
            if not n.words: raise Dead()
    if not same or n.first is not None:
        n.first_char()
        feasible()
    p.exp = q.exp = (n,)
    return True


def distinct():
    """Conditions of the texts found to be different before"""
    out = []
    for a, b in S.neq:
        t, u = a.atoms(), b.atoms()
        if t[0].__class__ is Run and len(t) == 1 and u[0].__class__ is Run and len(u) == 1: continue
        try: c = pure_eval(lambda: eq(a, b))
        except Undecided:
            S.taint = 'texts which are different'
            continue
        out.append(Not(c))
    return out


def unpiece(t, w):
    for a in t:
        if a is w: yield from flat(a.exp)
        else: yield a


def sign_bv(x):
    """(negative, magnitude as a bit vector) of an integer term built from one"""
    if x.__class__ is int: return x < 0, abs(x)
    if z3.is_bv(x): return False, x
    x = z3.simplify(x)
    k = x.decl().kind()
    if k == z3.Z3_OP_BV2INT: return False, x.arg(0)
    if k == z3.Z3_OP_UMINUS or k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() == -1:
        r = sign_bv(x.arg(x.num_args() - 1))
        return r and (not r[0], r[1])
    return None


def num_eq(x, y):
    if x.__class__ is int and y.__class__ is int: return x == y
    a, b = sign_bv(x), sign_bv(y)
    if a and b:
        if a[0] == b[0]: x, y = a[1], b[1]
        else: return And(num_eq(a[1], 0), num_eq(b[1], 0))
    if x.__class__ is int: x, y = y, x
    if y.__class__ is int:
        if z3.is_bv(x):
            if y >> x.size(): return False
            return x == z3.BitVecVal(y, x.size())
        return x == y
    if z3.is_bv(x) and z3.is_bv(y):
        w = max(x.size(), y.size())
        if x.size() < w: x = z3.ZeroExt(w - x.size(), x)
        if y.size() < w: y = z3.ZeroExt(w - y.size(), y)
        return x == y
    if z3.is_bv(x): x = z3.BV2Int(x)
    if z3.is_bv(y): y = z3.BV2Int(y)
    return x == y


def allowed(r, w):
    """Whether the run may be exactly / start with `w` according to its class: False or a condition"""
    c = []
    for i, ch in enumerate(w):
        v = r.can(ch, i == 0)
        if v is False: return False
        if v is None:
            for k in (r.k1 if i == 0 else r.k2):
                z = k(ord(ch))
                if z is not True: c.append(z)
    return And(*c)


def run_is(r, w):
    """Whether the run equals the (concrete) text: decides, splitting the path"""
    if not w or allowed(r, w) is False: return False
    if ('=', w) in r.excl or any(k == 'p' and w.startswith(s) for k, s in r.excl): return False
    if r.first is not None:
        if simp(r.first == BV32(ord(w[0]))) is False: return False
    if split(2) == 0:
        if r.first is not None: assume(r.first == BV32(ord(w[0])))
        feasible()
        r.set(tuple(w))
        return True
    r.excl.add(('=', w))
    return False


def run_starts(r, w, nxt=None, longer=True):
    """Whether the run starts with the text; in the affirmative case it is expanded accordingly"""
    if allowed(r, w) is False: return False
    if any(k == 'p' and w.startswith(s) for k, s in r.excl): return False
    opts = []
    if ('=', w) not in r.excl: opts.append('=')
    opts.append('>')
    opts.append('no')
    o = opts[split(len(opts))]
    if o == 'no':
        r.excl.add(('p', w))
        return False
    if r.first is not None:
        assume(r.first == BV32(ord(w[0])))
    feasible()
    if o == '=': r.set(tuple(w))
    else:
        ex = {(k, s[len(w):]) for k, s in r.excl if s.startswith(w) and len(s) > len(w)}
        r.set(tuple(w) + (Run(r.k2, r.k2, ex, r.kind),))
    return True


def feasible():
    if check_sat() == z3.unsat: raise Dead()


def starts_with(s, w):
    """Whether `s` starts with the concrete text `w`: a condition (True/False after splitting)"""
    i = 0
    n = None
    cond = []
    if s.s is None: s.link()
    n = s.s
    while i < len(w):
        if n is s.e: return False
        if n.a.__class__ is Run: fix(n)
        a = n.a
        c = a.__class__
        if c is str:
            if a != w[i]: return False
            i += 1
            n = n.n
            continue
        if c is Chr:
            if not branch(a.x == BV32(ord(w[i]))): return False
            i += 1
            n = n.n
            continue
        if c is Run:
            if a.kind in ('img', 'sp'):
                if a.kind == 'sp' and w[i] != ' ': return False
                a.peel()
                continue
            t = w[i:]
            if a.words is not None:
                ys = [x for x in a.words if x.startswith(t) or t.startswith(x)]
                if not ys: return False
                no = [x for x in a.words if x not in ys]
                if no and split(2) == 1:
                    a.words = no
                    return False
                a.choose(ys)
                continue
            if a.can(t[0], True) is False: return False
            if a.first is not None and simp(a.first == BV32(ord(t[0]))) is False: return False
            # the run may end within the text
            m = 1
            while m < len(t) and a.can(t[m], False) is not False: m += 1
            follow = n.n
            if m == len(t) and not may_follow(s, follow, t):
                if not run_starts(a, t): return False
                continue
            # the run equals a proper prefix of the text, the rest of which is to be matched after it
            done = False
            for k in range(1, m + 1):
                if k == len(t):
                    if not run_starts(a, t): return False
                    done = True
                    break
                if not may_char(s, follow, t[k]): continue
                if run_is(a, t[:k]):
                    done = True
                    break
            if not done:
                if m == len(t): continue
                return False
            continue
        if c is Dec:
            if not w[i].isalnum(): return False
            if a.radix == 10 and not w[i].isdigit(): return False
            raise Undecided('number compared to text')
        if c is Piece:
            if a.exp is None:
                if a.can(w[i], True) is False: return False
                if a.first is not None and simp(a.first == BV32(ord(w[i]))) is False: return False
            open_(n)
            continue
    return True


def may_char(s, n, ch):
    """Whether the text at `n` may start with `ch`"""
    if n is s.e: return False
    fix(n)
    a = n.a
    if a.__class__ is str: return a == ch
    if a.__class__ is Run or a.__class__ is Piece: return a.can(ch, True) is not False
    if a.__class__ is Dec: return ch.isdigit()
    return True


def may_follow(s, n, t):
    return any(may_char(s, n, t[k]) for k in range(1, len(t)))


# ---------------------------------------------------------------- scanning

def first(s, inside=True):
    """First character of a non-empty string: (char value, node)"""
    if s.s is None: s.link()
    n = s.s
    if n is s.e: return None
    fix(n)
    while inside and n.a.__class__ is Run and n.a.kind == 'img':
        n.a.peel()
        fix(n)
    return n


def char_at(n):
    a = n.a
    if a.__class__ is str: return ord(a)
    if a.__class__ is Chr: return a.x
    if a.__class__ is Run: return a.first_char()
    if a.__class__ is Dec:
        raise DecChar(n)
    if a.__class__ is Piece: return a.first_char()
    raise Undecided('character of %r' % (a,))


class DecChar(Undecided):
    def __init__(self, n):
        Undecided.__init__(self, 'character of a number')


def clen(c):
    if c.__class__ is int: return u8len(chr(c))
    return Off((Chr(c),))


def scan(s, pred):
    """Node of the first character satisfying `pred` (a function from a char value to a condition);
    None if there is none"""
    if s.s is None: s.link()
    n = s.s
    while n is not s.e:
        if n.a.__class__ is Run: fix(n)
        a = n.a
        c = a.__class__
        if c is str:
            if branch(pred(ord(a))): return n
        elif c is Chr:
            if branch(pred(a.x)): return n
        elif c is Dec:
            r = classify(pred, (k_hex if a.radix == 16 else k_digit,))
            if r is True: return n
            if r is None: raise Undecided('scan tells digits apart')
        elif c is Piece:
            if a.exp is None:
                if a.first is not None:
                    f = simp(pformula(pred, a.first))
                    if f is True: return n
                else:
                    if classify(pred, (a.k1,)) is True: return n
            open_(n)
            continue
        else:
            r = scan_run(a, pred)
            if r == 'first': return n
            if r == 'again': continue
        n = n.n
    return None


def fresh_name_(p):
    S.fresh += 1
    return '%s!%d' % (p, S.fresh)


class Pred:
    """A predicate on characters; `key` identifies its behaviour, if known"""
    __slots__ = ('fn', 'key')

    def __init__(self, fn, key=None):
        self.fn = fn
        self.key = key

    def __call__(self, c): return self.fn(c)


def freeze(v):
    """A hashable form of a value, or None"""
    c = v.__class__
    if c is int or c is bool: return (c, v)
    if c is str: return v
    if c is FnV: return ('fn', v.i)
    if c is A:
        fs = tuple(freeze(x) for x in v.f)
        return None if None in fs else ('A', v.v, fs)
    if c is tuple:
        fs = tuple(freeze(x) for x in v)
        return None if None in fs else ('t', fs)
    if c is Ptr: 
        x = freeze(v.get())
        return None if x is None else ('p', x, v.m.__repr__())
    if c is Str:
        x = v.concrete()
        return None if x is None else ('s', x)
    return None


PX = z3.BitVec('pred!x', 32)
FORMULAS = {}
CLASSES = {}


def pformula(pred, x):
    k = pred.key if pred.__class__ is Pred else None
    if k is None or not z3.is_bv(x): return pure_eval(lambda: pred(x))
    f = FORMULAS.get(k)
    if f is None: f = FORMULAS[k] = pure_eval(lambda: pred(PX))
    if f.__class__ is bool: return f
    return z3.substitute(f, (PX, x))


def classify(pred, ks):
    """True: every char of all the classes satisfies; False: none does; None: mixed"""
    key = (pred.key, ks) if pred.__class__ is Pred and pred.key is not None else None
    if key in CLASSES and key is not None: return CLASSES[key]
    x = z3.BitVec(fresh_name_('x'), 32)
    f = pformula(pred, x)
    r = None
    if f.__class__ is bool: r = f
    else:
        k = And(*[k(x) for k in ks], z3.ULE(x, BV32(0x10ffff)), z3.Or(z3.ULT(x, BV32(0xd800)), z3.UGT(x, BV32(0xdfff))))
        if check_sat(k, f) == z3.unsat: r = False
        elif check_sat(k, z3.Not(f)) == z3.unsat: r = True
    if key is not None: CLASSES[key] = r
    return r


def scan_run(a, pred):
    """'none': no character of the run satisfies `pred`; 'first': the first one does; 'again': split"""
    if a.kind == 'img':
        a.peel()
        return 'again'
    r1 = classify(pred, a.k1) if a.first is None else None
    if a.first is not None:
        f = pformula(pred, a.first)
        if branch(f): return 'first'
        r1 = False
    if r1 is True: return 'first'
    if a.words is not None:
        if r1 is False and classify(pred, (k_letter,)) is False: return 'none'
        a.choose()
        return 'again'
    r2 = classify(pred, a.k2)
    if r1 is False and r2 is False: return 'none'
    neg = lambda c: Not(pformula(pred, c))
    pos = lambda c: pformula(pred, c)
    if r1 is False and r2 is True:
        # the second character satisfies it, if there is one
        if split(2) == 0:
            a.set((Chr(a.first_char()),))
        else: a.set((Chr(a.first_char()), Run(a.k2, a.k2, (), a.kind)))
        return 'again'
    o = split(4 if r1 is None else 3)
    if r1 is False: o += 1
    if o == 0:
        # the first character does
        assume(pos(a.first_char()))
        feasible()
        return 'first'
    if o == 1:
        # none does
        if r1 is None: a.k1 = a.k1 + (neg,)
        if r2 is not False: a.k2 = a.k2 + (neg,)
        if a.first is not None: assume(neg(a.first))
        return 'none'
    # some prefix does not, then a character which does
    k1 = a.k1 + (neg,) if r1 is None else a.k1
    pre = Run(k1, a.k2 + (neg,), (), a.kind)
    pre.first = a.first
    c = fresh_char()
    for k in a.k2: assume(k(c))
    assume(pos(c))
    feasible()
    if o == 2: a.set((pre, Chr(c)))
    else: a.set((pre, Chr(c), Run(a.k2, a.k2, (), a.kind)))
    return 'again'


def peel_first(s):
    """Make the first atom a single character; returns its node"""
    n = first(s)
    if n is None: return None
    while n.a.__class__ is Run or n.a.__class__ is Piece:
        if n.a.__class__ is Piece: open_(n)
        else:
            n.a.peel()
            fix(n)
    return n


# ---------------------------------------------------------------- witnesses

def witness(s, model):
    out = []
    for a in s.atoms():
        if a.__class__ is str: out.append(a)
        elif a.__class__ is Chr: out.append(chr(model.eval(a.x, model_completion=True).as_long()))
        elif a.__class__ is Dec:
            v = a.x if a.x.__class__ is int else model.eval(a.x, model_completion=True).as_long()
            out.append(str(v) if a.radix == 10 else '%x' % v)
        elif a.__class__ is Run: out.append(run_witness(a, model))
        else: raise Undecided('witness')
    return ''.join(out)


def run_witness(a, model):
    k = model.eval(a.id, model_completion=True).as_long()
    sfx = 'q%d' % k if k >= 0 else 'p%d' % -k
    firsts = [chr(model.eval(a.first, model_completion=True).as_long())] if a.first is not None else list('vzAw_ (1.\u00e9:,;=\n"\'\\]%\t0 2f{<\u00b2')
    rests = ['', sfx, 'v' + sfx, '1', '0', ' ', ':', 'n', '"', '\n']
    for f in firsts:
        if a.first is None and a.can(f, True) is False: continue
        for r in (rests[1:] + rests[:1]):
            if any(a.can(ch, False) is False for ch in r): continue
            w = f + r
            if any((q == '=' and w == s) or (q == 'p' and w.startswith(s)) for q, s in a.excl): continue
            return w
    raise Undecided('no witness for a run')


def esc(s):
    return 's:' + ''.join(c if 33 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s)
