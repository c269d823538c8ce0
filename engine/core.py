"""Values, path state and solver access of the deductive engine.

One process explores one path; at a split the process forks.  Everything decided so far is in the
incremental z3 solver of the process."""
import mmap, struct
import json, os, sys, time
import z3

z3.set_param('memory_max_size', 3000)


class Undecided(Exception):
    """The engine cannot interpret something: the obligation stays undecided, never an alarm."""


class Dead(Exception):
    """The path is infeasible or has been left on purpose"""


class Done(Exception):
    pass


class _Undef:
    def __repr__(self): return 'UNDEF'


UNDEF = _Undef()


class A:
    """ADT, tuple or closure value: the variant is always concrete"""
    __slots__ = ('v', 'f')

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __repr__(self): return 'A%d%r' % (self.v, self.f)


UNIT = A(0, ())


class Cell:
    __slots__ = ('x', 'n')
    count = 0

    def __init__(self, x=UNDEF):
        self.x = x
        Cell.count += 1
        self.n = Cell.count


def walk(v, path):
    for p in path:
        if p.__class__ is int:
            if v.__class__ is tuple:
                try: v = v[p]
                except IndexError: raise Undecided('index')
            else: v = v.f[p]
        else:
            v = p(v)
    return v


def upd(v, path, x):
    if not path: return x
    p = path[0]
    if v is UNDEF: v = A(0, (UNDEF,) * (p + 1))
    if v.__class__ is tuple:
        return v[:p] + (upd(v[p], path[1:], x),) + v[p + 1:]
    f = v.f
    if len(f) <= p: f = f + (UNDEF,) * (p + 1 - len(f))
    return A(v.v, f[:p] + (upd(f[p], path[1:], x),) + f[p + 1:])


class Ptr:
    """A reference to (a part of) a cell; meta: (lo, hi) of a slice, or the type id behind `dyn`"""
    __slots__ = ('c', 'p', 'm')

    def __init__(self, c, p=(), m=None):
        self.c = c
        self.p = p
        self.m = m

    def get(self):
        v = self.c.x
        for p in self.p:
            if v.__class__ is tuple:
                try: v = v[p]
                except (IndexError, TypeError): raise Undecided('index')
            else: v = v.f[p]
        return v

    def set(self, x):
        if self.p: self.c.x = upd(self.c.x, self.p, x)
        else: self.c.x = x

    def sub(self, path):
        return Ptr(self.c, self.p + path)

    def at(self, i):
        m = self.m
        return Ptr(self.c, self.p + ((i + m[0]) if m.__class__ is tuple else i,))

    def __repr__(self): return '&%d%s' % (self.c.n, ''.join('.%s' % (x,) for x in self.p))


class FnV:
    __slots__ = ('i',)

    def __init__(self, i): self.i = i


class ArcV:
    """Arc<T>; the allocation is never changed"""
    __slots__ = ('c',)

    def __init__(self, x): self.c = Cell(x)


class Big:
    """BigInt/BigUint: a mathematical integer (python or z3)"""
    __slots__ = ('x',)

    def __init__(self, x): self.x = x


class Ext:
    """Any other native value"""
    __slots__ = ('k', 'd')

    def __init__(self, k, d):
        self.k = k
        self.d = d

    def __repr__(self): return '%s<%r>' % (self.k, self.d)


# ---------------------------------------------------------------- path state

class State:
    pass


S = State()


def reset_state(deadline, out_fd, sem):
    S.solver = z3.Solver()
    S.solver.set('timeout', 10000)
    S.tokens = []
    S.n_chk = 0
    S.n_triv = 0
    S.stime = 0.0
    S.queries = 0
    S.deadline = deadline
    S.out = out_fd
    S.sem = sem
    S.have = False
    S.covers = []
    S.taint = None
    S.fresh = 0
    S.kids = []
    S.trace = []
    S.leafs = 0
    S.bounded = set()
    S.obl = {}
    S.pure = None
    S.paths = 0
    S.unknown = False
    S.expanded = 0
    S.neq = []
    S.reads = []
    S.idx = 0
    S.uniform = set()
    S.pending = {}
    S.full = False


def fresh_name(p):
    S.fresh += 1
    return '%s!%d' % (p, S.fresh)


AFTER = float(os.environ.get('VC_AFTER', '60'))


def over():
    """Whether the time of the harness is used up; less of it remains once something is undecided or failed"""
    t = time.time()
    if t > S.deadline: return True
    c = struct.unpack('d', S.cut[:8])[0]
    return c != 0 and t > c


def report(kind, **kw):
    if kind in ('undec', 'fail') and struct.unpack('d', S.cut[:8])[0] == 0: S.cut[:8] = struct.pack('d', time.time() + AFTER)
    kw['k'] = kind
    os.write(S.out, (json.dumps(kw) + '\n').encode())


def check_sat(*extra):
    if over(): raise Undecided('time budget of the harness')
    t = time.time()
    r = S.solver.check(*extra)
    S.stime += time.time() - t
    S.queries += 1
    return r


def flush_stats():
    report('stat', t=round(S.stime, 4), q=S.queries, chk=S.n_chk, triv=S.n_triv, cov=S.covers, fns=sorted(S.used_fns), con=sorted(S.used_con), obl=S.obl, bnd=sorted(S.bounded | ({x[1] for x in S.pending.values()} if S.full else set())), uni=sorted(S.uniform), mod=sorted(S.used_mod))
    S.stime = 0.0
    S.queries = 0
    S.n_chk = 0
    S.n_triv = 0
    S.covers = []
    S.obl = {}


def assume(c):
    if c is True: return
    if c is False: raise Dead()
    S.solver.add(c)


def finish_child():
    """Wait for all children, then leave the process"""
    if S.have:
        os.write(S.sem[1], b'x')
        S.have = False
    for k in S.kids:
        try: os.waitpid(k, 0)
        except ChildProcessError: pass


class Pure:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.pc = []
        self.alts = []


def pure_eval(fn):
    """Value (a condition) of a side-effect free function, its paths merged"""
    outer = S.pure
    todo = [[]]
    res = []
    base = outer.pc if outer is not None else []
    try:
        while todo:
            S.pure = p = Pure(todo.pop())
            p.base = base
            try: r = fn()
            except Dead: continue
            todo.extend(p.alts)
            res.append((p.pc, r))
            if len(res) > 64: raise Undecided('too many paths of a predicate')
    finally: S.pure = outer
    if not res: raise Dead()
    if len(res) == 1: return res[0][1]
    if all(r is True for _, r in res): return True
    if all(r is False for _, r in res): return False
    fs = []
    for pc, r in res:
        if r is False: continue
        xs = pc if r is True else pc + [r]
        fs.append(z3.And(*xs) if xs else z3.BoolVal(True))
    return simp(z3.Or(*fs))


def pure_branch(c):
    p = S.pure
    if p.pos < len(p.prefix):
        v = p.prefix[p.pos]
    else:
        ctx = p.base + p.pc
        if check_sat(c, *ctx) == z3.unsat: v = False
        elif check_sat(z3.Not(c), *ctx) == z3.unsat: v = True
        else:
            p.alts.append(p.prefix + [False])
            v = True
        p.prefix = p.prefix + [v]
    p.pos += 1
    p.pc.append(c if v else z3.Not(c))
    return v


SITES = os.open(os.environ['VC_SITES'], os.O_APPEND | os.O_CREAT | os.O_WRONLY) if 'VC_SITES' in os.environ else 0


def split(n, why=None):
    """An n-way split of the path: returns the branch taken in this process"""
    if over(): raise Undecided('time budget of the harness')
    if S.pure is not None: raise Undecided('split within a predicate')
    S.paths += 1
    if SITES: os.write(SITES, ((why.sexpr().replace('\n', ' ')[:200] if why is not None else '%d-way' % n) + ' @ ' + ' < '.join(stack()[::-1][:9]) + '\n').encode())
    for i in range(n - 1):
        tok = False
        try:
            os.read(S.sem[0], 1)
            tok = True
        except BlockingIOError: pass
        pid = os.fork()
        if pid == 0:
            S.kids = []
            S.have = tok
            S.stime = 0.0
            S.queries = 0
            S.n_chk = 0
            S.n_triv = 0
            S.covers = []
            S.obl = {}
            S.trace = S.trace + [i]
            return i
        if tok:
            S.kids.append(pid)
            # reap what has finished
            if len(S.kids) > 64:
                S.kids = [k for k in S.kids if os.waitpid(k, os.WNOHANG)[0] == 0]
        else: os.waitpid(pid, 0)
    S.trace = S.trace + [n - 1]
    return n - 1


def is_true(c):
    return c is True or (c is not False and z3.is_true(c))


def simp(c):
    if c is True or c is False: return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return c


def branch(c):
    """Decide a condition, splitting the path if both outcomes are possible"""
    c = simp(c)
    if c is True or c is False: return c
    if S.pure is not None: return pure_branch(c)
    r1 = check_sat(c)
    if r1 == z3.unsat: return False
    r2 = check_sat(z3.Not(c))
    if r2 == z3.unsat:
        return True
    if z3.unknown in (r1, r2): S.unknown = True
    if split(2, c) == 0:
        S.solver.add(c)
        return True
    S.solver.add(z3.Not(c))
    return False


def switch(d, vals, w):
    """Index into vals (or len(vals)) of the value of d"""
    if S.pure is not None:
        for k, v in enumerate(vals):
            if branch((d == z3.BitVecVal(v, w)) if z3.is_bv(d) else (d == v)): return k
        return len(vals)
    opts = []
    for k, v in enumerate(vals):
        c = (d == z3.BitVecVal(v, w)) if z3.is_bv(d) else (d == v)
        c = simp(c)
        if c is True: return k
        if c is False: continue
        r = check_sat(c)
        if r == z3.unsat: continue
        opts.append((k, c))
    rest = [z3.Not(c) for _, c in opts]
    r = check_sat(*rest) if rest else z3.sat
    if r != z3.unsat: opts.append((len(vals), None))
    if not opts: raise Dead()
    k, c = opts[split(len(opts))] if len(opts) > 1 else opts[0]
    if c is not None: S.solver.add(c)
    else:
        for x in rest: S.solver.add(x)
    return k


def tokens_of(model):
    out = []
    for k, v in S.tokens:
        if k == 'const': out.append(str(v))
        elif k == 'int':
            if isinstance(v, int): out.append(str(v)); continue
            x = model.eval(v, model_completion=True)
            out.append(str(x.as_long() if not z3.is_bool(x) else int(z3.is_true(x))))
        elif k == 'sint':
            if isinstance(v, int): out.append(str(v)); continue
            out.append(str(model.eval(v, model_completion=True).as_signed_long()))
        elif k == 'bool':
            if isinstance(v, bool): out.append(str(int(v))); continue
            out.append('1' if z3.is_true(model.eval(v, model_completion=True)) else '0')
        elif k == 'fn': out.append(v(model))
    return out


def violated(what, extra):
    r = check_sat(*extra)
    if r == z3.unsat: return False
    if r == z3.sat and S.neq:
        ne = [simp(c) for c in S.strs.distinct()]
        if any(c is False for c in ne): return False
        extra = list(extra) + [c for c in ne if c is not True]
        r = check_sat(*extra)
        if r == z3.unsat: return False
    if r == z3.unknown:
        report('undec', what=what, why='solver: ' + S.solver.reason_unknown())
        return True
    try:
        m = S.solver.model()
        toks = tokens_of(m)
        txt = str(m)[:3000]
    except Exception as e:
        toks, txt = None, 'no model: %r' % (e,)
    if S.taint or getattr(S, 'unknown', False): report('undec', what=what, why='counterexample relies on an abstraction: %s' % (S.taint,), tokens=toks, model=txt)
    else: report('fail', what=what, tokens=toks, model=txt, leaves=S.leafs, stack=stack())
    return True


def stack():
    f = sys._getframe()
    out = []
    while f is not None:
        n = f.f_code.co_name
        if n[0] == 'F' and n[1:].isdigit(): out.append(S.prog.fns[int(n[1:])]['d'])
        f = f.f_back
    return out[:12]


def check(c, what):
    """A proof obligation; afterwards it is assumed"""
    if S.pure is not None:
        c = simp(c)
        if c is not True and (c is False or check_sat(z3.Not(c), *(S.pure.base + S.pure.pc)) != z3.unsat): raise Undecided('obligation within a predicate')
        return
    S.n_chk += 1
    S.obl[what] = S.obl.get(what, 0) + 1
    c = simp(c)
    if c is True:
        S.n_triv += 1
        return
    if c is False:
        violated(what, ())
        raise Dead()
    if violated(what, (z3.Not(c),)):
        if check_sat(c) == z3.unsat: raise Dead()
    S.solver.add(c)


def panic(msg):
    if S.pure is not None: raise Undecided('panic within a predicate')
    S.n_chk += 1
    violated('no panic: ' + msg, ())
    raise Dead()
