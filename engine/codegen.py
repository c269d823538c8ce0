"""MIR (JSON of the driver) to Python, function by function, compiled on the first call"""
import json, mmap, os, sys, tempfile
import z3
from core import *

sys.setrecursionlimit(20000)


def split_file(path):
    """The program without the bodies, and the bodies; read by another process, to keep this one
    (which forks at every split) small.  The file has functions one per line if the driver wrote it so."""
    import marshal
    fd, side = tempfile.mkstemp()
    fd2, sk = tempfile.mkstemp()
    pid = os.fork()
    if pid == 0:
        try:
            d = json.load(open(path))
            i_ = sys.intern
            with os.fdopen(fd, 'wb') as w:
                for f in d['fns']:
                    b = f.pop('b')
                    o = w.tell()
                    if b: w.write(json.dumps([b, f['l']], separators=(',', ':')).encode())
                    f['b'] = (o, w.tell()) if b else None
                    f['calls'] = tuple(x[1][1][1] for x in b or () if x[1][0] == 'call' and x[1][1][0] == 'd')
                    r = []
                    for stmts, t, _ in b or ():
                        if t[0] == 'drop': r.append(t[2])
                        for s in stmts:
                            if s[0] == '=' and s[2][0] == 'cast' and s[2][1] in ('reify', 'closurefn') and len(s[2]) > 5 and s[2][5] is not None: r.append(s[2][5])
                    f['refs'] = tuple(r)
                    for k in ('l', 'mang'): f.pop(k, None)
                    for k in ('d', 'k', 'f'):
                        if isinstance(f.get(k), str): f[k] = i_(f[k])
                    if 'n' in f: f['n'] = f['n'][:160] if f['n'] != f['d'] else f['d']
            for t in d['types']:
                for k in ('k', 'd', 'kind'):
                    if isinstance(t.get(k), str): t[k] = i_(t[k])
                if isinstance(t.get('n'), str):
                    if t['k'] == 'adt': t['n'] = i_(t['n'])
                    else: t['n'] = t['n'][:80]
            with os.fdopen(fd2, 'wb') as w: marshal.dump(d, w)
            os._exit(0)
        except BaseException as e:
            os.write(2, ('%r\n' % (e,)).encode())
            os._exit(1)
    os.close(fd)
    os.close(fd2)
    try:
        if os.waitpid(pid, 0)[1]: raise RuntimeError('cannot read the exported program')
        with open(sk, 'rb') as f: d = marshal.load(f)
        with open(side, 'rb') as f: m = mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ)
    finally:
        os.unlink(sk)
        os.unlink(side)
    return d, m


class Prog:
    def __init__(self, path):
        d, self.side = split_file(path)
        self.fns = d['fns']
        self.types = d['types']
        self.roots = d['roots']
        self.virt = {}
        for v, t, i in d['virt']: self.virt[(v, t)] = i
        self.byname = {}
        self.G = {}          # globals of the generated code
        self.models = {}
        self.consts = {}
        self.zst_cache = {}
        self.done = set()
        self.through = set()

    # ------------------------------------------------------------ types
    def ty(self, i): return self.types[i]

    def is_str(self, i): return self.types[i]['k'] == 'str'

    def zst(self, i):
        """The value of a zero-sized type"""
        t = self.types[i]
        k = t['k']
        if k == 'tuple': return A(0, tuple(self.zst(x) for x in t['es']))
        if k == 'closure': return A(0, tuple(self.zst(x) for x in t['es']))
        if k == 'fndef': return FnV(t['i'])
        if k == 'array': return tuple(self.zst(t['e']) for _ in range(t['n']))
        if k == 'adt':
            if t['kind'] == 'struct' or len(t['v']) == 1: return A(0, tuple(self.zst(x[1]) for x in t['v'][0]['f']))
            return A(0, ())
        return UNIT

    def const(self, ty, c):
        t = self.types[ty]
        k = c[0]
        if k == 'z': return self.zst(ty)
        if k == 'i':
            n = int(c[1])
            return self.int_const(ty, n)
        if k == 'str': return self.mk_str(c[1])
        if k == 'sl': return self.ptr_const(ty, c)
        if k == 'r':
            e = t['e'] if 'e' in t else None
            v = self.const_v(e, c[1])
            if e is not None and self.types[e]['k'] == 'str': return v
            m = None
            if e is not None and self.types[e]['k'] == 'slice': m = (0, len(v))
            return Ptr(Cell(v), (), m)
        return self.const_v(ty, c)

    def const_v(self, ty, c):
        t = self.types[ty]
        k = c[0]
        if k == 'z': return self.zst(ty)
        if k == 'i': return self.int_const(ty, int(c[1]))
        if k == 'str': return self.mk_str(c[1])
        if k == 'r': return self.const(ty, c)
        if k == 'sl' or (k == 'a' and t['k'] in ('slice', 'array')):
            es = c[1] if k == 'sl' else c[2]
            return tuple(self.const(t['e'], x) for x in es)
        if k == 'a':
            v = c[1]
            if t['k'] == 'tuple': return A(0, tuple(self.const(x, y) for x, y in zip(t['es'], c[2])))
            if t['k'] == 'closure': return A(0, tuple(self.const(x, y) for x, y in zip(t['es'], c[2])))
            fs = t['v'][v]['f']
            return A(v, tuple(self.const(f[1], y) for f, y in zip(fs, c[2])))
        if k == 'fn': return FnV(c[1])
        if k == 'u': return UNDEF
        if k == 'static': return Ptr(self.static(c[1]))
        raise Undecided('constant %r' % (c,))

    def ptr_const(self, ty, c):
        t = self.types[ty]
        e = self.types[t['e']]
        v = tuple(self.const(e['e'], x) for x in c[1])
        return Ptr(Cell(v), (), (0, len(v)) if e['k'] == 'slice' else None)

    def static(self, name):
        raise Undecided('static ' + name)

    def int_const(self, ty, n):
        t = self.types[ty]
        k = t['k']
        if k == 'bool': return bool(n)
        if k == 'int' and t['s']:
            w = t['w']
            if n >= 1 << (w - 1): n -= 1 << w
            return n
        if k == 'float': return Ext('f64', n)
        if k in ('ptr', 'ref'): return Ext('addr', n)
        if k == 'adt':
            # a scalar newtype or field-less enum
            if t['kind'] == 'enum':
                for i, v in enumerate(t['v']):
                    if int(v['d']) == n: return A(i, ())
            fs = t['v'][0]['f']
            return A(0, tuple(self.int_const(f[1], n) if self.types[f[1]]['k'] in ('int', 'bool', 'char', 'adt') else self.zst(f[1]) for f in fs))
        return n

    def wid(self, ty):
        t = self.types[ty]
        k = t['k']
        if k == 'int': return t['w'], t['s']
        if k == 'char': return 32, False
        if k == 'bool': return 1, False
        return 64, False

    # ------------------------------------------------------------ compilation
    def fn(self, i):
        """Name of the Python function of instance `i`"""
        n = 'F%d' % i
        if n not in self.G: self.stub(i, n)
        return n

    def stub(self, i, n):
        G = self.G

        def s(*a):
            if G[n] is s: G[n] = self.build(i)
            return G[n](*a)
        G[n] = s

    def build(self, i):
        f = self.fns[i]
        m = self.find_model(f)
        if m is not None:
            S.used_mod.add(f['d'])
            g = m(self, i, f)
            if g is not None: return g
        return self.body(i)

    def find_model(self, f):
        return self.models.get(f['d'])

    def body(self, i):
        f = self.fns[i]
        if not f['b']:
            c = self.constructor(f)
            if c is not None: return c
            raise Undecided('no body: %s' % f['n'])
        return self.compile(i)

    def constructor(self, f):
        if f['k'] != 'item' or not f['sig']: return None
        t = self.types[f['sig'][-1]]
        if t['k'] != 'adt': return None
        n = f['d'].split('::')[-1]
        for k, v in enumerate(t['v']):
            if v['n'] == n and len(v['f']) == len(f['sig']) - 1 and f['d'].startswith(t['d'].split('<')[0]): return lambda *a: A(k, a)
        return None

    def predicate(self, f):
        """A function of this crate from a character to a truth value"""
        g = f['sig']
        return bool(g) and 'firrtl_ast' in f['d'] and len(g) == 2 and self.types[g[0]]['k'] == 'char' and self.types[g[1]]['k'] == 'bool'

    def compile(self, i):
        f = self.fns[i]
        src = Gen(self, i).source()
        ns = {}
        code = compile(src, f['d'], 'exec')
        exec(code, self.G, ns)
        g = ns['F%d' % i]
        if S.used_fns is not None: pass
        d = f['d']
        if self.predicate(f):
            body = g

            def g(c):
                # its paths are merged
                if c.__class__ is int: return body(c)
                return pure_eval(lambda: body(c))

        def first(*a):
            S.used_fns.add(d)
            return g(*a)
        if d.startswith('firrtl_ast') or d.startswith('<firrtl_ast') or 'firrtl_ast' in d: return first
        return g

    def precompile(self, roots):
        """Compile what is reachable from the roots before the process forks"""
        seen = set()
        todo = list(roots)
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            f = self.fns[i]
            n = 'F%d' % i
            if n in self.done or (self.find_model(f) is not None and f['d'] not in self.through): continue
            todo.extend(f['calls'])
            todo.extend(f['refs'])
            if self.find_model(f) is None or f['d'] in self.through:
                try: self.G[n] = self.build(i)
                except Undecided: pass
            self.done.add(n)
        return len(seen)

    def calls(self, i):
        """Instances called by instance `i`"""
        return list(self.fns[i]['calls'])

    def callf(self, i, *a):
        return self.G[self.fn(i)](*a)


def place_has_deref(p):
    return any(x[0] == '*' for x in p[1])


PROJ = {'*', 'f', 'd', 'i', 'c', 's', 'oc'}


def mentions(x):
    """Locals mentioned in a part of a body"""
    out = set()
    todo = [x]
    while todo:
        x = todo.pop()
        if not isinstance(x, list): continue
        if len(x) == 2 and x[0].__class__ is int and x[1].__class__ is list and all(p.__class__ is list and p and p[0] in PROJ for p in x[1]):
            out.add(x[0])
            for p in x[1]:
                if p[0] == 'i': out.add(p[1])
        else: todo.extend(x)
    return out


class Gen:
    def __init__(self, P, i):
        self.P = P
        self.i = i
        self.f = dict(P.fns[i])
        o, e = self.f['b']
        self.blocks, self.f['l'] = json.loads(P.side[o:e])
        self.celled = set()
        for stmts, term, _ in self.blocks:
            for s in stmts:
                if s[0] == '=' and s[2][0] == 'ref' and not place_has_deref(s[2][1]): self.celled.add(s[2][1][0])
            if term[0] == 'drop' and not place_has_deref(term[1]): self.celled.add(term[1][0])
        self.out = []

    # ---- types of places
    def elem_ty(self, ty, p):
        T = self.P.types
        t = T[ty]
        if p[0] == '*': return t.get('e', None) if t['k'] in ('ref', 'ptr') else None
        if p[0] == 'f': return p[2]
        if p[0] in ('i', 'c'): return t.get('e')
        return ty

    def place_ty(self, pl):
        ty = self.f['l'][pl[0]]
        for p in pl[1]:
            if ty is None: return None
            ty = self.elem_ty(ty, p)
        return ty

    # ---- expressions
    def local(self, n): return 'l%d.x' % n if n in self.celled else 'l%d' % n

    def read(self, pl):
        e = self.local(pl[0])
        prev = None
        for k, p in enumerate(pl[1]):
            c = p[0]
            if c == '*': e += '.get()'
            elif c == 'f': e += '.f[%d]' % p[1]
            elif c == 'd': pass
            elif c == 'i':
                if prev == '*': e = e[:-6] + '.at(cint(%s)).get()' % self.local(p[1])
                else: e = 'index(%s,%s)' % (e, self.local(p[1]))
            elif c == 'c':
                off, mn, end = p[1], p[2], p[3]
                if prev == '*':
                    b = e[:-6]
                    e = '%s.at(%s).get()' % (b, ('lenof(%s)-%d' % (b, off)) if end else str(off))
                else: e = '%s[%s]' % (e, ('-%d' % off) if end else str(off))
            elif c == 's':
                fr, to, end = p[1], p[2], p[3]
                if prev == '*':
                    b = e[:-6]
                    e = 'subslice(%s,%d,%d,%s).getslice()' % (b, fr, to, end)
                else: e = '%s[%d:%s]' % (e, fr, ('len-%d' % to) if end else to)
            elif c == 'oc': pass
            else: e = 'bad_place()'
            prev = c
        return e

    def addr(self, pl):
        """Expression for a Ptr to the place"""
        projs = pl[1]
        last = max([k for k, p in enumerate(projs) if p[0] == '*'], default=-1)
        if last >= 0:
            base = self.read([pl[0], projs[:last]])
            rest = projs[last + 1:]
        else:
            base = None
            rest = projs
        path = []
        e = base
        first = True
        for p in rest:
            c = p[0]
            if c == 'f': path.append(str(p[1]))
            elif c in ('d', 'oc'): continue
            elif c in ('i', 'c', 's'):
                if e is None:
                    e = 'Ptr(l%d,(%s))' % (pl[0], ''.join(x + ',' for x in path))
                elif path: e = '%s.sub((%s))' % (e, ''.join(x + ',' for x in path))
                path = []
                if c == 'i': e = 'at(%s,%s)' % (e, self.local(p[1]))
                elif c == 'c': e = '%s.at(%s)' % (e, ('lenof(%s)-%d' % (e, p[1])) if p[3] else p[1])
                else: e = 'subslice(%s,%d,%d,%s)' % (e, p[1], p[2], p[3])
            else: return 'bad_place()'
            first = False
        if e is None: return 'Ptr(l%d%s)' % (pl[0], (',(%s)' % ''.join(x + ',' for x in path)) if path else '')
        if path: return '%s.sub((%s))' % (e, ''.join(x + ',' for x in path))
        return e

    def operand(self, o):
        c = o[0]
        if c in ('c', 'm'): return self.read(o[1])
        if c == 'rc': return repr(bool(o[1]))
        ty, k = o[1]
        return self.constant(ty, k)

    def constant(self, ty, k):
        P = self.P
        t = P.types[ty]
        if k[0] == 'i' and t['k'] in ('int', 'bool', 'char'): return '(%r)' % (P.int_const(ty, int(k[1])),)
        if k[0] == 'z' and t['k'] == 'tuple' and not t['es']: return 'UNIT'
        key = (ty, repr(k))
        n = P.consts.get(key)
        if n is None:
            n = 'K%d' % len(P.consts)
            P.consts[key] = n
            try: P.G[n] = P.const(ty, k)
            except Undecided as e:
                msg = str(e)
                P.consts[key] = 'undecided(%r)' % msg
                return 'undecided(%r)' % msg
        return n

    def op_ty(self, o):
        if o[0] in ('c', 'm'): return self.place_ty(o[1])
        if o[0] == 'k': return o[1][0]
        return None

    def rvalue(self, r, dest_ty):
        c = r[0]
        P = self.P
        if c == 'use': return self.operand(r[1])
        if c == 'ref': return self.addr(r[1])
        if c == 'agg':
            kind, ty, var, ops = r[1], r[2], r[3], [self.operand(o) for o in r[4]]
            if kind == 'array': return '(%s)' % ''.join(o + ',' for o in ops)
            if kind in ('tuple', 'closure', 'adt'): return 'A(%d,(%s))' % (var or 0, ''.join(o + ',' for o in ops)) if ops or var else 'A(0,())'
            if kind == 'union': return 'A(0,(%s,))' % ops[0]
            if kind == 'rawptr': return 'rawptr(%s)' % ','.join(ops)
            return 'undecided("aggregate %s")' % kind
        if c == 'bin':
            w, s = P.wid(r[4]) if r[4] is not None else (64, False)
            k = P.types[r[4]]['k'] if r[4] is not None else None
            if k in ('ptr', 'ref', 'fnptr', 'adt'): return 'ptr_bin(%r,%s,%s)' % (r[1], self.operand(r[2]), self.operand(r[3]))
            if k == 'float': return 'f_bin(%r,%s,%s)' % (r[1], self.operand(r[2]), self.operand(r[3]))
            if k == 'bool': return 'b_%s(%s,%s)' % (r[1], self.operand(r[2]), self.operand(r[3]))
            if r[1] in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
                w2, s2 = P.wid(self.op_ty(r[3])) if self.op_ty(r[3]) is not None else (32, False)
                return 'i_%s(%s,%s,%d,%s,%d)' % (r[1], self.operand(r[2]), self.operand(r[3]), w, s, w2)
            return 'i_%s(%s,%s,%d,%s)' % (r[1], self.operand(r[2]), self.operand(r[3]), w, s)
        if c == 'cbin':
            w, s = P.wid(r[4])
            return 'c_%s(%s,%s,%d,%s)' % (r[1], self.operand(r[2]), self.operand(r[3]), w, s)
        if c == 'un':
            w, s = P.wid(r[3]) if r[3] is not None else (64, False)
            k = P.types[r[3]]['k'] if r[3] is not None else None
            if r[1] == 'PtrMetadata': return 'ptrmeta(%s)' % self.operand(r[2])
            if k == 'bool': return 'b_Not(%s)' % self.operand(r[2])
            if k == 'float': return 'f_un(%r,%s)' % (r[1], self.operand(r[2]))
            return 'u_%s(%s,%d,%s)' % (r[1], self.operand(r[2]), w, s)
        if c == 'disc':
            pt = r[3]
            e = self.read(r[1])
            t = P.types[pt]
            if t['k'] == 'adt' and t['kind'] == 'enum':
                ds = [P.int_const(r[2], int(v['d']) % (1 << P.wid(r[2])[0])) for v in t['v']]
                if ds == list(range(len(ds))): return 'disc(%s)' % e
                return '(%s)[%s.v]' % (''.join('%d,' % d for d in ds), e)
            return 'undecided("discriminant")'
        if c == 'len':
            pl = r[1]
            if pl[1] and pl[1][-1][0] == '*': return 'lenof(%s)' % self.read([pl[0], pl[1][:-1]])
            return 'len(%s)' % self.read(pl)
        if c == 'rep': return '(%s,)*%s' % (self.operand(r[1]), r[2])
        if c == 'cast':
            kind, op, fr, to, ex = r[1], self.operand(r[2]), r[3], r[4], r[5] if len(r) > 5 else None
            if kind in ('reify', 'closurefn'):
                return 'FnV(%s)' % ex if ex is not None else 'undecided("fn pointer")'
            if kind == 'unsize':
                return self.unsize(op, fr, to)
            if kind == 'IntToInt':
                w1, s1 = P.wid(fr)
                w2, s2 = P.wid(to)
                fk = P.types[fr]['k']
                if fk == 'bool': return 'b2i(%s,%d)' % (op, w2)
                if fk == 'adt': return 'enum2i(%s,%d,%r)' % (op, fr, to)
                if P.types[to]['k'] == 'char' : s2 = False
                return 'i2i(%s,%d,%s,%d,%s)' % (op, w1, s1, w2, s2)
            if kind in ('PtrToPtr',): return 'ptr2ptr(%s,%d,%d)' % (op, fr, to)
            if kind in ('Transmute', 'BoxDerefTransmute'): return 'transmute(%s,%d,%d)' % (op, fr, to)
            if kind == 'Subtype': return op
            if kind in ('IntToFloat', 'FloatToInt', 'FloatToFloat'): return 'fcast(%r,%s,%d,%d)' % (kind, op, fr, to)
            return 'undecided("cast %s")' % kind
        if c == 'copy': return self.operand(r[1])
        return 'undecided("rvalue %s")' % c

    def unsize(self, op, fr, to):
        P = self.P

        def pointee(t):
            t = P.types[t]
            if t['k'] in ('ref', 'ptr'): return t['e']
            if t['k'] == 'adt':
                if t['d'] in ('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc'): return t['a'][0]
                for f in t['v'][0]['f']:
                    x = pointee(f[1])
                    if x is not None: return x
            return None
        a, b = pointee(fr), pointee(to)
        if a is None or b is None: return 'undecided("unsize")'
        ta, tb = P.types[a], P.types[b]
        if tb['k'] == 'slice': return 'unsize_slice(%s,%d)' % (op, ta['n'])
        if tb['k'] == 'dyn':
            if ta['k'] == 'dyn': return op
            return 'unsize_dyn(%s,%d)' % (op, a)
        return 'undecided("unsize to %s")' % tb['k']

    def assign(self, pl, e):
        n, projs = pl
        if not projs: return '%s=%s' % (self.local(n), e)
        if any(p[0] in ('*', 'i', 'c') for p in projs): return '%s.set(%s)' % (self.addr(pl), e)
        path = ''.join('%d,' % p[1] for p in projs if p[0] == 'f')
        return '%s=upd(%s,(%s),%s)' % (self.local(n), self.local(n), path, e)

    # ---- control flow
    def source(self):
        f = self.f
        nb = len(self.blocks)
        succ = []
        for stmts, t, _ in self.blocks:
            c = t[0]
            if c == 'goto': s = [t[1]]
            elif c == 'sw': s = [x[1] for x in t[2]] + [t[3]]
            elif c == 'drop': s = [t[3]]
            elif c == 'call': s = [t[4]] if t[4] is not None else []
            elif c == 'assert': s = [t[4]]
            else: s = []
            succ.append([x for x in s if x is not None])
        pred = [0] * nb
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for x in succ[b]:
                pred[x] += 1
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        self.heads = {0} | {b for b in seen if pred[b] > 1}
        # trivial heads (a few statements and a return) are inlined rather than dispatched to
        self.triv = {b for b in self.heads if b != 0 and self.blocks[b][1][0] in ('ret', 'unr', 'resume') and len(self.blocks[b][0]) <= 2}
        self.heads -= self.triv
        self.need = []
        ac = f['ac']
        args = ['a%d' % k if (k in self.celled) else 'l%d' % k for k in range(1, ac + 1)]
        L = ['def F%d(%s):' % (self.i, ','.join(args))]
        self.loops(succ)
        if f['d'].startswith(('firrtl_ast::', '<firrtl_ast::', 'nom::')):
            k = self.constants()
            if k: L.append(' bound("a size compared to %d in %s")' % (k, f['d'].replace('"', '')))
        if self.lheads: L.append(' lh={}')
        for k in sorted(self.celled):
            if 1 <= k <= ac: L.append(' l%d=Cell(a%d)' % (k, k))
            else: L.append(' l%d=Cell()' % k)
        # locals which are only partially assigned
        init = set()
        for stmts, t, _ in self.blocks:
            for s in stmts:
                if s[0] == '=' and s[1][1] and s[1][0] not in self.celled and not (1 <= s[1][0] <= ac): init.add(s[1][0])
            if t[0] == 'call' and t[3][1] and t[3][0] not in self.celled and not (1 <= t[3][0] <= ac): init.add(t[3][0])
        for k in sorted(init): L.append(' l%d=UNDEF' % k)
        zs = [k for k in range(len(f['l'])) if k not in self.celled and k not in init and not (1 <= k <= ac) and self.zero(f['l'][k])]
        for k in zs: L.append(' l%d=%s' % (k, self.zname(f['l'][k])))
        self.L = L
        self.heads_done = set()
        self.todo = [0]
        multi = len(self.heads) > 1 or any(0 in s for k, s in enumerate(succ) if k in seen)
        if not multi:
            self.cur_multi = False
            self.emit(0, 1)
        else:
            self.cur_multi = True
            L.append(' b=0')
            L.append(' while True:')
            queue = [0]
            bodies = {}
            done = []
            self.queue = queue
            while queue:
                h = queue.pop(0)
                if h in bodies: continue
                self.L = []
                if h in self.lheads: self.L.append('   if S.full: loop_head(lh,%d,%d,(%s),%r)' % ((h, self.i) + self.lheads[h]))
                self.emit(h, 3)
                bodies[h] = self.L
                done.append(h)
            self.L = L
            for k, h in enumerate(done):
                L.append('  %s b==%d:' % ('if' if k == 0 else 'elif', h))
                L.extend(bodies[h])
        return '\n'.join(L) + '\n'

    def constants(self):
        """Sizes compared to constants lists of up to two elements do not reach"""
        T = self.P.types

        def big(o, ty):
            if T[ty]['k'] != 'int' or T[ty].get('w') != 64 or T[ty].get('s'): return None
            if o.__class__ is list: o = int(o[1][1][1]) if o[0] not in ('c', 'm', 'rc') and o[1][1][0] == 'i' else 0
            return o if 2 <= o <= 4096 else None
        for stmts, t, line in self.blocks:
            for s in stmts:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and s[2][4] is not None:
                    for o in s[2][2:4]:
                        k = big(o, s[2][4])
                        if k and not (s[2][1] == 'Ne' and k % 8 == 0): return k
            if t[0] == 'sw':
                for x in t[2]:
                    k = big(int(x[0]), t[4])
                    if k: return k

    def loops(self, succ):
        """Heads of loops: the live locals, and the heads of loops within"""
        self.lheads = {}
        d = self.f['d']
        if d.startswith('contracts::') and not d.startswith('contracts::models::'): return
        n = len(succ)
        state = [0] * n
        back = []
        st = [(0, iter(succ[0]))]
        state[0] = 1
        while st:
            b, it = st[-1]
            for x in it:
                if state[x] == 0:
                    state[x] = 1
                    st.append((x, iter(succ[x])))
                    break
                if state[x] == 1: back.append((b, x))
            else:
                state[b] = 2
                st.pop()
        if not back: return
        pred = [[] for _ in range(n)]
        for b in range(n):
            if state[b]:
                for x in succ[b]: pred[x].append(b)
        body = {}
        for b, h in back:
            s = body.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x in s: continue
                s.add(x)
                todo.extend(pred[x])
        # liveness
        use, kill = [set() for _ in range(n)], [set() for _ in range(n)]

        def uses(b, x):
            for l in mentions(x):
                if l not in kill[b]: use[b].add(l)
        for b, (stmts, t, _) in enumerate(self.blocks):
            for s in stmts:
                if s[0] == '=':
                    uses(b, s[2])
                    if s[1][1]: uses(b, s[1])
                    else: kill[b].add(s[1][0])
                else: uses(b, s[1:])
            if t[0] == 'call':
                uses(b, t[1])
                uses(b, t[2])
                if t[3][1]: uses(b, t[3])
                else: kill[b].add(t[3][0])
            elif t[0] == 'ret': uses(b, [[0, []]])
            elif t[0] in ('sw', 'drop', 'assert'): uses(b, t[1])
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for x in succ[b]: o |= live[x]
                o = use[b] | (o - kill[b])
                if o != live[b]:
                    live[b] = o
                    ch = True
        for h, s in body.items():
            # only what the loop changes can differ
            names = tuple('l%d' % l for l in sorted(live[h]))
            self.lheads[h] = (''.join("('%s',%s)," % (x, x) for x in names), tuple(k for k in body if k != h and k in s))

    def zero(self, ty):
        t = self.P.types[ty]
        if t['k'] == 'tuple': return all(self.zero(x) for x in t['es'])
        if t['k'] == 'closure': return all(self.zero(x) for x in t['es'])
        if t['k'] == 'fndef': return True
        if t['k'] == 'adt' and t['kind'] == 'struct': return t['d'] not in self.P.native_adts and all(self.zero(x[1]) for x in t['v'][0]['f'])
        return False

    def zname(self, ty):
        n = 'Z%d' % ty
        if n not in self.P.G: self.P.G[n] = self.P.zst(ty)
        return n

    def goto(self, b, ind, depth):
        if b in self.triv: return self.emit(b, ind, depth, True)
        if b in self.heads or depth > 70:
            if b not in self.heads: self.heads.add(b)
            if not self.cur_multi: raise Undecided('control flow')
            self.queue.append(b)
            self.L.append(' ' * ind + 'b=%d' % b)
            self.L.append(' ' * ind + 'continue')
            return
        self.emit(b, ind, depth, True)

    def emit(self, b, ind, depth=0, inner=False):
        I = ' ' * ind
        L = self.L
        while True:
            stmts, t, line = self.blocks[b]
            for s in stmts:
                c = s[0]
                if c == '=':
                    dt = None
                    L.append(I + self.assign(s[1], self.rvalue(s[2], dt)))
                elif c == 'sd':
                    L.append(I + self.assign(s[1], 'A(%d,%s.f)' % (s[2], self.read(s[1]))))
                elif c == 'copy': L.append(I + 'undecided("copy_nonoverlapping")')
                else: L.append(I + 'undecided("statement %s")' % c)
            c = t[0]
            nxt = None
            if c == 'goto': nxt = t[1]
            elif c == 'ret':
                L.append(I + 'return ' + self.local(0))
                return
            elif c == 'unr':
                L.append(I + 'unreachable()')
                return
            elif c == 'resume':
                L.append(I + 'raise Dead()')
                return
            elif c == 'drop':
                L.append(I + '%s(%s)' % (self.P.fn(t[2]), self.addr(t[1])))
                nxt = t[3]
            elif c == 'assert':
                L.append(I + 'assert_(%s,%r,%r)' % (self.operand(t[1]), bool(t[2]), t[3]))
                nxt = t[4]
            elif c == 'call':
                e = self.call(t)
                if t[4] is None:
                    L.append(I + e)
                    L.append(I + 'raise Dead()')
                    return
                L.append(I + self.assign(t[3], e))
                nxt = t[4]
            elif c == 'sw':
                ty = t[4]
                k = self.P.types[ty]['k']
                o = self.operand(t[1])
                if k == 'bool' and len(t[2]) == 1:
                    v = int(t[2][0][0])
                    L.append(I + 't=' + o)
                    L.append(I + 'if t is True or (t is not False and branch(t)):')
                    a, z = (t[2][0][1], t[3]) if v else (t[3], t[2][0][1])
                    self.goto(a, ind + 1, depth + 1)
                    L.append(I + 'else:')
                    self.goto(z, ind + 1, depth + 1)
                    return
                vals = [self.P.int_const(ty, int(x[0])) for x in t[2]]
                vals = [int(v) for v in vals]
                w, s = self.P.wid(ty)
                L.append(I + 't=' + o)
                L.append(I + 'if t.__class__ is not int: t=swval(t,(%s),%d)' % (''.join('%d,' % v for v in vals), w))
                oth = t[3]
                oth_unr = self.blocks[oth][1][0] == 'unr' and not self.blocks[oth][0]
                n = len(vals)
                for q, v in enumerate(vals):
                    L.append(I + '%s t==%d:' % ('if' if q == 0 else 'elif', v))
                    self.goto(t[2][q][1], ind + 1, depth + 1)
                L.append(I + 'else:')
                self.goto(oth, ind + 1, depth + 1)
                return
            else:
                L.append(I + 'undecided("terminator %s")' % c)
                return
            if nxt in self.heads or nxt in self.triv:
                self.goto(nxt, ind, depth)
                return
            b = nxt

    def call(self, t):
        P = self.P
        fk, ops = t[1], [self.operand(o) for o in t[2]]
        if fk[0] == 'd':
            g = P.fns[fk[1]]
            if g['k'] == 'virtual':
                return 'vcall(%d,%s)' % (fk[1], ','.join(ops))
            n = P.fn(fk[1])
            if g['d'].split('::')[-1].startswith('{closure#') and not g['sp'] and g['k'] != 'shim' and len(ops) == 2:
                return '%s(%s,*%s.f)' % (n, ops[0], ops[1])
            return '%s(%s)' % (n, ','.join(ops))
        if fk[0] == 'p': return 'pcall(%s%s)' % (self.operand(fk[1]), ''.join(',' + o for o in ops))
        return 'undecided("call of %s")' % fk[1]
