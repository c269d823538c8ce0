"""Runner: proves the harnesses of one property and reports JSON"""
import json, os, shutil, sys, time, traceback, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import core
from core import *
import codegen, rt, strs, leaf, models, textm, pieces, loops, uniform


def load(path):
    import gc
    gc.disable()
    P = codegen.Prog(path)
    G = P.G
    for mod in (core, rt):
        for k, v in vars(mod).items():
            if not k.startswith('__'): G[k] = v
    P.models = models.MODELS
    P.through = models.THROUGH
    P.mk_str = strs.lit
    P.native_adts = models.NATIVE_ADTS
    S.prog = P
    S.strs = strs
    S.hooks = getattr(models, 'Hooks', None)
    S.used_fns = set()
    S.used_con = set()
    S.used_mod = set()
    return P


def run_one(P, root, deadline, out_fd, sem):
    reset_state(deadline, out_fd, sem)
    S.have = True
    S.used_fns = set()
    S.used_con = set()
    S.used_mod = set()
    try:
        try: P.callf(root)
        except Dead: pass
        report('path', tr=S.trace) if os.environ.get('VC_TRACE') else None
    except Undecided as e:
        report('undec', why=str(e), what='', st=where(e))
    except RecursionError:
        report('undec', why='recursion', what='')
    except z3.Z3Exception as e:
        report('undec', why='z3: %s' % e, what='', st=where(e))
    except Exception as e:
        report('undec', why='engine: %r' % (e,), what='', tb=traceback.format_exc()[-1500:], st=where(e))
    except BaseException as e:
        report('undec', why='engine: %r' % (e,), what='')
    finally:
        try: flush_stats()
        finally:
            finish_child()
            os._exit(0)


def where(e):
    out = []
    tb = e.__traceback__
    while tb is not None:
        n = tb.tb_frame.f_code.co_name
        if n[0] == 'F' and n[1:].isdigit(): out.append(S.prog.fns[int(n[1:])]['d'])
        else: out.append(n)
        tb = tb.tb_next
    return out[-40:]


class Res:
    pass


def collect(name, path):
    r = Res()
    r.name = name
    r.fails, r.undec, r.covers, r.fns, r.con, r.bnd, r.uni, r.mod = [], [], set(), set(), set(), set(), set(), set()
    r.obl = {}
    r.chk = r.triv = r.q = r.paths = 0
    r.t = 0.0
    for l in open(path):
        try: d = json.loads(l)
        except ValueError: continue
        k = d['k']
        if k == 'fail': r.fails.append(d)
        elif k == 'undec': r.undec.append(d)
        elif k == 'stat':
            r.chk += d['chk']
            r.triv += d['triv']
            r.q += d['q']
            r.t += d['t']
            r.paths += 1
            r.covers |= set(d['cov'])
            r.fns |= set(d['fns'])
            r.con |= set(d['con'])
            r.bnd |= set(d['bnd'])
            r.uni |= set(d['uni'])
            r.mod |= set(d.get('mod', ()))
            for o, n in d['obl'].items(): r.obl[o] = r.obl.get(o, 0) + n
    return r


def run_all(P, roots, budget, nproc=8):
    """roots: list of (name, instance); budget: seconds per harness"""
    P.precompile([i for _, i in roots])
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    rfd, wfd = os.pipe()
    os.set_blocking(rfd, True)
    os.write(wfd, b'x' * nproc)
    tmp = tempfile.mkdtemp()
    pids = []
    res = {}
    t0 = time.time()
    total = float(os.environ.get('VC_TOTAL', '86400'))
    for name, root in roots:
        os.set_blocking(rfd, True)
        # wait for a free slot
        while True:
            try:
                os.set_blocking(rfd, True)
                os.read(rfd, 1)
                break
            except BlockingIOError: time.sleep(0.01)
        out = os.path.join(tmp, name.replace('::', '_'))
        S.lemmas = out + '.d'
        os.mkdir(S.lemmas)
        fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        import mmap
        S.cut = mmap.mmap(-1, 8)
        pid = os.fork()
        if pid == 0:
            # a description of its own, for non-blocking reads
            r2 = os.open('/proc/self/fd/%d' % rfd, os.O_RDONLY | os.O_NONBLOCK)
            run_one(P, root, min(time.time() + budget, t0 + total), fd, (r2, wfd))
        os.close(fd)
        pids.append((name, pid, out))
    for name, pid, out in pids:
        os.waitpid(pid, 0)
        res[name] = collect(name, out)
    os.close(rfd)
    os.close(wfd)
    shutil.rmtree(tmp)
    return res


def show(r, verbose=False):
    st = 'PROVED' if not r.fails and not r.undec and 'end' in r.covers else ('FAIL' if r.fails else ('UNDEC' if r.undec else 'VACUOUS'))
    print('%-34s %-7s paths %d obl %d (triv %d) queries %d %.1fs' % (r.name.split('::')[-1], st, r.paths, r.chk, r.triv, r.q, r.t), flush=True)
    seen = set()
    for u in r.undec:
        k = (u['why'], u.get('what'))
        if k in seen: continue
        seen.add(k)
        if len(seen) > 4: break
        print('     undec: %s | %s' % (u['why'][:300], u.get('what')))
        print('       at', ' <- '.join(reversed(u.get('st', [])[-int(__import__('os').environ.get('VC_ST','8')):])))
        if u.get('tb') and verbose: print(u['tb'])
    for u in r.fails[:3]:
        print('     FAIL: %s tokens=%s' % (u['what'], u['tokens']))
        print('       ', u['model'][:300].replace('\n', ' '))
        print('       ', u.get('stack'))


def proved(r): return not r.fails and not r.undec and 'end' in r.covers


def as_json(r):
    und, seen = [], set()
    for u in r.undec:
        k = (u['why'], u.get('what'))
        if k not in seen:
            seen.add(k)
            if len(und) < 20: und.append({'why': u['why'], 'what': u.get('what'), 'at': u.get('st', [])[-5:]})
    return {'proved': proved(r), 'fails': r.fails[:20], 'undec': und, 'fns': sorted(r.fns), 'con': sorted(r.con), 'mod': sorted(r.mod), 'bnd': sorted(r.bnd), 'uni': sorted(r.uni), 'obl': r.chk, 'labels': r.obl, 'paths': r.paths, 't': r.t, 'q': r.q, 'triv': r.triv, 'covers': sorted(r.covers)}


def main():
    args = sys.argv[1:]
    P = load(args.pop(0))
    out = None
    verbose = '-v' in args
    args = [a for a in args if a != '-v']
    if args and args[0] == '--json':
        out = args[1]
        args = args[2:]
    byname = {r.split('::')[-1]: (r, i) for r, i in P.roots.items()}
    if args and args[0] == '--names': roots = [byname[n] for n in args[1:] if n in byname]
    else: roots = [(r, i) for r, i in sorted(P.roots.items()) if any(p in r for p in args)]
    t0 = time.time()
    res = run_all(P, roots, float(os.environ.get('VC_BUDGET', '60')))
    if out:
        with open(out + '.new', 'w') as f: json.dump({n.split('::')[-1]: as_json(r) for n, r in res.items()}, f)
        os.rename(out + '.new', out)
    for r in res.values(): show(r, verbose)
    print('total %.1fs' % (time.time() - t0))


if __name__ == '__main__': main()
