"""Builds the MIR exporter and a standard library with MIR, and exports the MIR of the contracts and
of everything they reach in /repo, nom and std."""
import fcntl, hashlib, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, '.build')

REPLACE = {
    '<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter': 'vec_from_iter',
    '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend': 'vec_extend',
    '<std::sync::Arc<[T]> as std::iter::FromIterator<T>>::from_iter': 'arc_from_iter',
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::fold": 'slice_fold',
    '<std::vec::IntoIter<T, A> as std::iter::Iterator>::fold': 'into_iter_fold',
    '<std::collections::hash_map::IntoIter<K, V, A> as std::iter::Iterator>::fold': 'map_into_iter_fold',
    '<std::vec::Vec<T, A> as std::clone::Clone>::clone': 'vec_clone',
    '<std::sync::Arc<T, A> as std::cmp::PartialEq>::eq': 'arc_eq',
    '<std::sync::Arc<T, A> as std::cmp::PartialEq>::ne': 'arc_ne',
    'std::slice::<impl [T]>::to_vec': 'slice_to_vec',
    '<std::string::String as std::iter::FromIterator<char>>::from_iter': 'string_from_iter',
    '<std::string::String as std::iter::Extend<char>>::extend': 'string_extend',
    '<std::collections::HashMap<K, V, S> as std::iter::FromIterator<(K, V)>>::from_iter': 'map_from_iter',
    '<std::collections::HashMap<K, V, S, A> as std::iter::Extend<(K, V)>>::extend': 'map_extend',
    '<std::collections::HashMap<K, V, S, A> as std::cmp::PartialEq>::eq': 'map_eq',
    '<std::collections::VecDeque<T> as std::iter::FromIterator<T>>::from_iter': 'deque_from_iter',
    '<std::collections::VecDeque<T, A> as std::iter::Extend<T>>::extend': 'deque_extend',
    'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq': 'slice_eq',
}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode: raise RuntimeError('%s failed: %s' % (cmd[0], r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).strip()


def newer(out, *ins):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(i) for i in ins)


def prepare():
    """Exporter and standard library: independent of /repo"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'dump.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = os.path.join(BUILD, 'driver')
        src = os.path.join(VERIF, 'driver', 'driver.rs')
        ps = None
        ms = os.path.join(BUILD, 'ms')
        if not os.path.exists(os.path.join(ms, '.done')):
            env = dict(os.environ, MIRI_SYSROOT=ms)
            for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR'): env.pop(k, None)
            ps = subprocess.Popen(['cargo', '+nightly', 'miri', 'setup', '--target', 'x86_64-unknown-linux-gnu'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/')
        if not newer(drv, src):
            sh(['rustc', '+nightly', '-O', '-A', 'warnings', src, '-o', drv + '.new'], cwd=os.path.join(VERIF, 'driver'))
            os.rename(drv + '.new', drv)
        if ps is not None:
            o = ps.communicate()[0]
            if ps.returncode: raise RuntimeError('no standard library: ' + o.decode(errors='replace')[-2000:])
            open(os.path.join(ms, '.done'), 'w').close()


def stops(path):
    import models, textm, pieces, loops
    with open(path + '.new', 'w') as f:
        for k in models.MODELS:
            if k not in REPLACE and k not in models.THROUGH: f.write(k + '\n')
        for k, v in REPLACE.items(): f.write('%s => contracts::models::%s\n' % (k, v))
    os.rename(path + '.new', path)


def dump(out, contracts=None):
    """contracts: directory of the contracts crate (its copy without lost harnesses)"""
    out = os.path.abspath(out)
    prepare()
    contracts = contracts or os.path.join(VERIF, 'contracts')
    with open(os.path.join(BUILD, 'dump.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        st = os.path.join(BUILD, 'stops.txt')
        stops(st)
        env = dict(os.environ, VC_STOPS=st, VC_OUT=out, RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, 'driver'), LD_LIBRARY_PATH=sysroot() + '/lib', CARGO_TARGET_DIR=os.path.join(BUILD, 'mir'),
                   RUSTFLAGS='--sysroot %s --cfg firrtl_verif -A warnings -Zalways-encode-mir -Zinline-mir=no -Zmir-opt-level=1' % os.path.join(BUILD, 'ms'))
        if os.path.exists(out): os.unlink(out)
        os.utime(os.path.join(contracts, 'src', 'lib.rs'))
        o = sh(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--target', 'x86_64-unknown-linux-gnu'], cwd=contracts, env=env)
        if not os.path.exists(out): raise RuntimeError('no MIR exported: ' + o[-2000:])


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    if sys.argv[1] == '--prepare': prepare()
    else: dump(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
