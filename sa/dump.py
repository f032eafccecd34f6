"""Build the MIR extraction driver if needed, run it over /repo's current source, load the result."""
import os
import shutil
import subprocess
import sys
import tempfile
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CARRON_REPO', '/repo')
DRIVER = os.path.join(VERIF, 'driver')
BIN = os.path.join(DRIVER, 'target', 'debug', 'mirdump')
_cache = {}


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def build_driver():
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= os.path.getmtime(os.path.join(DRIVER, 'src', 'main.rs')):
        return
    os.makedirs(os.path.join(DRIVER, 'target'), exist_ok=True)
    with open(os.path.join(DRIVER, 'target', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--locked'], cwd=DRIVER, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('driver build failed:\n' + r.stderr[-3000:])
        os.utime(BIN)


def extract(out):
    """dump the MIR of /repo's library and binary crates into directory out"""
    build_driver()
    tgt = tempfile.mkdtemp(prefix='carron-sa-')
    try:
        env = dict(os.environ)
        env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        env['MIRDUMP_OUT'] = out
        env['RUSTC_WORKSPACE_WRAPPER'] = BIN
        env.pop('RUSTFLAGS', None)
        env['CARGO_INCREMENTAL'] = '0'
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--bins', '--target-dir', tgt], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('extraction failed:\n' + r.stderr[-3000:])
    finally:
        shutil.rmtree(tgt, ignore_errors=True)


def program(which='lib'):
    from mir import Program
    if which in _cache:
        return _cache[which]
    d = os.environ.get('CARRON_DUMP')      # development aid: an existing dump directory
    tmp = None
    if not d:
        if 'dir' not in _cache:
            tmp = tempfile.mkdtemp(prefix='carron-mir-')
            _cache['dir'] = tmp
            try:
                extract(tmp)
                for w in ('lib', 'bin'):
                    f = os.path.join(tmp, w + '.json')
                    if os.path.exists(f):
                        _cache[w] = Program(f)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        if which not in _cache:
            raise BuildError('no %s crate was extracted' % which)
        return _cache[which]
    _cache[which] = Program(os.path.join(d, which + '.json'))
    return _cache[which]


if __name__ == '__main__':
    if sys.argv[1:] == ['build']:
        build_driver()
    else:
        os.makedirs(sys.argv[1], exist_ok=True)
        extract(sys.argv[1])
