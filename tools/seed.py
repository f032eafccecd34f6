"""seed.py ID...: (re)build seeded/<ID> from tools/seeds/<ID>.py and confirm it in a scratch copy of /repo.

A seed file defines: prop, needs, breaks, edits=[(file, old, new)], and prog (guest assembly) or rust/demo files.
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '7bebf4d'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch(n):
    d = '/tmp/seedwork%s' % n
    if not os.path.isdir(d):
        sh(['cp', '-a', '/repo', d])
    sh(['git', '-C', d, 'fetch', '-q', '/repo'])
    head = sh(['git', '-C', '/repo', 'rev-parse', 'HEAD']).stdout.strip()
    sh(['git', '-C', d, 'checkout', '-q', '-f', head])
    return d


ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')


def build(d):
    e = dict(ENV, CARGO_TARGET_DIR=d + '/target')
    r = sh(['cargo', 'build', '--workspace', '--offline'], cwd=d, env=e)
    return r.returncode, r.stderr


def test(d):
    e = dict(ENV, CARGO_TARGET_DIR=d + '/target')
    r = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], cwd=d, env=e)
    return r.returncode, len(re.findall(r'\.\.\. ok', r.stdout)), r.stdout + r.stderr


def main():
    w = ''
    if sys.argv[1].startswith('--work='):
        w = sys.argv.pop(1)[7:]
    for sid in sys.argv[1:]:
        ns = {}
        exec(open('%s/tools/seeds/%s.py' % (V, sid)).read(), ns)
        d = scratch(w)
        out = '%s/seeded/%s' % (V, sid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        if 'prog' in ns:
            for f in ('demo.sh', 'mkelf.py', 'pre.inc'):
                shutil.copy('%s/tools/demo/%s' % (V, f), out)
            open(out + '/prog.S', 'w').write(ns['prog'].lstrip('\n'))
        for f, t in ns.get('files', {}).items():
            open(out + '/' + f, 'w').write(t.lstrip('\n'))
        if 'rust' in ns:
            shutil.copy('%s/tools/demo/demo_rust.sh' % V, out + '/demo.sh')
            open(out + '/main.rs', 'w').write(ns['rust'].lstrip('\n'))
        os.chmod(out + '/demo.sh', 0o755)
        bad = None
        rc, err = build(d)
        if rc:
            bad = 'base does not build'
        r0 = sh(['bash', out + '/demo.sh'], cwd=d)
        if r0.returncode:
            bad = 'demo fails on the unchanged tree: ' + r0.stdout[-300:] + r0.stderr[-300:]
        orig = True
        for f, old, new in ns['edits']:
            p = d + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                bad = '%s: %d matches' % (f, s.count(old))
                break
            open(p, 'w').write(s.replace(old, new))
        if not bad:
            diff = sh(['git', '-C', d, 'diff']).stdout
            open(out + '/patch.diff', 'w').write(diff)
            # every removed line must come from the original repository
            for f in set(e[0] for e in ns['edits']):
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+', sh(['git', '-C', d, 'diff', '-U0', '--', f]).stdout, re.M):
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    if n == 0:
                        continue
                    b = sh(['git', '-C', d, 'blame', '-s', '-L', '%d,%d' % (a, a + n - 1), 'HEAD', '--', f]).stdout
                    if any(BASE not in l.split(' ', 1)[0] for l in b.splitlines()):
                        orig = False
            rc, err = build(d)
            if rc:
                bad = 'does not compile: ' + err[-800:]
            else:
                rc, n, o = test(d)
                if rc or n != 8:
                    bad = 'tests: rc %d, %d ok' % (rc, n)
                r1 = sh(['bash', out + '/demo.sh'], cwd=d)
                if r1.returncode == 0:
                    bad = 'demo passes with the patch'
        res = None
        if not bad:
            e = dict(os.environ, CARRON_REPO=d)
            e.pop('CARRON_DUMP', None)
            r = sh(['python3', V + '/sa/run.py', ns['prop']], env=e)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res = 'CAUGHT' if r.returncode == 1 and v else 'MISSED'
            u = [l for l in r.stdout.splitlines() if 'ndecided' in l]
            if res == 'MISSED':
                print('\n'.join(l[:200] for l in u[:4]))
            else:
                l = [l for l in r.stdout.splitlines() if l.startswith('  ') or 'violat' in l.lower()]
                print('\n'.join(x[:240] for x in l[:3]))
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        sh(['git', '-C', d, 'checkout', '-q', '--', '.'])
        print(sid, ns['prop'], bad or res, '' if orig else 'NOT-ORIGINAL-LINES', flush=True)


main()
