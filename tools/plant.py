"""python3 tools/plant.py FILE [ids]: build planted bugs from a table, confirm each in a scratch copy, run the checks on it.

FILE defines BUGS = [dict(id, property, file, edits=[(old, new)...], needs, breaks, demo)].  A confirmed bug is
written to seeded/<id>/.   python3 tools/plant.py --recheck [ids] re-runs only the checks on the bugs kept."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
d=$(dirname "$0")
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='plant')
    wt = os.path.join(d, 'wt')
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    return d, wt


def tests(wt):
    out = os.path.join(os.path.dirname(wt), 'out.json')
    s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + wt)
    p = os.path.join(os.path.dirname(wt), 'test.sh')
    open(p, 'w').write(s)
    sh(f'bash {p} {out}', wt)
    b = open('/opt/vp/build.sh').read().replace('/repo', wt)
    p = os.path.join(os.path.dirname(wt), 'build.sh')
    open(p, 'w').write(b)
    r = sh(f'bash {p}', wt)
    if r.returncode:
        return 'build: ' + r.stderr[-300:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open(out))
    want = base['stable']
    ok = set(got.get('passed', got))
    bad = [t for t in want if t not in ok]
    return f'{len(bad)} tests fail: {bad[:2]}' if bad else ''


def check(wt, prop):
    r = sh(f'python3 sa/run.py {prop} --repo {wt}', V, env=dict(os.environ, VERIF_SEED='1'))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, v


def main():
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        for i in ids:
            d, wt = scratch()
            m = json.load(open(f'{V}/seeded/{i}/meta.json'))
            r = sh(f'git apply {V}/seeded/{i}/patch.diff', wt)
            rc, v = check(wt, m['property'])
            print(i, m['property'], 'CAUGHT' if rc == 1 and v else f'missed rc={rc}', r.stderr[:200], flush=True)
            shutil.rmtree(d)
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns['BUGS']:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        d, wt = scratch()
        try:
            sd = os.path.join(d, 'demo')
            os.mkdir(sd)
            open(sd + '/demo.sh', 'w').write(DEMO)
            open(sd + '/demo.py', 'w').write(b['demo'].lstrip())
            r0 = sh(f'bash {sd}/demo.sh', wt)
            if r0.returncode:
                print(b['id'], 'DEMO FAILS ON CLEAN', r0.stderr[-400:])
                continue
            for old, new in b['edits']:
                f = os.path.join(wt, 'bitcoinx', b['file']) if not old.startswith('@') else None
                s = open(f).read()
                if s.count(old) != 1:
                    print(b['id'], 'EDIT', s.count(old), repr(old))
                    break
                open(f, 'w').write(s.replace(old, new))
            else:
                t = tests(wt)
                if t:
                    print(b['id'], 'TESTS', t)
                    continue
                r1 = sh(f'bash {sd}/demo.sh', wt)
                if r1.returncode == 0:
                    print(b['id'], 'DEMO PASSES WITH BUG')
                    continue
                o = f'{V}/seeded/{b["id"]}'
                os.makedirs(o, exist_ok=True)
                for f in ('demo.sh', 'demo.py'):
                    shutil.copy(sd + '/' + f, o)
                open(o + '/patch.diff', 'w').write(sh('git diff -- bitcoinx', wt).stdout)
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                          open(o + '/meta.json', 'w'), indent=1)
                rc, v = check(wt, b['property'])
                print(b['id'], b['property'], 'CAUGHT' if rc == 1 and v else f'MISSED rc={rc}', (r1.stderr.splitlines() or [''])[-1][:100], flush=True)
        finally:
            shutil.rmtree(d)


main()
