"""development tool: plant one bug.  usage: seed.py SPECFILE...   (python files defining ID, PROP, EDITS, DEMO, NEEDS, BREAKS)
Makes a scratch worktree of /repo under /tmp, applies the edits, checks build, tests and demo there, writes /verif/seeded/ID/."""
import sys, os, subprocess, json, runpy, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'd023987'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
ENV.pop('PYTHONPATH', None)
SH = '''#!/bin/bash
# cwd: the repository root
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def main(spec):
    s = runpy.run_path(spec)
    wt = tempfile.mkdtemp(prefix='seed_', dir='/tmp') + '/r'
    d = os.path.join(VERIF, 'seeded', s['ID'])
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '--detach', '-q', wt, 'HEAD'], check=True)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(s['DEMO'])
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        r = sh('bash %s/demo.sh' % d, wt)
        if r.returncode:
            print(s['ID'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-500:], r.stderr[-800:])
            return
        for f, a, b in s['EDITS']:
            p = os.path.join(wt, 'ezodf', f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s['ID'], 'edit matches', t.count(a), 'times in', f)
                return
            open(p, 'w').write(t.replace(a, b))
        diff = sh('git diff', wt).stdout
        # removed lines must be original ones
        orig = {}
        for f, a, b in s['EDITS']:
            orig[f] = sh('git show %s:ezodf/%s' % (BASE, f), wt).stdout.splitlines()
        bad = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and not any(l[1:] in o for o in orig.values())]
        if bad:
            print(s['ID'], 'WARNING: removes fix lines', bad)
        r = sh('/opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=300 tests 2>&1 | tail -5', wt)
        base = sh('true', wt)
        print(s['ID'], 'tests:', r.stdout.strip().splitlines()[-1])
        if 'failed' in r.stdout or 'error' in r.stdout.lower():
            print(r.stdout)
        r = sh('bash %s/demo.sh' % d, wt)
        print(s['ID'], 'demo with patch:', r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:])
        if r.returncode == 0:
            print('   NOT BROKEN')
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    finally:
        sh('git -C /repo worktree remove --force %s' % wt, '/')
        shutil.rmtree(os.path.dirname(wt), ignore_errors=True)
        sh('git -C /repo worktree prune', '/')


for a in sys.argv[1:]:
    main(a)
