"""Creates and verifies planted bugs.  usage: seed.py SPEC.py [id ...]
SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old, new[, nth])], needs, breaks, demo)].
In a scratch copy: the patch applies, the stable tests pass, the demo exits 0
before and non-zero after; then the checks are run against the copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile
PY = '/opt/venv/bin/python'
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec %s "$(dirname "$0")/demo.py"\n' % PY


def tests(root):
    out = tempfile.mktemp(suffix='.xml')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                    '-W', 'error:Unreachable API', '--ignore=tests/network/test_fees.py', '-o', 'junit_family=xunit2',
                    '--junitxml=' + out, 'tests'], cwd=root, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=root),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    js = tempfile.mktemp(suffix='.json')
    subprocess.run(['python3', '/opt/vp/results.py', js, 'junit:' + out], stdout=subprocess.DEVNULL)
    got = set(json.load(open(js))['passed'])
    os.remove(out); os.remove(js)
    return sorted(BASE - got)


def one(b):
    d = os.path.join(VER, 'seeded', b['id'])
    work = tempfile.mkdtemp(prefix='seed_')
    root = os.path.join(work, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        if 'patch' in b:
            subprocess.run(['git', 'apply', b['patch']], cwd=root, check=True)
        for e in b.get('edits', []):
            f, old, new = (b['file'],) + tuple(e[:2]) if len(e) < 4 else (e[3], e[0], e[1])
            nth = e[2] if len(e) > 2 else None
            p = os.path.join(root, f)
            s = open(p).read()
            n = s.count(old)
            if n == 0 or (n > 1 and nth is None):
                return 'EDIT matches %d times: %r' % (n, old[:60])
            if nth is None:
                nth = 0
            at = -1
            for _ in range(nth + 1):
                at = s.index(old, at + 1)
            s = s[:at] + new + s[at + len(old):]
            open(p, 'w').write(s)
        diff = subprocess.run(['git', 'diff'], cwd=root, capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        if 'demo' in b:
            open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        r = []
        for where in ('/repo', root):
            c = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=where, capture_output=True, text=True, timeout=300)
            r.append((c.returncode, (c.stderr or c.stdout).strip().splitlines()[-1:] ))
        miss = tests(root)
        prop = b.get('prop') or json.load(open(os.path.join(d, 'meta.json')))['property']
        c = subprocess.run(['python3', os.path.join(VER, 'run.py'), prop], env=dict(os.environ, BIT_REPO=root, VERIF_EVIDENCE=work), capture_output=True, text=True)
        ok = r[0][0] == 0 and r[1][0] != 0 and not miss
        return '%s demo %s tests-missing %s | check rc %d %s' % ('VALID' if ok else 'INVALID', r, miss[:3], c.returncode, [l[:150] for l in c.stdout.splitlines() if 'VIOL' in l or 'undecided' in l][:3])
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    if sys.argv[1] == '--recheck':
        bugs = [dict(id=i, patch=os.path.join(VER, 'seeded', i, 'patch.diff')) for i in sorted(os.listdir(os.path.join(VER, 'seeded')))]
    else:
        bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        todo = [b for b in bugs if not want or b['id'] in want]
        for b, r in zip(todo, ex.map(one, todo)):
            print(b['id'], r, flush=True)
