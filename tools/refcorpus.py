"""Development aid: hand-written behaviour-preserving rewrites of the repository.

usage: refcorpus.py [--tests] [ids...]
Each file tools/refs/*.py holds REFS = [dict(id, file, edits=[(old, new[, nth])])].  Every rewrite is applied to a
scratch copy; all checks must stay quiet there.  --tests also runs the repository's tests on the copy.
"""
import concurrent.futures
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'refs', '*.py'))):
        out += runpy.run_path(f)['REFS']
    return out


def nth_replace(s, old, new, nth=1):
    parts = s.split(old)
    if len(parts) <= nth:
        raise SystemExit('not found (%d of %d): %r' % (nth, len(parts) - 1, old))
    if nth == 0:
        return new.join(parts)
    return old.join(parts[:nth]) + new + old.join(parts[nth:])


def swap_def(src, qual, new):
    """src with the definition of `qual` (decorators included) replaced by new"""
    import ast
    node = ast.parse(src)
    for part in qual.split('.'):
        node = [n for n in node.body if getattr(n, 'name', None) == part][0]
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    lines = src.split('\n')
    return '\n'.join(lines[:first - 1] + new.strip('\n').split('\n') + lines[node.end_lineno:])


def edited(ref, read):
    """{file: new text}"""
    out = {}
    for e in ref['edits']:
        if e[0] == 'def':
            f = ref['file'] if len(e) < 4 else e[3]
            out[f] = swap_def(out.get(f) or read(f), e[1], e[2])
        else:
            f = ref['file'] if len(e) < 4 else e[3]
            out[f] = nth_replace(out.get(f) or read(f), e[0], e[1], e[2] if len(e) > 2 else 1)
    return out


def run(ref, tests):
    d = tempfile.mkdtemp(prefix='ref_')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        for f, text in edited(ref, lambda f: open(os.path.join(repo, f)).read()).items():
            open(os.path.join(repo, f), 'w').write(text)
        msg = ''
        if tests:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'tests', '-m', 'not network'], cwd=repo, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=repo))
            last = t.stdout.strip().split('\n')[-1]
            msg = ' tests: ' + last.replace('in ', '').rsplit(' ', 1)[0]
        env = dict(os.environ, BIT_REPO=repo, VERIF_EVIDENCE=os.path.join(d, 'ev'))
        r = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), 'all'], capture_output=True, text=True, env=env)
        bad = [x for x in r.stdout.split('\n') if 'VIOLATION' in x or 'undecided' in x and ' 0 undecided' not in x or 'rror' in x]
        bad += r.stderr.split('\n')[-3:] if r.returncode not in (0, 1) else []
        if '--keep' in sys.argv:
            for x in sorted(glob.glob(os.path.join(d, 'ev', '*.violations.txt'))):
                print(open(x).read()[:3000])
        viol = sorted(set(re.findall(r'VIOLATION property=(C\d+)', r.stdout)))
        return ref['id'], viol, sorted(set(x for x in bad if x.startswith('note'))), msg
    finally:
        shutil.rmtree(d)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tests = '--tests' in sys.argv
    refs = [r for r in load() if not args or any(r['id'].startswith(a) for a in args)]
    n = 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for rid, viol, und, msg in ex.map(lambda r: run(r, tests), refs):
            n += bool(viol)
            print(rid, 'VIOLATION ' + ','.join(viol) if viol else 'quiet', 'undecided: %d' % len(und) if und else '', msg, flush=True)
            for u in und:
                print('    ' + u[:260])
    print(len(refs), 'rewrites,', n, 'with alarms')


if __name__ == '__main__':
    main()
