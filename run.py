#!/usr/bin/env python3
"""Decide one property of ofek/bit from the source in /repo.

usage: run.py C07            exit 0: held on everything analysed; exit 1: VIOLATION line
       run.py all            every property (development aid)
"""
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':
    # same order of everything in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

import obl      # noqa: E402
import props    # noqa: E402
import table    # noqa: E402
from program import Sources     # noqa: E402

REPO = os.environ.get('BIT_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 780 if TIER == 'thorough' else 600
LIMIT = 120 if TIER == 'thorough' else 50
SRC = Sources({'bit': os.path.join(REPO, 'bit'), 'spec': os.path.join(HERE, 'specs')})
FINDINGS = os.path.join(HERE, 'known_findings.txt')
T0 = time.time()


def cap():
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))


def place(qual):
    """file:line of the definition of a repository function"""
    import ast
    parts = qual.split('[')[0].split('.')
    for i in range(len(parts) - 1, 0, -1):
        mod = '.'.join(parts[:i])
        if SRC.has(mod):
            body = SRC.tree(mod).body
            node = None
            for n in parts[i:]:
                node = next((x for x in body if getattr(x, 'name', None) == n), None)
                if node is None:
                    return SRC.path(mod)
                body = node.body
            return '{}:{}'.format(SRC.path(mod), node.lineno)
    return '?'


def about(key):
    """the repository function an obligation is about"""
    if key.startswith('rate-cache'):
        return 'bit.network.rates.currency_to_satoshi_local_cache'
    if key.startswith('fee-cache'):
        return 'bit.network.fees.get_fee_local_cache'
    return table.OBS[key].code


def one(job):
    kind, key = job
    t = time.time()
    if time.time() - T0 > BUDGET:
        return dict(kind=kind, key=key, verdict='undecided', detail='time budget used up')
    try:
        if kind == 'ob':
            r = obl.decide(SRC, table.OBS[key], limit=LIMIT, every=TIER == 'thorough')
            return dict(kind=kind, key=key, verdict=r.verdict, detail=r.detail, diff=repr(r.diff)[:4000] if r.diff else '',
                        functions=r.stats.get('functions', []), cases=r.stats.get('cases', 0), terms=r.stats.get('terms', 0),
                        level=r.stats.get('level'), levels=r.stats.get('levels'), s=round(time.time() - t, 3))
        pid, n = key
        f = props.PROPS[pid].rules[n]
        sites, bad = f(SRC)
        return dict(kind=kind, key=f.__name__, verdict='rule', doc=f.__doc__, sites=len(sites), sample=[str(x) for x in sites[:3]],
                    bad=[(b.where, b.what, b.sure) for b in bad], s=round(time.time() - t, 3))
    except Exception as e:      # a construct the analysis cannot follow decides nothing
        return dict(kind=kind, key=str(key), verdict='undecided', detail='{}: {}'.format(type(e).__name__, str(e)[:300]))


def known():
    """{property: [(where, text)]} of recorded, unrepaired defects"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding='utf-8'):
            if line.startswith('finding: '):
                head, what = line[9:].rstrip('\n').split(' | ', 1)
                f = dict(x.split('=', 1) for x in head.split())
                out.setdefault(f['property'], []).append((f['where'], what))
    return out


def start(jobs):
    for m in SRC.all_modules('bit') + SRC.all_modules('spec'):
        try:
            SRC.tree(m)
        except SyntaxError:
            pass
    try:
        SRC.state = obl.Persistent(SRC)
    except Exception as e:      # no tree, nothing to say
        SRC.state = obl.NoState(e)
    ctx = multiprocessing.get_context('fork')
    todo = list(enumerate(jobs))[::-1]
    out = [None] * len(jobs)
    live = {}

    def child(conn, job):
        cap()
        conn.send(one(job))
        conn.close()
        os._exit(0)

    while todo or live:
        while todo and len(live) < 8:
            n, job = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, job), daemon=True)
            p.start()
            b.close()
            live[a] = (n, job, p, time.time())
        for a in multiprocessing.connection.wait(list(live), timeout=1):
            n, job, p, _ = live.pop(a)
            try:
                out[n] = a.recv()
            except (EOFError, OSError):     # the analysis of this function ran out of resources
                out[n] = dict(kind=job[0], key=str(job[1]), verdict='undecided', detail='the analysis ended abnormally')
            a.close()
            p.join()
        for a, (n, job, p, t) in list(live.items()):
            if time.time() - t > 2 * LIMIT + 30 or time.time() - T0 > BUDGET + 60:
                p.kill()
                p.join()
                a.close()
                del live[a]
                out[n] = dict(kind=job[0], key=str(job[1]), verdict='undecided', detail='time limit')
    return out


def report(pid, got):
    out = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)
    kf = known().get(pid, [])
    violations, notes, findings = [], [], []
    obs = [r for r in got if r['kind'] == 'ob']
    rls = [r for r in got if r['kind'] == 'rule']
    for r in obs:
        if r['verdict'] == 'violation':
            where = '{} {}'.format(place(about(r['key'])), r['key'])
            violations.append((where, r['detail'] if not r['diff'] and r['detail'] else 'does not compute what its reference computes ({}):\n{}'.format(r['detail'] or 'different value', r['diff'])))
        elif r['verdict'] != 'proved':
            notes.append('{}: {} ({})'.format(r['verdict'], r['key'], r.get('detail', '')[:300]))
    for r in rls:
        for where, what, sure in r.get('bad', []):
            hit = [k for k in kf if where.endswith(k[0]) and k[1] in what]
            if hit:
                findings.append((where, what))
            elif sure:
                violations.append((where, what))
            else:
                notes.append('undecided: rule {} at {}: {}'.format(r['key'], where, what))
        if r['verdict'] == 'undecided':
            notes.append('undecided: rule {}: {}'.format(r['key'], r.get('detail')))
    for where, what in findings:
        print('KNOWN-FINDING: property={} {}: {}'.format(pid, where, what))
    for n in notes:
        print('note: ' + n)
    path = os.path.join(out, pid + '.violations.txt')
    if os.path.exists(path):
        os.remove(path)
    if violations:
        with open(path, 'w', encoding='utf-8') as f:
            for where, what in violations:
                f.write('{}\n{}\n\n'.format(where, what))
        for where, what in violations:
            print('{}: {}'.format(where, what.split('\n')[0]))
            for line in what.split('\n')[1:4]:
                print('    ' + line[:600])
        print('VIOLATION property={} replay={}'.format(pid, path))
    proved = [r for r in obs if r['verdict'] == 'proved']
    funcs = sorted({f for r in obs for f in r.get('functions', []) if f.startswith('bit.')})
    cov = {
        'explanation': 'Each repository function below was abstracted, without running it, to a term over its parameters '
                       '(returned value, raised error, writes, outside calls) by a gated value-flow analysis of its syntax '
                       'tree and compared with the term of an independent reference; rules inspect tables and call sites.',
        'reference_obligations': len(obs),
        'reference_obligations_held': len(proved),
        'undecided': notes,
        'functions_analysed': funcs,
        'outcome_terms': sum(r.get('terms') or 0 for r in obs),
        'path_cases_compared': sum(r.get('cases') or 0 for r in obs),
        'rules': [{'rule': r['key'], 'text': r.get('doc'), 'sites': r.get('sites', 0), 'sample_sites': r.get('sample', [])} for r in rls],
        'known_findings': ['{}: {}'.format(*f) for f in findings],
        'samples': [{'function': r['key'], 'verdict': r['verdict'], 'cases': r.get('cases'), 'level': r.get('level')} for r in obs[:5]],
    }
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'other', 'coverage': cov,
          'assumptions': ['the reference functions in /verif/specs state the intended behaviour',
                          'library calls (requests, coincurve, hashlib, decimal, json) behave as documented',
                          'callers pass values of the documented types'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    with open(os.path.join(out, pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    print('{}: {} of {} obligations held, {} rule sites, {} undecided, {} violations'.format(
        pid, len(proved), len(obs), sum(r.get('sites', 0) for r in rls), len(notes), len(violations)))
    return len(violations)


def main():
    if sys.argv[1] == '--self-test':
        for p in props.PROPS.values():
            p.keys()
        print('{} obligations, {} properties'.format(len(table.OBS), len(props.PROPS)))
        return 0
    pids = list(props.PROPS) if sys.argv[1] == 'all' else sys.argv[1:]
    jobs = []
    for pid in pids:
        p = props.PROPS[pid]
        jobs += [('ob', k) for k in p.keys()] + [('rule', (pid, n)) for n in range(len(p.rules))]
    uniq = list(dict.fromkeys(jobs))
    res = dict(zip(uniq, start(uniq)))
    bad = 0
    for pid in pids:
        p = props.PROPS[pid]
        bad += report(pid, [res[('ob', k)] for k in p.keys()] + [res[('rule', (pid, n))] for n in range(len(p.rules))])
    sys.stdout.flush()
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
