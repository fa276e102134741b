"""Development aid: how does the analysis judge small syntactic changes of the repository?

usage: mutate.py OUT.jsonl [module-filter] [max-per-function]
Nothing is executed; each mutated syntax tree is handed to the obligations that analyse the function.
"""
import ast
import copy
import json
import multiprocessing
import os
import random
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import obl      # noqa
import rules    # noqa
import table    # noqa
from program import Sources     # noqa

ROOTS = {'bit': '/repo/bit', 'spec': os.path.join(HERE, 'specs')}
SRC = Sources(ROOTS)
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Mod: [ast.FloorDiv]}
SWAP = [('MAIN', 'TEST'), ('main', 'test'), ('compressed', 'uncompressed'), ('segwit', 'legacy')]


def mutants(fn):
    """yield (description, apply) where apply(copy of fn) edits it in place"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for new in CMP.get(type(n.ops[0]), []):
                yield ln, 'cmp->' + new.__name__, lambda ns, i=i, new=new: setattr(ns[i], 'ops', [new()] + ns[i].ops[1:])
        if isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                yield ln, 'bin->' + new.__name__, lambda ns, i=i, new=new: setattr(ns[i], 'op', new())
        if isinstance(n, ast.AugAssign):
            for new in BIN.get(type(n.op), []):
                yield ln, 'aug->' + new.__name__, lambda ns, i=i, new=new: setattr(ns[i], 'op', new())
        if isinstance(n, ast.BoolOp):
            yield ln, 'and/or', lambda ns, i=i: setattr(ns[i], 'op', ast.Or() if isinstance(ns[i].op, ast.And) else ast.And())
            for j in range(len(n.values)):
                yield ln, 'drop operand %d' % j, lambda ns, i=i, j=j: ns[i].values.pop(j) if len(ns[i].values) > 2 else setattr(ns[i], 'values', [ns[i].values[1 - j]] * 2)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield ln, 'const not', lambda ns, i=i: setattr(ns[i], 'value', not ns[i].value)
            elif isinstance(v, int):
                yield ln, 'const+1', lambda ns, i=i: setattr(ns[i], 'value', ns[i].value + 1)
            elif isinstance(v, str) and v and ' ' not in v:
                yield ln, 'str', lambda ns, i=i: setattr(ns[i], 'value', ns[i].value + 'x')
            elif isinstance(v, bytes) and v:
                yield ln, 'bytes', lambda ns, i=i: setattr(ns[i], 'value', bytes([ns[i].value[0] ^ 1]) + ns[i].value[1:])
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield ln, 'negate', lambda ns, i=i: setattr(ns[i], 'test', ast.UnaryOp(ast.Not(), ns[i].test))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            yield ln, 'swap args', lambda ns, i=i: ns[i].args.__setitem__(slice(0, 2), [ns[i].args[1], ns[i].args[0]])
        if isinstance(n, ast.Call):
            for j in range(len(n.keywords)):
                yield ln, 'drop kw ' + str(n.keywords[j].arg), lambda ns, i=i, j=j: ns[i].keywords.pop(j)
        if isinstance(n, ast.Attribute) or isinstance(n, ast.Name):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id
            for a, b in SWAP[:2]:
                for x, y in ((a, b), (b, a)):
                    if x in nm and (isinstance(n, ast.Attribute) or isinstance(n.ctx, ast.Load)):
                        yield ln, nm + '->' + nm.replace(x, y), lambda ns, i=i, v=nm.replace(x, y): setattr(ns[i], 'attr' if isinstance(ns[i], ast.Attribute) else 'id', v)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.Raise, ast.For, ast.Return, ast.Break, ast.Continue)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        yield s.lineno, 'delete ' + type(s).__name__, lambda ns, i=i, f=f, j=j: getattr(ns[i], f).__setitem__(j, ast.copy_location(ast.Pass(), getattr(ns[i], f)[j]))
                    if j + 1 < len(b):
                        yield s.lineno, 'swap stmts', lambda ns, i=i, f=f, j=j: getattr(ns[i], f).__setitem__(slice(j, j + 2), [getattr(ns[i], f)[j + 1], getattr(ns[i], f)[j]])


def find(tree, path):
    body = tree.body
    node = None
    for p in path:
        node = next(x for x in body if getattr(x, 'name', None) == p)
        body = node.body
    return node


def strip_doc(fn):
    if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str):
        fn.body = fn.body[1:] or [ast.Pass()]


def judge(job):
    mod, path, k, line, what, keys = job
    src = Sources(ROOTS)
    src.trees = dict(SRC.trees)
    src.paths = dict(SRC.paths)
    tree = copy.deepcopy(SRC.tree(mod))
    fn = find(tree, path)
    strip_doc(fn)
    ms = list(mutants(fn))
    before = ast.dump(fn)
    ms[k][2](list(ast.walk(fn)))
    if ast.dump(fn) == before:
        return None
    ast.fix_missing_locations(tree)
    src.trees[mod] = tree
    res, und = 'proved', []
    for key in keys:
        try:
            r = obl.decide(src, table.OBS[key], limit=20)
        except Exception as e:
            und.append(key + ' ' + type(e).__name__ + str(e)[:100])
            continue
        if r.verdict == 'violation':
            return dict(where=mod + '.' + '.'.join(path), line=line, what=what, verdict='violation', by=key)
        if r.verdict != 'proved':
            und.append('{} {} {}'.format(key, r.verdict, r.detail)[:200])
    if und:
        res = 'undecided'
    return dict(where=mod + '.' + '.'.join(path), line=line, what=what, verdict=res, by=und[:3], src=ast.unparse(fn)[:0])


def base(key):
    r = obl.decide(SRC, table.OBS[key], every=True)
    return key, r.stats.get('functions', [])


def main():
    out, filt, cap = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else ''), int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
    for m in SRC.all_modules('bit') + SRC.all_modules('spec'):
        SRC.tree(m)
    rnd = random.Random(1)
    jobs = []
    own = {}
    for k, o in table.OBS.items():
        own.setdefault(o.code, []).append(k)
    with multiprocessing.Pool(8, maxtasksperchild=20) as pool:
        users = {}
        for k, fs in pool.imap_unordered(base, list(table.OBS)):
            for f in fs:
                users.setdefault(f, []).append(k)
        for m, q, node in rules.functions(SRC):
            if filt and filt not in q:
                continue
            path = q[len(m) + 1:].split('.')
            keys = own.get(q, []) + [k for k in users.get(q, []) if k not in own.get(q, [])][:6]
            if not keys:
                continue
            fn = copy.deepcopy(node)
            strip_doc(fn)
            ms = list(mutants(fn))
            idx = list(range(len(ms)))
            if len(idx) > cap:
                idx = sorted(rnd.sample(idx, cap))
            jobs += [(m, path, k, ms[k][0], ms[k][1], keys[:8]) for k in idx]
        print(len(jobs), 'mutants')
        n = {}
        t = time.time()
        with open(out, 'w') as f:
            for r in pool.imap_unordered(judge, jobs, chunksize=4):
                if r:
                    n[r['verdict']] = n.get(r['verdict'], 0) + 1
                    f.write(json.dumps(r) + '\n')
        print(n, round(time.time() - t))


if __name__ == '__main__':
    main()
