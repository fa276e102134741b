"""Development aid: how does the analysis judge behaviour-preserving rewrites of the repository?

usage: refactor.py OUT.jsonl [module-filter] [max-per-function]
Every rewrite keeps the behaviour by construction; anything but `proved` is a
false alarm (`violation`) or a loss of precision (`undecided`).
"""
import ast
import copy
import json
import multiprocessing
import random
import sys
import time
import mutate
from mutate import SRC, ROOTS, Sources, obl, table, rules, find, strip_doc

STOP = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def blocks(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) and n is not fn:
            continue
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def assign(x, v):
    return ast.Assign([name(x, ast.Store())], v)


def names(nodes, ctx):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ctx) and x.id not in out:
                out.append(x.id)
            if ctx is ast.Load and isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id not in out:
                out.append(x.target.id)
            if ctx is ast.Store and isinstance(x, ast.ExceptHandler) and x.name and x.name not in out:
                out.append(x.name)
    return out


def params(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x]


def bound(stmts):
    """names surely assigned after the statements"""
    out = set()
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            out |= set(names([s], ast.Store))
        elif isinstance(s, ast.If):
            a = bound(s.body) if not ends(s.body) else None
            b = bound(s.orelse) if s.orelse and not ends(s.orelse) else (None if s.orelse else set())
            both = [x for x in (a, b) if x is not None]
            if both:
                out |= set.intersection(*both)
        elif isinstance(s, ast.With):
            out |= bound(s.body)
    return out


def ends(b):
    return bool(b) and isinstance(b[-1], STOP)


def has(nodes, kinds):
    return any(isinstance(x, kinds) for n in nodes for x in ast.walk(n))


def loopfree_jump(nodes):
    """break/continue leaving the statements"""
    def go(n, loop):
        if isinstance(n, (ast.Break, ast.Continue)) and not loop:
            return True
        lp = loop or isinstance(n, (ast.For, ast.While))
        return any(go(c, lp) for c in ast.iter_child_nodes(n))
    return any(go(n, False) for n in nodes)


def helper(tree, nm, args, body):
    f = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body, [], None, None)
    k = next((i for i, s in enumerate(tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(tree.body))
    tree.body.insert(k, f)


def rewrites(tree, fn):
    """list of (description, thunk applying it)"""
    out = []

    def rule(what, node, f):
        out.append((getattr(node, 'lineno', 0), what, f))

    local = set(params(fn)) | set(names(fn.body, ast.Store))
    nested = has(fn.body, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef))
    compnames = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.comprehension):
            compnames |= set(names([n.target], ast.Store))
    for owner, b in blocks(fn):
        for j, s in enumerate(b):
            val = getattr(s, 'value', None)
            if isinstance(s, ast.Return) and val is not None:
                rule('return temp', s, lambda b=b, j=j: b.__setitem__(slice(j, j + 1), [assign('result_', b[j].value), ast.Return(name('result_'))]))
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(val, ast.Call) and val.args \
                    and not isinstance(val.args[0], (ast.Constant, ast.Name, ast.Starred, ast.GeneratorExp)) \
                    and not has([val.func], ast.Call):
                def hoist(b=b, j=j):
                    v = b[j].value.args[0]
                    b[j].value.args[0] = name('first_')
                    b.insert(j, assign('first_', v))
                rule('hoist argument', s, hoist)
            if isinstance(s, ast.If) and s.orelse:
                def inv(s=s):
                    s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
                rule('invert if', s, inv)
                if ends(s.body):
                    def drop(b=b, j=j):
                        rest = b[j].orelse
                        b[j].orelse = []
                        b[j + 1:j + 1] = rest
                    rule('drop else', s, drop)
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and j + 1 < len(b):
                def mkelse(b=b, j=j):
                    b[j].orelse = b[j + 1:]
                    del b[j + 1:]
                rule('add else', s, mkelse)
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                def nest(s=s):
                    first, rest = s.test.values[0], s.test.values[1:]
                    s.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), s.body, [])]
                    s.test = first
                rule('nest and', s, nest)
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.Call)):
                rule('name condition', s, lambda b=b, j=j: b.__setitem__(slice(j, j), [assign('cond_', b[j].test)]) or setattr(b[j + 1], 'test', name('cond_')))
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(val, ast.IfExp):
                def toif(b=b, j=j):
                    v = b[j].value
                    x, y = copy.deepcopy(b[j]), copy.deepcopy(b[j])
                    x.value, y.value = v.body, v.orelse
                    b[j] = ast.If(v.test, [x], [y])
                rule('ifexp to if', s, toif)
            if isinstance(s, ast.For) and not s.orelse:
                def enum(s=s):
                    s.iter = ast.Call(name('enumerate'), [s.iter], [])
                    s.target = ast.Tuple([name('k_', ast.Store()), s.target], ast.Store())
                rule('enumerate', s, enum)
                if isinstance(s.target, ast.Name):
                    def elemname(s=s):
                        s.body.insert(0, ast.Assign([s.target], name('cur_')))
                        s.target = name('cur_', ast.Store())
                    rule('loop variable', s, elemname)

                def snap(b=b, j=j):
                    b.insert(j, assign('seq_', b[j].iter))
                    b[j + 1].iter = name('seq_')
                rule('name iterable', s, snap)
                if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                    def cont(s=s):
                        i = s.body[0]
                        s.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
                    rule('continue', s, cont)
            if isinstance(s, ast.While) and not s.orelse:
                def wt(s=s):
                    s.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], []))
                    s.test = ast.Constant(True)
                rule('while true', s, wt)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(val, ast.ListComp) and len(val.generators) == 1:
                def loop(b=b, j=j):
                    v = b[j].value
                    g = v.generators[0]
                    body = [ast.Expr(ast.Call(ast.Attribute(name('acc_'), 'append', ast.Load()), [v.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    b[j].value = name('acc_')
                    b[j:j] = [assign('acc_', ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                if not (compnames & set(names(fn.body, ast.Load)) & set(params(fn))):
                    rule('comprehension to loop', s, loop)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)) and not isinstance(s.value, (ast.List, ast.ListComp)):
                rule('expand augmented', s, lambda b=b, j=j: b.__setitem__(j, ast.Assign([name(b[j].target.id, ast.Store())], ast.BinOp(name(b[j].target.id), b[j].op, b[j].value))))
            if isinstance(s, ast.Expr) and isinstance(val, ast.Call) and isinstance(val.func, ast.Attribute) and val.func.attr == 'append' and isinstance(val.func.value, ast.Name):
                rule('append to +=', s, lambda b=b, j=j: b.__setitem__(j, ast.AugAssign(name(b[j].value.func.value.id, ast.Store()), ast.Add(), ast.List([b[j].value.args[0]], ast.Load()))))
            if isinstance(s, ast.Try) and s.body and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None and not s.finalbody and not s.orelse:
                def telse(s=s):
                    s.body[-1] = assign('got_', s.body[-1].value)
                    s.orelse = [ast.Return(name('got_'))]
                rule('try else', s, telse)
            if isinstance(s, ast.Assign) and isinstance(val, ast.Dict) and val.keys and all(isinstance(k, ast.Constant) for k in val.keys) and isinstance(s.targets[0], ast.Name):
                def build(b=b, j=j):
                    v = b[j].value
                    t = b[j].targets[0].id
                    b[j:j + 1] = [assign(t, ast.Dict([], []))] + [
                        ast.Assign([ast.Subscript(name(t), k, ast.Store())], x) for k, x in zip(v.keys, v.values)]
                rule('dict by item', s, build)
            if j + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(b[j + 1], ast.Assign):
                x, y = b[j], b[j + 1]
                if all(isinstance(z.targets[0], ast.Name) and len(z.targets) == 1 and not has([z.value], (ast.Call, ast.Subscript)) for z in (x, y)):
                    nx, ny = x.targets[0].id, y.targets[0].id
                    if nx != ny and nx not in names([y.value], ast.Load) and ny not in names([x.value], ast.Load):
                        rule('swap assigns', s, lambda b=b, j=j: b.__setitem__(slice(j, j + 2), [b[j + 1], b[j]]))
            rule('noop', s, lambda b=b, j=j: b.insert(j, ast.Pass()))
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}.get(type(n.ops[0]))
            if flip and not (has([n.left], ast.Call) and has(n.comparators, ast.Call)):
                def doflip(n=n, flip=flip):
                    n.left, n.comparators[0], n.ops[0] = n.comparators[0], n.left, flip()
                rule('flip comparison', n, doflip)
            neg = {ast.Lt: ast.GtE, ast.NotEq: ast.Eq, ast.Eq: ast.NotEq, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}[type(n.ops[0])]

            def donegate(n=n, neg=neg):
                inner = ast.Compare(n.left, [neg()], n.comparators)
                n.left, n.ops, n.comparators = ast.UnaryOp(ast.Not(), inner), [ast.Is()], [ast.Constant(True)]
            rule('not of negation', n, donegate)
        if isinstance(n, ast.BoolOp) and len(n.values) == 2 and all(isinstance(v, (ast.Compare, ast.UnaryOp)) for v in n.values):
            def demorgan(n=n):
                inner = ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.values])
                n.op = ast.And()
                n.values = [ast.Constant(True), ast.UnaryOp(ast.Not(), inner)]
            rule('de morgan', n, demorgan)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and not n.keywords:
            parts = n.func.value.value.split('{}')
            if len(parts) == len(n.args) + 1 and not any('{' in p or '}' in p for p in parts):
                def fstr(n=n, parts=parts):
                    vals = [ast.Constant(parts[0])]
                    for a, p in zip(n.args, parts[1:]):
                        vals += [ast.FormattedValue(a, -1, None), ast.Constant(p)]
                    n.func = ast.Attribute(ast.Constant(''), 'join', ast.Load())
                    n.args = [ast.List([ast.JoinedStr(vals)], ast.Load())]
                rule('f-string', n, fstr)
        if isinstance(n, ast.ListComp) and len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name) and not n.generators[0].ifs and n is not None:
            def tomap(n=n):
                g = n.generators[0]
                lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
                n.elt = name('v_')
                g.target = name('v_', ast.Store())
                g.iter = ast.Call(name('map'), [lam, g.iter], [])
            rule('map', n, tomap)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, bytes, str)) and not isinstance(n.value, bool) and n.value not in ('', b''):
            pass
    # constants to module level
    owners = []
    for n in ast.walk(fn):
        if isinstance(n, (ast.JoinedStr,)):
            continue
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.Constant) and isinstance(v.value, (int, bytes, str)) and not isinstance(v.value, bool):
                if not isinstance(n, (ast.Expr, ast.FormattedValue, ast.JoinedStr)):
                    owners.append((n, f, None, v))
            elif isinstance(v, list) and not isinstance(n, ast.JoinedStr):
                for q, x in enumerate(v):
                    if isinstance(x, ast.Constant) and isinstance(x.value, (int, bytes, str)) and not isinstance(x.value, bool):
                        owners.append((n, f, q, x))
    for n, f, q, v in owners:
        def tomod(n=n, f=f, q=q, v=v):
            k = next((i for i, s in enumerate(tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(tree.body))
            tree.body.insert(k, assign('_K_', v))
            if q is None:
                setattr(n, f, name('_K_'))
            else:
                getattr(n, f)[q] = name('_K_')
        rule('constant to module', v, tomod)
    # rename a local
    if not nested:
        for x in names(fn.body, ast.Store):
            if x in params(fn) or x in compnames:
                continue

            def ren(x=x):
                for n in ast.walk(fn):
                    if isinstance(n, ast.Name) and n.id == x:
                        n.id = x + '_renamed'
                    if isinstance(n, ast.ExceptHandler) and n.name == x:
                        n.name = x + '_renamed'
            rule('rename ' + x, fn, ren)
    # extraction of statements
    b = fn.body
    if not nested and not has(b, (ast.Yield, ast.YieldFrom)):
        for i in range(len(b)):
            before = (set(params(fn)) | bound(b[:i])) - ({'super'})
            if has(b[i:], ast.Call) and any(isinstance(x, ast.Name) and x.id == 'super' for s in b[i:] for x in ast.walk(s)):
                continue
            ins = [x for x in names(b[i:], ast.Load) if x in local and x in before]
            bad = [x for x in names(b[i:], ast.Load) if x in local and x not in before and x not in bound(b[i:]) and x not in compnames]
            late = [x for x in names(b[:i], ast.Store) if x not in before and x in names(b[i:], ast.Load)]
            if not late and not (i == 0 and fn.args.defaults is None):
                def tail(i=i, ins=ins):
                    body = fn.body[i:]
                    helper(tree, '_tail_', ins, body)
                    fn.body[i:] = [ast.Return(ast.Call(name('_tail_'), [name(x) for x in ins], []))]
                rule('extract tail', b[i], tail)
            for j in range(i + 1, min(i + 5, len(b) + 1)):
                blk = b[i:j]
                if has(blk, (ast.Return,)) or loopfree_jump(blk):
                    continue
                stores = [x for x in names(blk, ast.Store) if x not in compnames]
                outs = [x for x in stores if x in names(b[j:], ast.Load)]
                ok = bound(blk)
                if any(x not in ok and x not in before for x in outs):
                    continue
                inn = [x for x in names(blk, ast.Load) + [o for o in outs if o not in ok] if x in before and x in local]
                inn = list(dict.fromkeys(inn))
                if late:
                    continue

                def part(i=i, j=j, inn=inn, outs=outs):
                    body = fn.body[i:j]
                    ret = name(outs[0]) if len(outs) == 1 else ast.Tuple([name(o) for o in outs], ast.Load())
                    if outs:
                        body = body + [ast.Return(ret)]
                    helper(tree, '_part_', inn, body)
                    call = ast.Call(name('_part_'), [name(x) for x in inn], [])
                    if not outs:
                        st = ast.Expr(call)
                    elif len(outs) == 1:
                        st = assign(outs[0], call)
                    else:
                        st = ast.Assign([ast.Tuple([name(o, ast.Store()) for o in outs], ast.Store())], call)
                    fn.body[i:j] = [st]
                rule('extract %d' % (j - i), b[i], part)
    # extraction of an expression
    if not nested:
        for owner, blk in blocks(fn):
            for j, s in enumerate(blk):
                v = getattr(s, 'value', None)
                if isinstance(s, (ast.Return, ast.Assign)) and v is not None and not isinstance(v, (ast.Name, ast.Constant)) and not any(x.id == 'super' for x in ast.walk(v) if isinstance(x, ast.Name)):
                    ins = [x for x in names([v], ast.Load) if x in local and x not in (names([v], ast.Store))]

                    def expr(s=s, ins=ins):
                        helper(tree, '_expr_', ins, [ast.Return(s.value)])
                        s.value = ast.Call(name('_expr_'), [name(x) for x in ins], [])
                    rule('extract expression', s, expr)
    return out


def judge(job):
    mod, path, k, line, what, keys = job
    src = Sources(ROOTS)
    src.trees = dict(SRC.trees)
    src.paths = dict(SRC.paths)
    tree = copy.deepcopy(SRC.tree(mod))
    fn = find(tree, path)
    strip_doc(fn)
    ms = rewrites(tree, fn)
    ms[k][2]()
    ast.fix_missing_locations(tree)
    src.trees[mod] = tree
    try:
        compile(tree, mod, 'exec')
    except Exception as e:
        return dict(where=mod + '.' + '.'.join(path), line=line, what=what, verdict='broken', by=str(e))
    und = []
    for key in keys:
        try:
            r = obl.decide(src, table.OBS[key], limit=20)
        except Exception as e:
            und.append(key + ' ' + type(e).__name__ + str(e)[:100])
            continue
        if r.verdict == 'violation':
            return dict(where=mod + '.' + '.'.join(path), line=line, what=what, verdict='violation', by=key, k=k)
        if r.verdict != 'proved':
            und.append('{} {} {}'.format(key, r.verdict, r.detail)[:200])
    return dict(where=mod + '.' + '.'.join(path), line=line, what=what, verdict='undecided' if und else 'proved', by=und[:3], k=k)


def main():
    out, filt, cap = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else ''), int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
    for m in SRC.all_modules('bit') + SRC.all_modules('spec'):
        SRC.tree(m)
    rnd = random.Random(2)
    jobs = []
    own = {}
    for k, o in table.OBS.items():
        own.setdefault(o.code, []).append(k)
    with multiprocessing.Pool(8, maxtasksperchild=20) as pool:
        users = {}
        for k, fs in pool.imap_unordered(mutate.base, list(table.OBS)):
            for f in fs:
                users.setdefault(f, []).append(k)
        for m, q, node in rules.functions(SRC):
            if filt and filt not in q:
                continue
            path = q[len(m) + 1:].split('.')
            keys = own.get(q, []) + [k for k in users.get(q, []) if k not in own.get(q, [])][:6]
            if not keys:
                continue
            tree = copy.deepcopy(SRC.tree(m))
            fn = find(tree, path)
            strip_doc(fn)
            ms = rewrites(tree, fn)
            idx = list(range(len(ms)))
            if len(idx) > cap:
                idx = sorted(rnd.sample(idx, cap))
            jobs += [(m, path, k, ms[k][0], ms[k][1], keys[:8]) for k in idx]
        print(len(jobs), 'rewrites', flush=True)
        n = {}
        t = time.time()
        with open(out, 'w') as f:
            for r in pool.imap_unordered(judge, jobs, chunksize=4):
                if r:
                    n[r['verdict']] = n.get(r['verdict'], 0) + 1
                    f.write(json.dumps(r) + '\n')
        print(n, round(time.time() - t))


if __name__ == '__main__':
    main()
