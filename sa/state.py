"""State that outlives a call: which functions give answers that depend on earlier calls?

Cells are module-level and class-level objects that functions change, names rebound with
`global`, variables of decorators and other functions run at import that inner functions
change, mutable default arguments, function attributes and memoising decorators.  A cell is
harmless if it only remembers results that are determined by their key (a sound memo), if it
is never read, or if only configuration functions set it.  The caches of rates and fees are
decided by the history obligations instead.
"""
import ast

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'add', 'discard', 'popitem',
            'sort', 'reverse', 'appendleft', 'popleft', 'move_to_end', '__setitem__', '__delitem__'}
MAKERS = {'dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'bytearray', 'WeakKeyDictionary',
          'WeakValueDictionary', 'SimpleNamespace'}
MEMO = {'lru_cache', 'cache', 'cached_property'}
IMPURE_MODULES = {'requests', 'random', 'secrets', 'time', 'datetime', 'os', 'uuid', 'socket', 'urllib'}
IMPURE_NAMES = {'open', 'input', 'randint', 'shuffle', 'urandom', 'time', 'getrandbits', 'choice', 'sample'}
HISTORY = ('currency_to_satoshi_cached', 'satoshi_to_currency_cached', 'get_fee_cached', 'currency_to_satoshi_local_cached',
           'get_fee_local_cached', 'currency_to_satoshi_local_cache', 'get_fee_local_cache')
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


class Fn:
    def __init__(self, qual, node, module, cls, outer):
        self.qual, self.node, self.module, self.cls, self.outer = qual, node, module, cls, outer
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.glob, self.nonl = set(), set()
        self.own = list(body_nodes(node))
        for n in self.own:
            if isinstance(n, ast.Global):
                self.glob.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonl.update(n.names)
        self.locals = set(self.params) | {n.id for n in self.own if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.locals |= {n.name for n in self.own if isinstance(n, FUNC)}
        self.locals -= self.glob | self.nonl


def body_nodes(fn):
    """nodes of a function without those of nested functions (the nested definitions themselves are included)"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNC):
            stack.extend(n.decorator_list)
            continue
        stack.extend(ast.iter_child_nodes(n))


def chain(n):
    """('a', 'b', 'c') of a.b.c, or None"""
    out = []
    while isinstance(n, ast.Attribute):
        out.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return tuple([n.id] + out[::-1])
    return None


def is_maker(v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        c = chain(v.func)
        return bool(c) and c[-1] in MAKERS
    return False


class State:
    def __init__(self, src):
        self.src = src
        self.fns = {}
        self.by_name = {}
        self.modnames = {}      # module -> names bound at module level
        self.imports = {}       # module -> local name -> (module, name)
        self.classes = {}       # class name -> [(qual, module, node, class-level names)]
        self.persistent = set()  # quals of functions whose variables outlive a call
        for m in src.all_modules('bit'):
            self.scan(m)
        self._impure = {}
        self.cells = {}         # cell -> {'writes': [...], 'reads': set(fn), ...}
        for f in self.fns.values():
            self.accesses(f)
        self.unsound = {}       # function qual -> reason
        self.judge()

    # ------------------------------------------------------------- index --
    def scan(self, m):
        tree = self.src.tree(m)
        names, imps = {}, {}

        def walk(body, cls, outer, prefix):
            for s in body:
                if isinstance(s, FUNC):
                    q = (outer.qual + '.<locals>.' + s.name) if outer else prefix + '.' + s.name
                    f = Fn(q, s, m, cls, outer)
                    self.fns[q] = f
                    self.by_name.setdefault(s.name, []).append(f)
                    for x in f.own:
                        if isinstance(x, FUNC):
                            walk([x], cls, f, prefix)
                elif isinstance(s, ast.ClassDef):
                    cl = {}
                    for b in s.body:
                        for t in targets(b):
                            if isinstance(t, ast.Name):
                                cl[t.id] = getattr(b, 'value', None)
                    self.classes.setdefault(s.name, []).append((prefix + '.' + s.name, m, s, cl))
                    walk(s.body, s.name, outer, prefix + '.' + s.name)
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    for f in ('body', 'orelse', 'finalbody'):
                        walk(getattr(s, f, []), cls, outer, prefix)
                    for h in getattr(s, 'handlers', []):
                        walk(h.body, cls, outer, prefix)
        walk(tree.body, None, None, m)
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom):
                mod = n.module or ''
                if n.level:
                    base = m.split('.') if self.src.is_pkg(m) else m.split('.')[:-1]
                    base = base[:len(base) - n.level + 1]
                    mod = '.'.join(base + ([n.module] if n.module else []))
                for a in n.names:
                    imps[a.asname or a.name] = (mod, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    imps[(a.asname or a.name).split('.')[0]] = (a.name, None)
        for s in tree.body:
            for t in targets(s):
                if isinstance(t, ast.Name):
                    names[t.id] = getattr(s, 'value', None)
        self.modnames[m], self.imports[m] = names, imps
        # functions run at import: decorators and calls in module and class bodies
        for n in ast.walk(tree):
            if isinstance(n, FUNC + (ast.ClassDef,)):
                for d in n.decorator_list:
                    c = chain(d.func if isinstance(d, ast.Call) else d)
                    if c:
                        self.persistent.add(c[-1])
        for n in import_time(tree):
            if isinstance(n, ast.Call):
                c = chain(n.func)
                if c:
                    self.persistent.add(c[-1])

    def resolve(self, m, name):
        """(module, name) a module-level name refers to"""
        seen = set()
        while name not in self.modnames.get(m, {}) and (m, name) not in seen:
            seen.add((m, name))
            r = self.imports.get(m, {}).get(name)
            if r is None or r[1] is None:
                break
            m, name = r
        return m, name

    def cell_of(self, f, c):
        """the persistent object a chain of names used in f refers to, with its depth in the chain"""
        name = c[0]
        if name in f.params:
            if f.cls and name in ('self', 'cls') and len(c) > 1:
                return self.class_cell(f.cls, c[1], name == 'self'), 2
            d = default_of(f, name)
            if d is not None and is_maker(d) and not rebound(f, name):
                return ('default', f.qual, name), 1
            return None, 0
        if name in f.locals:
            return None, 0
        o = f.outer
        while o is not None:
            if name in o.locals and name not in o.nonl | o.glob:
                if o.qual.rsplit('.', 1)[-1] in self.persistent and not (name in o.params):
                    return ('closure', o.qual, name), 1
                return None, 0
            o = o.outer
        if name in self.classes and len(c) > 1:
            return self.class_cell(name, c[1], False), 2
        m, nm = self.resolve(f.module, name)
        if m in self.modnames and nm in self.modnames[m]:
            return ('module', m, nm), 1
        if any(g.qual == m + '.' + nm for g in self.by_name.get(nm, [])) and len(c) > 1:
            return ('function', m + '.' + nm, c[1]), 2
        r = self.imports.get(f.module, {}).get(name)
        if r and r[1] is None and len(c) > 1 and c[1] in self.modnames.get(r[0], {}):
            return ('module', r[0], c[1]), 2
        return None, 0

    def class_cell(self, cls, attr, instance):
        seen, todo = set(), [cls]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for q, m, node, names in self.classes.get(k, []):
                if instance and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr
                                    and isinstance(n.value, ast.Name) and n.value.id == 'self' for n in ast.walk(node)):
                    return None
                if attr in names:
                    return ('class', q, attr)
                todo.extend(c[-1] for c in (chain(b) for b in node.bases) if c)
        return None

    # ---------------------------------------------------------- accesses --
    def accesses(self, f):
        parents = {}
        for n in f.own:
            for x in ast.iter_child_nodes(n):
                parents[x] = n
        for n in f.own:
            if not isinstance(n, (ast.Name, ast.Attribute)):
                continue
            if isinstance(parents.get(n), ast.Attribute):
                continue        # the longest chain only
            c = chain(n)
            if c is None:
                continue
            top = n
            meth = None
            if isinstance(parents.get(n), ast.Call) and parents[n].func is n and len(c) > 1:
                meth, c = c[-1], c[:-1]
                n = n.value
            cell, k = self.cell_of(f, c)
            if cell is None:
                if c[0] in f.glob:
                    cell, k = ('module', f.module, c[0]), 1
                else:
                    continue
            e = self.cells.setdefault(cell, {'writes': [], 'reads': set(), 'init': None})
            p = parents.get(top)
            if len(c) > k:
                # attribute of the object: cell.attr = value
                if isinstance(top.ctx, (ast.Store, ast.Del)) and meth is None:
                    e['writes'].append((f, None, None))
                else:
                    e['reads'].add(f)
                continue
            if meth in MUTATORS:
                call = p
                if meth in ('setdefault', '__setitem__') and len(call.args) == 2:
                    e['writes'].append((f, call.args[0], call.args[1]))
                else:
                    e['writes'].append((f, None, None))
                if not isinstance(parents.get(call), ast.Expr):
                    e['reads'].add(f)
                continue
            if meth is None and isinstance(top.ctx, (ast.Store, ast.Del)):
                st = p
                while st is not None and not isinstance(st, ast.stmt):
                    st = parents.get(st)
                v = st.value if isinstance(st, (ast.Assign, ast.AnnAssign)) and not isinstance(p, (ast.Tuple, ast.List)) else None
                if v is not None and (is_maker(v) and not any(True for _ in ast.iter_child_nodes(v) if isinstance(_, ast.expr))):
                    e['writes'].append((f, None, v))
                else:
                    e['writes'].append((f, None, v))
                continue
            if isinstance(p, ast.Subscript) and p.value is top and isinstance(p.ctx, (ast.Store, ast.Del)):
                st = parents.get(p)
                v = None
                if isinstance(st, ast.Assign) and isinstance(p.ctx, ast.Store):
                    v = st.value
                if isinstance(st, ast.AugAssign) or v is None:
                    e['writes'].append((f, None, None))
                else:
                    e['writes'].append((f, p.slice, v))
                continue
            if isinstance(p, ast.Attribute) or meth is not None or isinstance(getattr(top, 'ctx', None), ast.Load):
                e['reads'].add(f)

    # ------------------------------------------------------------- purity --
    def impure(self, f):
        """why the value of a call of f is not determined by its arguments, or None"""
        if f.qual in self._impure:
            return self._impure[f.qual]
        self._impure[f.qual] = None
        r = None
        for n in f.own:
            if isinstance(n, ast.Call):
                r = r or self.impure_call(f, n)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                r = r or 'changes ' + n.names[0]
        for c, e in getattr(self, 'cells', {}).items():
            if f in e['reads'] and e['writes'] and c[0] != 'default':
                r = r or 'reads ' + c[2]
        for n in f.own:
            if isinstance(n, FUNC):
                g = self.fns.get(f.qual + '.<locals>.' + n.name)
                r = r or (g and self.impure(g))
        self._impure[f.qual] = r
        return r

    def impure_call(self, f, n):
        c = chain(n.func)
        if c is None:
            # method of a computed value: any function of that name in the program
            if isinstance(n.func, ast.Attribute):
                if n.func.attr.startswith('__'):
                    return None
                for g in self.by_name.get(n.func.attr, []):
                    r = self.impure(g)
                    if r:
                        return r
                return None
            return 'calls a computed function'
        r = self.imports.get(f.module, {}).get(c[0])
        if c[0] not in f.locals:
            if r and r[0].split('.')[0] in IMPURE_MODULES or c[0] in IMPURE_NAMES and c[0] not in self.modnames.get(f.module, {}):
                return 'calls ' + '.'.join(c)
            if r and r[1] == 'PrivateKey' and not n.args and not n.keywords:
                return 'makes a key'
        if len(c) == 1:
            o = f.outer
            if c[0] in f.locals and c[0] not in {x.name for x in f.own if isinstance(x, FUNC)}:
                ds = self.defs(f, c[0]) if c[0] not in f.params else []
                if not ds or not all(isinstance(d, ast.Lambda) or isinstance(d, (ast.Name, ast.Attribute)) and (chain(d) or d.__dict__.get('attr')) for d in ds):
                    return 'calls ' + c[0]
                for d in ds:
                    if not isinstance(d, ast.Lambda) and not (isinstance(d, ast.Name) and d.id == c[0]):
                        r = self.impure_call(f, ast.Call(d, [], []))
                        if r:
                            return r
                return None
            while o is not None:
                if c[0] in o.params:
                    return None     # the decorated function, see memo_sound
                o = o.outer
        if c[-1] in ('get', 'post', 'request', 'json') and c[0] in ('requests', 'session'):
            return 'calls ' + '.'.join(c)
        for g in self.by_name.get(c[-1], []):
            if len(c) == 1 and g.cls and not g.outer:
                continue
            x = self.impure(g)
            if x:
                return x
        return None

    # ------------------------------------------------------ dependencies --
    def defs(self, f, name):
        out = []
        for n in f.own:
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.comprehension, ast.NamedExpr)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(x, ast.Name) and x.id == name and not isinstance(getattr(x, 'ctx', None), ast.Load)
                       for t in ts for x in ast.walk(t)):
                    out.append(n.iter if isinstance(n, (ast.For, ast.comprehension)) else n.value)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(i.optional_vars)):
                        out.append(i.context_expr)
        return [x for x in out if x is not None]

    def leaves(self, f, e, seen=()):
        """inputs a value is computed from"""
        out = set()
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Call):
                r = self.impure_call(f, n)
                if r:
                    out.add(('!' + r,))
                if isinstance(n.func, ast.Attribute):
                    stack.append(n.func.value)      # a method may use all of its object
                    c = chain(n.func)
                    if c and c[0] in ('self', 'cls'):
                        out.add((c[0],))
                stack.extend(n.args)
                stack.extend(k.value for k in n.keywords)
                continue
            if isinstance(n, (ast.Attribute, ast.Name)):
                c = chain(n)
                if c is None:
                    stack.append(n.value)
                    continue
                if c[0] in f.params:
                    out.add(c)
                elif c[0] in f.locals:
                    if c[0] in seen:
                        continue
                    for d in self.defs(f, c[0]):
                        out |= self.leaves(f, d, seen + (c[0],))
                else:
                    cell, k = self.cell_of(f, c)
                    o = f.outer
                    free = False
                    while o is not None:
                        free = free or c[0] in o.params
                        o = o.outer
                    if cell is not None and not free and self.cells.get(cell, {}).get('writes'):
                        out.add(('!reads ' + str(cell[2]),))
                continue
            if isinstance(n, ast.Lambda):
                stack.append(n.body)
                continue
            stack.extend(x for x in ast.iter_child_nodes(n) if isinstance(x, (ast.expr, ast.comprehension, ast.keyword)))
        return out

    def parts(self, f, k, seen=()):
        """inputs a key determines"""
        if isinstance(k, ast.Tuple):
            return set().union(set(), *[self.parts(f, x, seen) for x in k.elts])
        c = chain(k)
        if c is not None:
            if c[0] in f.params:
                return {c}
            if c[0] in f.locals and c[0] not in seen and len(c) == 1:
                ds = self.defs(f, c[0])
                return self.parts(f, ds[0], seen + (c[0],)) if len(ds) == 1 else set()
            return set()
        if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and len(k.args) == 1 and not k.keywords and \
                k.func.id in ('tuple', 'bytes', 'frozenset', 'repr'):
            a = k.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'items' and not a.args:
                a = a.func.value
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'sorted' and len(a.args) == 1:
                b = a.args[0]
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == 'items':
                    a = b.func.value
            return self.parts(f, a, seen)
        return set()

    def memo_sound(self, f, key, value):
        """None if the stored value is determined by the key, else the reason why not"""
        if value is None:
            return 'is changed in place'
        need = self.leaves(f, value)
        for l in sorted(need):
            if l[0].startswith('!'):
                return 'remembers a value that ' + l[0][1:]
        if key is None:
            have = set()
            if is_maker(value) and not need:
                return None     # emptied
        else:
            have = self.parts(f, key)
        for l in sorted(need):
            if not any(l[:len(h)] == h for h in have):
                return 'remembers a value that depends on {}, which is not part of its key'.format('.'.join(l))
        if f.outer is not None:
            # the decorated functions are called by the memoising wrapper
            name = f.outer.qual.rsplit('.', 1)[-1]
            for g in self.fns.values():
                for d in g.node.decorator_list:
                    c = chain(d.func if isinstance(d, ast.Call) else d)
                    if c and c[-1] == name:
                        r = self.impure(g)
                        if r:
                            return 'remembers the value of {}, which {}'.format(g.node.name, r)
        return None

    # ------------------------------------------------------------- verdict --
    def setter(self, f, seen=()):
        """a configuration function: the program itself never calls it, or only from such functions"""
        name = f.node.name
        if name.startswith('__') or f.outer is not None:
            return False
        for g in self.fns.values():
            if g is not f and g.qual not in seen and \
                    any(isinstance(n, ast.Call) and (chain(n.func) or ('',))[-1] == name for n in g.own) and \
                    not self.setter(g, seen + (f.qual,)):
                return False
        return True

    def configures(self, cell, e, f, v):
        return f not in e['reads'] and self.setter(f) and v is not None and \
            not any(l[0].startswith('!') for l in self.leaves(f, v))

    def reachable(self, names):
        out, todo = set(), [f for n in names for f in self.by_name.get(n, [])]
        while todo:
            f = todo.pop()
            if f.qual in out:
                continue
            out.add(f.qual)
            for n in f.own:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    todo.extend(g for g in self.by_name.get(n.func.id, []) if g.module == f.module)
                if isinstance(n, FUNC):
                    todo.append(self.fns[f.qual + '.<locals>.' + n.name])
                    for d in n.decorator_list:
                        if isinstance(d, ast.Name):
                            todo.extend(self.by_name.get(d.id, []))
            for d in f.node.decorator_list:
                c = chain(d.func if isinstance(d, ast.Call) else d)
                if c:
                    todo.extend(self.by_name.get(c[-1], []))
        return out

    def judge(self):
        decided = self.reachable(HISTORY)
        for cell, e in sorted(self.cells.items()):
            if not e['writes'] or not e['reads']:
                continue
            users = {f.qual for f in e['reads']} | {f.qual for f, k, v in e['writes']}
            if users <= decided:
                continue
            ws = [(f, k, v) for f, k, v in e['writes'] if not self.configures(cell, e, f, v)]
            if not ws:
                continue
            why = next((w for w in (self.memo_sound(f, k, v) for f, k, v in ws) if w), None)
            if why:
                for f in e['reads']:
                    if f.qual not in decided:
                        self.unsound.setdefault(f.qual, '{} {}'.format(cell[2], why))
        for f in self.fns.values():
            for d in f.node.decorator_list:
                c = chain(d.func if isinstance(d, ast.Call) else d)
                if c and c[-1] in MEMO and self.imports.get(f.module, {}).get(c[0], ('',))[0] == 'functools':
                    r = self.impure(f)
                    if not r and f.cls and f.params[:1] == ['self'] and c[-1] != 'cached_property':
                        r = 'depends on its object'
                    if r:
                        self.unsound.setdefault(f.qual, '{} remembers results of a function that {}'.format(c[-1], r))


def targets(s):
    if isinstance(s, ast.Assign):
        out = []
        for t in s.targets:
            out.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
        return out
    if isinstance(s, (ast.AnnAssign, ast.AugAssign)):
        return [s.target]
    return []


def default_of(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if p.arg == name:
            return d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name:
            return d
    return None


def rebound(f, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in f.own)


def import_time(tree):
    """nodes evaluated when the module is imported"""
    stack = list(tree.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNC):
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            continue
        if isinstance(n, ast.Lambda):
            continue
        stack.extend(ast.iter_child_nodes(n))
