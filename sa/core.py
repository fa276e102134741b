"""Abstract interpreter: statements, scoping, merging (if-conversion)."""
import ast
from terms import *
from program import *


class State:
    __slots__ = ('store', 'guard', 'dead')

    def __init__(self, store=None, guard=TRUE):
        self.store = store if store is not None else {}
        self.guard = guard
        self.dead = False

    def copy(self):
        s = State(dict(self.store), self.guard)
        s.dead = self.dead
        return s

    def fork(self, c):
        s = self.copy()
        s.guard = And([self.guard, c])
        if s.guard is FALSE:
            s.dead = True
        return s

    def become(self, o):
        self.store = o.store
        self.guard = o.guard
        self.dead = o.dead


class Frame:
    _n = 0
    __slots__ = ('id', 'finfo', 'scope', 'module', 'locals', 'globs', 'nonl', 'exits', 'is_class')

    def __init__(self, fid, scope, module, finfo=None):
        self.id = fid
        self.finfo = finfo
        self.scope = scope
        self.module = module
        self.locals = set()
        self.globs = set()
        self.nonl = set()
        self.exits = []
        self.is_class = False


class Event:
    __slots__ = ('callee', 'args', 'kwargs', 'guard', 'loops', 'result', 'line', 'where', 'seq', 'tries', 'store')

    def __repr__(self):
        return 'Event({} {} | {} @{}:{})'.format(show(self.callee, 3), [show(a, 3) for a in self.args],
                                                 show(self.guard, 4), self.where, self.line)


def conj(g):
    if g is TRUE:
        return ()
    return g.args if g.op == 'and' else (g,)


def rel(g, base):
    b = set(conj(base))
    return And([c for c in conj(g) if c not in b])


class Core:
    def __init__(self, sources, boundaries=(), opaque_props=(), spec_of=None, max_depth=40):
        self.src = sources
        self.boundaries = set(boundaries)
        self.opaque_props = set(opaque_props)
        self.spec_of = spec_of or {}
        self.base = {}
        self.loaded = {}
        self.funcs = {}
        self.classes = {}
        self.events = []
        self.recording = True
        self.trystack = []
        self.callstack = []
        self.loopstack = []
        self.owner = {}
        self.prov = {}
        self.mut_globals = set()
        self.mut_cls = set()
        self._uid = 0
        self.module_mode = False
        self.fields_of = {}
        self.max_depth = max_depth
        self.steps = 0
        self.analysed = set()
        self.extcount = 0

    def uid(self):
        self._uid += 1
        return self._uid

    # ------------------------------------------------------------- modules --
    def load(self, mod):
        if mod in self.loaded:
            return
        self.loaded[mod] = 'partial'
        tree = self.src.tree(mod)
        # globals reassigned from functions are symbolic everywhere
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                _, g, _ = assigned_names(fn)
                for n in g:
                    self.mut_globals.add((mod, n))
            if isinstance(fn, ast.ClassDef):
                for m in fn.body:
                    if isinstance(m, ast.FunctionDef) and m.args.args:
                        a0 = m.args.args[0].arg
                        iscm = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in m.decorator_list)
                        for x in ast.walk(m):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                                    isinstance(x.value, ast.Name):
                                if (iscm and x.value.id == a0) or x.value.id == fn.name:
                                    self.mut_cls.add((mod + '.' + fn.name, x.attr))
                            if iscm and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                                    x.func.id == 'setattr' and len(x.args) == 3 and isinstance(x.args[0], ast.Name) and \
                                    x.args[0].id == a0:
                                if isinstance(x.args[1], ast.Constant):
                                    self.mut_cls.add((mod + '.' + fn.name, x.args[1].value))
                                else:
                                    for s in fn.body:
                                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and \
                                                isinstance(s.value, (ast.List, ast.Tuple)) and \
                                                s.targets[0].id != 'IGNORED_ERRORS':
                                            self.mut_cls.add((mod + '.' + fn.name, s.targets[0].id))
        old = (self.module_mode, self.recording, self.trystack, self.callstack, self.loopstack)
        self.module_mode, self.recording, self.trystack, self.callstack, self.loopstack = True, False, [], [], []
        try:
            fr = Frame('M:' + mod, (), mod)
            st = State({})
            self.exec_module_body(tree.body, st, fr)
            self.base.update(st.store)
        finally:
            self.module_mode, self.recording, self.trystack, self.callstack, self.loopstack = old
        self.loaded[mod] = 'done'

    def exec_module_body(self, body, st, fr):
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            try:
                self.exec(s, st, fr)
            except Undecided as e:
                # a module-level statement without a summary: its targets are unknown
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        st.store[('v', fr.id, n.id)] = mk('unknown', fr.module + '.' + n.id, str(e))
            # make definitions visible to circular importers
            for k, v in st.store.items():
                self.base[k] = v

    def get(self, st, key):
        v = st.store.get(key)
        if v is None:
            v = self.base.get(key)
        return v

    def modvar(self, mod, name, st=None):
        if not self.src.has(mod):
            return ext(mod + '.' + name)
        self.load(mod)
        key = ('v', 'M:' + mod, name)
        if (mod, name) in self.mut_globals and not self.module_mode:
            q = mod + '.' + name
            v = st.store.get(('g', q)) if st is not None else None
            if v is not None:
                return v
            return mk('glob', q)
        v = None
        if st is not None:
            v = st.store.get(key)
        if v is None:
            v = self.base.get(key)
        if v is None:
            if self.src.has(mod + '.' + name):
                return mk('mod', mod + '.' + name)
            return None
        if v.op == 'imp':
            return self.resolve_imp(v, st)
        return v

    def resolve_imp(self, v, st):
        mod, name = v.args
        if self.src.has(mod):
            r = self.modvar(mod, name, st)
            if r is None:
                if self.src.has(mod + '.' + name):
                    return mk('mod', mod + '.' + name)
                raise Undecided('cannot resolve import {} from {}'.format(name, mod))
            return r
        return canon_ext(mod + '.' + name)

    # --------------------------------------------------------------- names --
    def lookup(self, name, st, fr):
        if name in fr.globs:
            v = self.modvar(fr.module, name, st)
            if v is not None:
                return v
        if name in fr.locals and name not in fr.nonl:
            v = self.get(st, ('v', fr.id, name))
            if v is not None:
                return v
            return mk('unbound', name)
        if fr.id.startswith('M:') or fr.is_class:
            v = self.get(st, ('v', fr.id, name))
            if v is not None:
                if v.op == 'imp':
                    return self.resolve_imp(v, st)
                return v
        for f in fr.scope:
            v = self.get(st, ('v', f, name))
            if v is not None:
                if v.op == 'imp':
                    return self.resolve_imp(v, st)
                return v
        v = self.modvar(fr.module, name, st)
        if v is not None:
            return v
        return canon_ext(name)

    def assign_name(self, name, val, st, fr):
        if name in fr.globs:
            q = fr.module + '.' + name
            st.store[('g', q)] = val
            self.note_write(('g', q), val, st)
            return
        if name in fr.nonl:
            for f in fr.scope:
                if self.get(st, ('v', f, name)) is not None:
                    st.store[('v', f, name)] = val
                    self.note_write(('v', f, name), val, st)
                    return
        st.store[('v', fr.id, name)] = val

    def note_write(self, key, val, st):
        pass

    # --------------------------------------------------------------- merge --
    def default(self, key):
        k = key[0]
        if k == 'a':
            return mk('attr', key[1], key[2])
        if k == 'c':
            return mk('list', spread(key[1]))
        if k == 'd':
            return mk('dict', mk('kvspread', key[1]))
        if k == 'g':
            return mk('glob', key[1])
        if k == 'ca':
            return mk('clsattr', key[1], key[2])
        if k == 'n':
            return C(0)
        if k == 'q':
            return mk('attr', mk('elem', key[1], 0), key[2])
        if k == 'v':
            return mk('unbound', key[2])
        return None

    def merge(self, c, s1, s2, parent_guard=None, g1=None, g2=None):
        """state equal to s1 where c holds and to s2 elsewhere"""
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        if parent_guard is not None and s1.guard is g1 and s2.guard is g2:
            guard = parent_guard
        else:
            guard = Or([s1.guard, s2.guard])
        a, b = s1.store, s2.store
        if a is b:
            out = a
        else:
            out = dict(a)
            for k, v in b.items():
                u = a.get(k)
                if u is v:
                    continue
                out[k] = self.merge_val(c, k, u, v)
            for k, u in a.items():
                if k not in b:
                    out[k] = self.merge_val(c, k, u, None)
        r = State(out, guard)
        return r

    def merge_val(self, c, k, u, v):
        if u is None or v is None:
            d = self.base.get(k)
            if d is None:
                d = self.default(k)
            if d is None:
                return u if v is None else v
            if u is None:
                u = d
            else:
                v = d
            if u is v:
                return u
        return self.merge_term(c, u, v)

    def merge_term(self, c, u, v):
        if u is v:
            return u
        if u.op == 'list' and v.op == 'list':
            return merge_lists(c, u, v)
        if u.op == 'dict' and v.op == 'dict':
            return merge_dicts(c, u, v)
        if u.op == 'inst' and v.op == 'inst' and u.args[0] == v.args[0]:
            fu, fv = dict(u.args[1]), dict(v.args[1])
            names = sorted(set(fu) | set(fv))
            return mk('inst', u.args[0], tuple((n, ite(c, fu.get(n, mk('unbound', n)), fv.get(n, mk('unbound', n))))
                                               for n in names))
        return ite(c, u, v)

    def merge_exits(self, exits, base_guard):
        """[(value, state)] with disjoint guards -> (value, state)"""
        val, st = exits[-1]
        st = st.copy()
        for v, s in reversed(exits[:-1]):
            c = rel(s.guard, base_guard)
            c = self.minimise(c, rel(st.guard, base_guard))
            st = self.merge(c, s, st)
            if v is not None and val is not None:
                val = ite(c, v, val)
        return val, st

    def minimise(self, c, other):
        """drop from c the conjuncts shared with `other` (they cannot tell the two apart)"""
        oc = set(conj(other))
        cc = [x for x in conj(c) if x not in oc]
        return And(cc) if cc else c

    # ---------------------------------------------------------- statements --
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            self.exec(s, st, fr)

    def exec(self, s, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided('analysis budget exceeded')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement {} at line {}'.format(type(s).__name__, s.lineno))
        m(s, st, fr)

    def x_Pass(self, s, st, fr):
        pass

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st, fr)

    def x_Import(self, s, st, fr):
        for a in s.names:
            nm = (a.asname or a.name.split('.')[0])
            full = a.name if a.asname else a.name.split('.')[0]
            st.store[('v', fr.id, nm)] = mk('mod', full) if self.src.has(full) else canon_ext(full)

    def x_ImportFrom(self, s, st, fr):
        mod = s.module or ''
        if s.level:
            parts = fr.module.split('.')
            if not self.src.is_pkg(fr.module):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                if self.src.has(mod):
                    self.load(mod)
                    for k, v in list(self.base.items()):
                        if k[0] == 'v' and k[1] == 'M:' + mod and not k[2].startswith('_'):
                            st.store[('v', fr.id, k[2])] = v
                continue
            st.store[('v', fr.id, a.asname or a.name)] = mk('imp', mod, a.name)
            if not fr.id.startswith('M:'):
                st.store[('v', fr.id, a.asname or a.name)] = self.resolve_imp(mk('imp', mod, a.name), st)

    def x_Global(self, s, st, fr):
        pass

    x_Nonlocal = x_Global

    def x_FunctionDef(self, s, st, fr):
        v = self.make_function(s, st, fr)
        self.assign_name(s.name, v, st, fr)

    def make_function(self, s, st, fr, cls=None):
        kind_ = 'plain'
        decos = []
        for d in s.decorator_list:
            if isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property'):
                kind_ = d.id
            elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                kind_ = 'setter'
            else:
                decos.append(d)
        scope = ()
        if not fr.id.startswith('M:') and not fr.is_class:
            scope = (fr.id,) + tuple(fr.scope)
        elif fr.is_class:
            scope = tuple(fr.scope)
        q = (cls + '.' + s.name) if cls else (fr.module + '.' + s.name if fr.id.startswith('M:')
                                             else (fr.finfo.qual if fr.finfo else fr.module) + '.<locals>.' + s.name)
        fi = FuncInfo(q, s, fr.module, scope, cls, kind_)
        fi.owner_frame = fr.id
        fi.defaults = tuple(self.eval(d, st, fr) for d in s.args.defaults)
        fi.kwdefaults = {a.arg: self.eval(d, st, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        if scope:
            t = mk('clo', q, self.uid())
        else:
            t = mk('func', q)
        self.funcs[t] = fi
        v = t
        for d in reversed(decos):
            dv = self.eval(d, st, fr)
            if dv.op in ('func', 'clo'):
                v = self.call(dv, [v], {}, st, fr, s)
            elif dv.op == 'call' and callee_name(dv) in ('functools.wraps',):
                pass
            elif dv.op == 'ext' and dv.args[0] in ('functools.lru_cache', 'functools.cache') or \
                    dv.op == 'call' and callee_name(dv) in ('functools.lru_cache', 'functools.cache'):
                v = mk('memo', v)
            else:
                v = mk('decorated', dv, v)
        return v

    def x_ClassDef(self, s, st, fr):
        q = fr.module + '.' + s.name
        bases = [self.eval(b, st, fr) for b in s.bases]
        ci = ClassInfo(q, s, fr.module, bases)
        self.classes[q] = ci
        cf = Frame('C:%s:%d' % (q, self.uid()), tuple(fr.scope) + (() if fr.id.startswith('M:') else (fr.id,)), fr.module)
        cf.is_class = True
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                ci.ns[b.name] = self.make_function(b, st, cf, q)
                st.store[('v', cf.id, b.name)] = ci.ns[b.name]
            elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                pass
            else:
                before = {k for k in st.store if k[0] == 'v' and k[1] == cf.id}
                self.exec(b, st, cf)
                for k in list(st.store):
                    if k[0] == 'v' and k[1] == cf.id:
                        ci.ns[k[2]] = st.store[k]
        flds = set()
        for b in ast.walk(s):
            if isinstance(b, ast.Attribute) and isinstance(b.ctx, ast.Store) and isinstance(b.value, ast.Name) \
                    and b.value.id == 'self':
                flds.add(b.attr)
        sl = ci.ns.get('__slots__')
        if sl is not None and sl.op in ('tuple', 'list'):
            flds |= {x.args[0] for x in sl.args if x.op == 'const'}
        self.fields_of[q] = flds
        v = mk('cls', q)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, fr)
            if dv.op in ('func', 'clo'):
                v = self.call(dv, [v], {}, st, fr, s)
        self.assign_name(s.name, v, st, fr)

    def x_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        if st.dead:
            return
        fr.exits.append(('return', v, st.copy(), None))
        st.dead = True

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st, fr)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.eval(s.value, st, fr)
            if not st.dead:
                self.assign(s.target, v, st, fr)

    def x_AugAssign(self, s, st, fr):
        load = _as_load(s.target)
        cur = self.eval(load, st, fr)
        v = self.eval(s.value, st, fr)
        if st.dead:
            return
        if isinstance(s.op, ast.Add) and cur.op == 'ref' and is_listkind(kind(cur)) and self.is_list_ref(cur, st):
            self.list_extend(cur, v, st, fr)
            return
        if isinstance(s.op, ast.Add) and self.symlist(cur, st):
            self.list_extend(cur, v, st, fr)
            return
        r = self.binop(type(s.op).__name__, cur, v, st, fr, s)
        self.assign(s.target, r, st, fr)

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.store[('v', fr.id, t.id)] = mk('unbound', t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                self.del_item(o, t.slice, st, fr)
            else:
                raise Undecided('del')

    def x_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.dead:
            return
        self.branch(c, st, lambda x: self.exec_block(s.body, x, fr), lambda x: self.exec_block(s.orelse, x, fr))

    def branch(self, c, st, f, g):
        c = self.under(c, st.guard)
        if c is TRUE:
            f(st)
            return
        if c is FALSE:
            g(st)
            return
        s1, s2 = st.fork(c), st.fork(Not(c))
        g1, g2, pg = s1.guard, s2.guard, st.guard
        if not s1.dead:
            f(s1)
        if not s2.dead:
            g(s2)
        if s1.dead and s2.dead:
            st.dead = True
            return
        st.become(self.merge(c, s1, s2, pg, g1, g2))

    def under(self, c, guard):
        """simplify a condition with the facts of the path condition"""
        if c in (TRUE, FALSE):
            return c
        facts = conj(guard)
        if c in facts:
            return TRUE
        if Not(c) in facts:
            return FALSE
        if facts and c.op in ('and', 'or'):
            r = And([guard, c])
            if r is FALSE:
                return FALSE
            if r is guard:
                return TRUE
        for f in facts:
            v = implied(f, c)
            if v is not None:
                return TRUE if v else FALSE
        return c

    def cond(self, node, st, fr):
        v = self.eval(node, st, fr)
        return self.truth(v, st)

    def x_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.dead:
            return

        def fail(x):
            self.raise_(mk('exc', 'AssertionError'), x, fr)
        self.branch(c, st, lambda x: None, fail)

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            v = self.get(st, ('v', fr.id, '%exc')) or mk('exc', '?')
        else:
            v = self.eval(s.exc, st, fr)
            if st.dead:
                return
            v = self.to_exc(v)
        self.raise_(v, st, fr)

    def to_exc(self, v):
        if v.op == 'ext':
            return mk('exc', exc_name(v.args[0]))
        if v.op == 'cls':
            return mk('exc', v.args[0])
        if v.op in ('exc', 'excsym'):
            return v
        if v.op == 'call' and v.args[0].op == 'ext':
            return mk('exc', exc_name(v.args[0].args[0]))
        if v.op == 'ref' and isinstance(kind(v), str) and kind(v).startswith('inst:'):
            return mk('exc', kind(v)[5:])
        if v.op == 'ite':
            return v
        return mk('exc', '?')

    def raise_(self, exc, st, fr):
        fr.exits.append(('raise', exc, st.copy(), None))
        st.dead = True

    def x_Break(self, s, st, fr):
        fr.exits.append(('break', None, st.copy(), None))
        st.dead = True

    def x_Continue(self, s, st, fr):
        fr.exits.append(('continue', None, st.copy(), None))
        st.dead = True

    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk('entered', v), st, fr)
        self.exec_block(s.body, st, fr)

    # ---------------------------------------------------------------- try ---
    def handler_classes(self, h, st, fr):
        if h.type is None:
            return None
        v = self.eval(h.type, st, fr)
        return self.exc_classes(v, st)

    def exc_classes(self, v, st):
        v = self.freeze(v, st)
        if v.op in ('tuple', 'list'):
            out = []
            for x in v.args:
                r = self.exc_classes(x, st)
                if r is None:
                    return None
                out.extend(r)
            return tuple(out)
        if v.op == 'ext':
            n = exc_name(v.args[0])
            return None if n in ('Exception', 'BaseException') else (n,)
        if v.op == 'cls':
            return (v.args[0],)
        return (v,)

    def exc_issub(self, a, b):
        """is exception class a a subclass of b?  None if unknown"""
        if isinstance(b, T) or isinstance(a, T):
            return None
        if a == b:
            return True
        if a == '?':
            return None
        if b in ('Exception', 'BaseException'):
            return True
        if a in self.classes:
            for p in self.classes[a].bases:
                n = exc_name(p.args[0]) if p.op == 'ext' else p.args[0]
                if self.exc_issub(n, b):
                    return True
            return False
        if a not in EXC_PARENTS:
            return None if b in EXC_PARENTS else False
        return any(self.exc_issub(p, b) for p in EXC_PARENTS[a])

    def exc_matches(self, exc, classes):
        """condition under which an explicit exception value matches a handler"""
        if classes is None:
            return TRUE
        if exc.op == 'ite':
            return ite(exc.args[0], self.exc_matches(exc.args[1], classes), self.exc_matches(exc.args[2], classes))
        if exc.op == 'excsym':
            return mk('raises', exc.args[0], self.canon_classes(classes))
        conds = []
        for c in classes:
            r = self.exc_issub(exc.args[0], c)
            if r:
                return TRUE
            if r is None:
                conds.append(mk('excmatch', exc, c if isinstance(c, T) else C(c)))
        return Or(conds)

    def canon_classes(self, classes):
        if classes is None:
            return ('*',)
        cs = list(dict.fromkeys(classes))
        out = []
        for c in cs:
            if any(d is not c and d != c and self.exc_issub(c, d) for d in cs):
                continue
            out.append(c)
        return tuple(sorted(out, key=lambda c: c if isinstance(c, str) else '~' + c.dig.hex()))

    def x_Try(self, s, st, fr):
        tid = self.uid()
        hs = [self.handler_classes(h, st, fr) for h in s.handlers]
        start = len(fr.exits)
        base_guard = st.guard
        if hs:
            self.trystack.append((tid, hs, fr))
        try:
            self.exec_block(s.body, st, fr)
        finally:
            if hs:
                self.trystack.pop()
        inner = fr.exits[start:]
        del fr.exits[start:]
        pend = [[] for _ in hs]
        for ex in inner:
            kind_, v, es, target = ex
            if kind_ == 'exc':
                if target[0] == tid:
                    pend[target[1]].append((v, es))
                else:
                    fr.exits.append(ex)
            elif kind_ == 'raise':
                rest = es
                for i, cl in enumerate(hs):
                    m = self.under(self.exc_matches(v, cl), rest.guard)
                    if m is FALSE:
                        continue
                    hit = rest.fork(m)
                    if not hit.dead:
                        pend[i].append((v, hit))
                    rest = rest.fork(Not(m))
                    if rest.dead:
                        break
                if not rest.dead:
                    fr.exits.append(('raise', v, rest, None))
            else:
                fr.exits.append(ex)
        if s.orelse and not st.dead:
            self.exec_block(s.orelse, st, fr)
        outs = [st] if not st.dead else []
        for i, h in enumerate(s.handlers):
            if not pend[i]:
                continue
            v, hs_ = self.merge_exits(pend[i], base_guard)
            hs_.dead = False
            if h.name:
                hs_.store[('v', fr.id, h.name)] = v
            hs_.store[('v', fr.id, '%exc')] = v
            self.exec_block(h.body, hs_, fr)
            if not hs_.dead:
                outs.append(hs_)
        if not outs:
            res = st.copy()
            res.dead = True
        elif len(outs) == 1:
            res = outs[0]
        else:
            _, res = self.merge_exits([(None, o) for o in outs], base_guard)
        if s.finalbody:
            if not res.dead:
                self.exec_block(s.finalbody, res, fr)
            for n in range(start, len(fr.exits)):
                k_, v_, s_, t_ = fr.exits[n]
                s2 = s_.copy()
                self.exec_block(s.finalbody, s2, fr)
                fr.exits[n] = (k_, v_, s2, t_)
        st.become(res)

    RISKY_ONLY_EXT = True

    def may_raise(self, term, st, fr, what='call', classes=None, when=None, exc=None):
        """`term` is evaluated inside try blocks: add the exceptional exits."""
        if not self.trystack or self.module_mode:
            return
        for tid, hs, tfr in reversed(self.trystack):
            for i, cl in enumerate(hs):
                if exc is not None and cl is not None and not any(
                        isinstance(c, T) or self.exc_issub(exc, c) for c in cl):
                    continue
                if what == 'item' and cl is not None and not any(
                        isinstance(c, T) or self.exc_issub('KeyError', c) or self.exc_issub('IndexError', c) for c in cl):
                    continue
                if what == 'item' and cl is None:
                    continue
                cond = when if when is not None else mk('raises', term, self.canon_classes(cl))
                cond = self.under(cond, st.guard)
                if cond is FALSE:
                    continue
                x = st.fork(cond)
                if not x.dead:
                    fr.exits.append(('exc', mk('excsym', term), x, (tid, i)))
                n = st.fork(Not(cond))
                st.become(n)
                if st.dead:
                    return
                if cl is None:
                    return


def implied(f, c):
    """does fact f decide atom c?  True/False/None"""
    nf, nc = False, False
    if f.op == 'not':
        nf, f = True, f.args[0]
    if c.op == 'not':
        nc, c = True, c.args[0]
    r = _imp(f, nf, c)
    if r is None:
        return None
    return r != nc


def _imp(f, nf, c):
    if f is c:
        return not nf
    # bounds on the same linear form
    bf, bc = bound_of(f), bound_of(c)
    if bf and bc and bf[0] is bc[0]:
        kf, vf = bf[1], bf[2]
        kc, vc = bc[1], bc[2]
        if kf == 'gt':
            if not nf:      # x > vf
                if kc == 'gt' and vc <= vf:
                    return True
                if kc == 'eq' and vc <= vf:
                    return False
            else:           # x <= vf
                if kc == 'gt' and vc >= vf:
                    return False
                if kc == 'eq' and vc > vf:
                    return False
        elif kf == 'eq' and not nf:
            if kc == 'gt':
                return vf > vc
            if kc == 'eq':
                return vf == vc
    # equality with different constants
    if f.op == 'eq' and c.op == 'eq' and not nf:
        for x, y in (f.args, f.args[::-1]):
            for u, v in (c.args, c.args[::-1]):
                if x is u and y.op == 'const' and v.op == 'const' and y is not v:
                    if y.args[0] != v.args[0]:
                        return False
                if x is u and y.op == 'const' and v.op == 'const' and type(y.args[0]) != type(v.args[0]):
                    return False
    if f.op == 'isnone' and not nf:
        x = f.args[0]
        if c.op == 'truth' and c.args[0] is x:
            return False
        if c.op == 'eq' and x in c.args:
            return False
        if c.op == 'isinst' and c.args[0] is x:
            return False
        if c.op == 'gt0' and False:
            return False
    if f.op == 'truth' and not nf:
        x = f.args[0]
        if c.op == 'isnone' and c.args[0] is x:
            return False
        if c.op == 'eq' and x in c.args:
            o = c.args[0] if c.args[1] is x else c.args[1]
            if o.op == 'const' and not o.args[0]:
                return False
    if f.op == 'truth' and nf:
        x = f.args[0]
        if c.op == 'eq' and x in c.args:
            o = c.args[0] if c.args[1] is x else c.args[1]
            if o.op == 'const' and o.args[0]:
                return False
        if c.op == 'in' and c.args[1] is x:
            return False
        if c.op == 'exists' and c.args[0] is x:
            return False
    if c.op == 'truth' and f.op == 'exists' and not nf and f.args[0] is c.args[0]:
        return True
    if c.op == 'truth' and f.op == 'in' and not nf and f.args[1] is c.args[0]:
        return True
    if f.op == 'eq' and not nf:
        for x, y in (f.args, f.args[::-1]):
            if y.op == 'const':
                if c.op == 'truth' and c.args[0] is x:
                    return bool(y.args[0])
                if c.op == 'isnone' and c.args[0] is x:
                    return False
    if f.op == 'isinst' and c.op == 'isinst' and f.args[0] is c.args[0] and not nf:
        a, b = f.args[1], c.args[1]
        prim = {'str', 'bytes', 'int', 'list', 'dict', 'set', 'tuple', 'float'}
        if a != b and (a in prim or b in prim) and {a, b} != {'int', 'bool'}:
            return False
    if f.op == 'isinst' and c.op == 'isnone' and f.args[0] is c.args[0] and not nf:
        return False
    return None


def bound_of(t):
    if t.op == 'gt0' or (t.op == 'eq' and t.args[1] is C(0) and is_num(t.args[0])):
        p = to_poly(t.args[0])
        k0 = p.pop((), 0)
        if not p:
            return None
        return (from_poly(p), 'gt' if t.op == 'gt0' else 'eq', -Fraction(k0))
    return None


def _as_load(n):
    import copy
    m = copy.copy(n)
    m.ctx = ast.Load()
    return m


def merge_lists(c, u, v):
    a, b = list(u.args), list(v.args)
    pre = []
    while a and b and a[0] is b[0]:
        pre.append(a.pop(0))
        b.pop(0)
    suf = []
    while a and b and a[-1] is b[-1]:
        suf.insert(0, a.pop())
        b.pop()
    if len(a) == len(b) and a and all(x.op not in ('each', 'opt', 'spread') for x in a + b):
        mid = [ite(c, x, y) for x, y in zip(a, b)]
    else:
        mid = list(opt(c, a)) + list(opt(Not(c), b))
    return mklist(pre + mid + suf)


def merge_dicts(c, u, v):
    a, b = list(u.args), list(v.args)
    pre = []
    while a and b and a[0] is b[0]:
        pre.append(a.pop(0))
        b.pop(0)
    ka = [e.args[0] for e in a if e.op == 'kv']
    kb = [e.args[0] for e in b if e.op == 'kv']
    if len(ka) == len(a) and len(kb) == len(b) and set(ka) == set(kb) and len(set(ka)) == len(ka):
        db = {e.args[0]: e.args[1] for e in b}
        return mkdict(pre + [mk('kv', e.args[0], ite(c, e.args[1], db[e.args[0]])) for e in a])
    out = pre
    for e in a:
        out.append(guard_entry(c, e))
    for e in b:
        out.append(guard_entry(Not(c), e))
    return mkdict(out)


EXT_ALIAS = {
    'requests.api.get': 'requests.get', 'requests.api.post': 'requests.post',
    'decimal.Decimal': 'decimal.Decimal', 'hashlib.sha256': 'hashlib.sha256',
    'coincurve.keys.PrivateKey': 'coincurve.PrivateKey', 'coincurve.keys.PublicKey': 'coincurve.PublicKey',
    'coincurve.utils.verify_signature': 'coincurve.verify_signature',
    'coincurve.keys.verify_signature': 'coincurve.verify_signature',
    'builtins.open': 'open',
}


def canon_ext(name):
    if name.startswith('builtins.'):
        name = name[9:]
    name = EXT_ALIAS.get(name, name)
    name = exc_name(name)
    if name in ('True', 'False', 'None'):
        return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
    if name == 'requests.codes.ok' or name == 'http.HTTPStatus.OK':
        return C(200)
    if name in ('requests.codes.not_found', 'http.HTTPStatus.NOT_FOUND'):
        return C(404)
    if name in ('requests.codes.bad_request', 'http.HTTPStatus.BAD_REQUEST'):
        return C(400)
    if name in ('requests.codes.internal_server_error', 'requests.codes.server_error',
                'http.HTTPStatus.INTERNAL_SERVER_ERROR'):
        return C(500)
    return ext(name)
