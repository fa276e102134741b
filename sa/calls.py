"""Abstract interpreter: calls, inlining, instantiation."""
import ast
from terms import *
from program import *
from core import Core, State, Frame, Event, conj, rel, canon_ext


def has_yield(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield
    v = V()
    for s in node.body if isinstance(node.body, list) else [node.body]:
        v.visit(s)
    return v.found


IGNORED_EXT = ('logging.', 'warnings.', 'click.')


def unordered(t):
    """t with the entries of its dictionaries in a fixed order where they have different constant keys"""
    m = {}
    for x in walk(t):
        if x.op == 'dict' and all(e.op == 'kv' and e.args[0].op == 'const' for e in x.args) and \
                len({e.args[0] for e in x.args}) == len(x.args):
            y = mk('dict', *sorted(x.args, key=lambda e: e.args[0].dig))
            if y is not x:
                m[x] = y
    return subst(t, m) if m else t


# functions whose failure is part of the meaning of their callers
CHECKS = {'bit.format.get_version'}


class CallMixin:
    impure_bounds = frozenset()

    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            v = self.lookup('super', st, fr)
            if v.op == 'ext':
                return self.make_super(n, st, fr)
        f = self.eval(n.func, st, fr)
        if st.dead:
            return NONE
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                c = self.seq(v, st)
                if c.op == 'list' and all(s.op not in ('each', 'opt', 'spread', 'upd') for s in c.args):
                    args.extend(c.args)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.eval(a, st, fr))
            if st.dead:
                return NONE
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if st.dead:
                return NONE
            if k.arg is None:
                d = self.dict_content(v, st)
                if d is not None and all(e.op == 'kv' and e.args[0].op == 'const' for e in d.args):
                    for e in d.args:
                        kwargs[e.args[0].args[0]] = e.args[1]
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, fr, n)

    def make_super(self, n, st, fr):
        f = fr
        fi = fr.finfo
        if fi is None or fi.cls is None:
            raise Undecided('super outside method')
        ps = fi.params()[0]
        selfv = self.get(st, ('v', fr.id, ps[0]))
        return mk('super', fi.cls, selfv)

    # -------------------------------------------------------------- dispatch -
    def call(self, f, args, kwargs, st, fr, node):
        op = f.op
        if op == 'ite':
            return self.choose(f.args[0], st, lambda s: self.call(f.args[1], args, kwargs, s, fr, node),
                               lambda s: self.call(f.args[2], args, kwargs, s, fr, node))
        if op in ('func', 'clo'):
            return self.call_function(f, args, kwargs, st, fr, node)
        if op == 'bound':
            return self.call(f.args[1], [f.args[0]] + list(args), kwargs, st, fr, node)
        if op == 'cls':
            return self.instantiate(f, args, kwargs, st, fr, node)
        if op == 'ext':
            return self.ext_call(f.args[0], args, kwargs, st, fr, node)
        if op == 'method':
            return self.method_call(f.args[0], f.args[1], args, kwargs, st, fr, node)
        if op == 'attr':
            o = f.args[0]
            if o.op == 'cls' or o.op == 'ext':
                return self.opaque(f, args, kwargs, st, fr, node, impure=True)
            return self.method_call(o, f.args[1], args, kwargs, st, fr, node)
        if op == 'memo':
            r = self.call(f.args[0], args, kwargs, st, fr, node)
            return r if st.dead else mk('memoised', self.freeze(r, st))
        if op == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + list(args), kw, st, fr, node)
        if op == 'decorated':
            return self.call(f.args[1], args, kwargs, st, fr, node)
        k = kind(f)
        if isinstance(k, str) and k.startswith('inst:'):
            g, owner = self.find_in_class(k[5:], '__call__')
            if g is not None:
                return self.call(mk('bound', f, g), args, kwargs, st, fr, node)
        return self.opaque(f, args, kwargs, st, fr, node, impure=True)

    # ---------------------------------------------------------------- opaque -
    def opaque(self, f, args, kwargs, st, fr, node, impure=True, risky=True, term=None):
        """a call whose body is not analysed: an uninterpreted application"""
        if term is None:
            a = tuple(self.freeze(x, st) for x in args)
            kw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            f = self.freeze(f, st)
            if f.op == 'ext' and f.args[0].startswith(('requests.', 'json.')) or f.op == 'attr' and f.args[1] in ('get', 'post', 'request'):
                # the order of the entries of an object sent to a service is not observable
                a = tuple(unordered(x) for x in a)
                kw = tuple((k, unordered(v)) for k, v in kw)
            t = mk('call', f, a, kw, 0)
        else:
            t = term
            f, a, kw = t.args[0], t.args[1], t.args[2]
        if impure and not self.module_mode:
            key = ('n', t)
            n = self.get(st, key)
            st.store[key] = C(1) if n is None else add(n, C(1))
            if n is not None and n is not C(0):
                nn = poly_const(n)
                t = mk('call', f, a, kw, int(nn) if nn is not None else n)
        self.record(f, a, kw, t, st, fr, node)
        if risky:
            self.may_raise(t, st, fr)
        if f.op == 'func' and f.args[0] in CHECKS and not self.module_mode:
            # called for its refusal: the refusal is an outcome even where the result is not used
            cond = self.under(mk('raises', t, self.canon_classes(('ValueError',))), st.guard)
            if cond is not FALSE:
                x = st.fork(cond)
                if not x.dead:
                    self.raise_(mk('exc', 'ValueError'), x, fr)
                st.become(st.fork(Not(cond)))
        if f.op == 'func' and f.args[0] in RETPAIR and not st.dead:
            # the parts of the result are both None or both present
            x, y = item(t, C(0)), item(t, C(1))
            return ite(isnone(x), Tup([NONE, NONE]), Tup([x, y]))
        return t

    def record(self, f, a, kw, result, st, fr, node):
        if not self.recording or self.module_mode:
            return
        e = Event()
        e.callee, e.args, e.kwargs, e.result = f, a, dict(kw), result
        e.guard = st.guard
        e.loops = tuple(self.loopstack)
        e.line = getattr(node, 'lineno', 0)
        e.where = fr.finfo.qual if fr.finfo else fr.module
        e.seq = len(self.events)
        e.tries = tuple(t[0] for t in self.trystack)
        e.store = None
        self.events.append(e)

    # -------------------------------------------------------------- binding --
    def bind(self, fi, args, kwargs, st):
        pos, vararg, kwonly, kwarg = fi.params()
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        if any(a.op == 'star' for a in args):
            i = [n for n, a in enumerate(args) if a.op == 'star'][0]
            if vararg and i >= len(pos) or vararg and i == len(args) - 1 and i == len(pos):
                rest = []
                for a in args[len(pos):]:
                    if a.op == 'star':
                        rest.extend(self.seq(a.args[0], st).args)
                    else:
                        rest.append(a)
                args = args[:len(pos)]
                out[vararg] = self.new(st, 'list', mklist(rest))
                for n, a in zip(pos, args):
                    out[n] = a
            elif i == len(args) - 1 and not vararg:
                v = args[i].args[0]
                fixed = args[:i]
                for n, a in zip(pos, fixed):
                    out[n] = a
                for j, n in enumerate(pos[i:]):
                    if n in kwargs:
                        break
                    out[n] = self.unpack(v, j, st)
                args = []
            else:
                raise Undecided('star argument')
        else:
            for n, a in zip(pos, args):
                out[n] = a
            if len(args) > len(pos):
                if vararg is None:
                    return None
                out[vararg] = Tup(args[len(pos):])
        if vararg and vararg not in out:
            out[vararg] = Tup([])
        extra = []
        for k, v in list(kwargs.items()):
            if k == '**':
                continue
            if k in pos or k in kwonly:
                if k in out:
                    return None
                out[k] = v
            elif kwarg:
                extra.append(mk('kv', C(k), v))
            else:
                return None
        if '**' in kwargs:
            if kwarg:
                d = self.dict_content(kwargs['**'], st)
                if d is not None:
                    extra = list(d.args) + extra
                else:
                    extra = [mk('kvspread', kwargs['**'])] + extra
            else:
                raise Undecided('** argument')
        if kwarg:
            out[kwarg] = self.new(st, 'dict', mkdict(extra))
        nd = len(fi.defaults)
        for j, n in enumerate(pos):
            if n not in out:
                d = j - (len(pos) - nd)
                if d < 0:
                    return None
                out[n] = fi.defaults[d]
        for n in kwonly:
            if n not in out:
                if n not in fi.kwdefaults:
                    return None
                out[n] = fi.kwdefaults[n]
        return out

    def call_function(self, f, args, kwargs, st, fr, node):
        fi = self.funcs[f]
        q = self.spec_of.get(fi.qual, fi.qual)
        b = self.bind(fi, args, kwargs, st)
        if b is None:
            self.raise_(mk('exc', 'TypeError'), st, fr)
            return NONE
        if q in self.boundaries and not self.module_mode:
            pos, vararg, kwonly, kwarg = fi.params()
            vals = [b[n] for n in pos]
            if vararg:
                vals.append(b[vararg])
            kw = {n: b[n] for n in kwonly}
            if kwarg:
                kw['**'] = b[kwarg]
            return self.opaque(mk('func', q), vals, kw, st, fr, node, impure=q in self.impure_bounds)
        same = sum(1 for x in self.callstack if x == fi.node)
        if self.has_rec(fi) and fi.scope and not self.module_mode:
            return self.recursive(fi, b, st, fr, node, same)
        if same >= 1 and self.has_rec(fi) and same >= 1:
            return self.opaque(mk('recfn', q.rsplit('.', 1)[-1]), [b[n] for n in fi.params()[0]], {}, st, fr, node)
        if len(self.callstack) > self.max_depth or same >= 3:
            raise Undecided('call depth in ' + q)
        return self.inline(fi, b, st, fr, node)

    def recursive(self, fi, b, st, fr, node, same):
        """call of a local recursive function: the term carries its body"""
        pos = fi.params()[0]
        loc, g, nl = assigned_names(fi.node)
        cells = []
        stored = {x.id for x in ast.walk(fi.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for name in sorted(stored & nl):
            for f in fi.scope:
                if self.get(st, ('v', f, name)) is not None:
                    cells.append(('v', f, name))
                    break
        vals = [b[n] for n in pos] + [self.get(st, c) for c in cells]
        if same:
            head = mk('recself')
        else:
            s2 = st.copy()
            b2 = {}
            for i, n in enumerate(pos):
                k = kind(b[n])
                b2[n] = sym('%%p%d' % i, 'list' if is_listkind(k) else k if k in ('int', 'str', 'bytes') else None)
            for i, c in enumerate(cells):
                s2.store[c] = sym('%%n%d' % i, kind(self.get(st, c)))
            s2.guard = TRUE
            f2 = Frame('R%d' % self.uid(), fr.scope, fr.module, fr.finfo)
            ts, self.trystack = self.trystack, []
            try:
                v = self.inline(fi, b2, s2, f2, node)
            finally:
                self.trystack = ts
            if any(k != 'raise' for k, x, s, t in f2.exits):
                raise Undecided('recursive local function')
            body = self.freeze(v, s2) if not s2.dead else NONE
            outs = tuple(self.freeze(self.get(s2, c), s2) for c in cells)
            for k, x, s, t in f2.exits:
                body = ite(s.guard, mk('raise', x.args[0] if x.op == 'exc' else x), body)
            head = mk('recfn', len(pos), body, outs)
        t = self.opaque(head, vals, {}, st, fr, node, risky=False)
        for i, c in enumerate(cells):
            st.store[c] = mk('nlafter', t, i)
        return t

    def has_rec(self, fi):
        nm = getattr(fi.node, 'name', None)
        if nm is None:
            return False
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Call):
                g = x.func
                if isinstance(g, ast.Name) and g.id == nm and not fi.cls:
                    return True
                if isinstance(g, ast.Attribute) and g.attr == nm and fi.cls and isinstance(g.value, ast.Name) and \
                        g.value.id in ('self', 'cls'):
                    return True
        return False

    def inline(self, fi, b, st, fr, node):
        self.analysed.add(fi.qual)
        frame = Frame('F%d:%s' % (self.uid(), fi.qual.rsplit('.', 1)[-1]), fi.scope, fi.module, fi)
        loc, g, nl = assigned_names(fi.node)
        frame.locals = set(loc) | set(b)
        frame.globs, frame.nonl = g, nl
        for n, v in b.items():
            st.store[('v', frame.id, n)] = v
        gen = not isinstance(fi.node, ast.Lambda) and has_yield(fi.node)
        acc = None
        if gen:
            acc = self.new(st, 'list', mk('list'))
            st.store[('v', frame.id, '%yield')] = acc
        nclo = self._uid
        base_guard = st.guard
        self.callstack.append(fi.node)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, st, frame)
                if not st.dead:
                    frame.exits.append(('return', v, st.copy(), None))
                    st.dead = True
            else:
                self.exec_block(fi.node.body, st, frame)
        finally:
            self.callstack.pop()
        if not st.dead:
            frame.exits.append(('return', NONE, st.copy(), None))
        rets = [(acc if gen else v, s) for k, v, s, t in frame.exits if k == 'return']
        others = [x for x in frame.exits if x[0] in ('raise', 'exc')]
        fr.exits.extend(others)
        if not rets:
            st.dead = True
            return NONE
        if len(rets) == 1:
            v, s = rets[0]
        else:
            v, s = self.merge_returns(rets, base_guard)
        if len(rets) > 1:
            if not others:
                s.guard = base_guard
            else:
                s.guard = And([base_guard] + [Not(rel(x[2].guard, base_guard)) for x in others])
        s.dead = False
        # drop the callee's variables unless a closure captured them
        if not self.captures(frame.id, nclo):
            s.store = {k: x for k, x in s.store.items() if not (k[0] == 'v' and k[1] == frame.id)}
        st.become(s)
        if s.guard is FALSE:
            st.dead = True
        return v

    def merge_returns(self, rets, base_guard):
        val, st = rets[-1]
        st = st.copy()
        for v, s in reversed(rets[:-1]):
            c = rel(s.guard, base_guard)
            c = self.minimise(c, rel(st.guard, base_guard))
            st = self.merge(c, s, st)
            if v.op == 'ref' and val.op == 'ref' and v is not val:
                val = self.merge_refs(c, v, val, st)
            else:
                val = ite(c, v, val)
        return val, st

    def captures(self, fid, since):
        for t, fi in list(self.funcs.items())[-200:]:
            if t.op == 'clo' and fid in fi.scope:
                return True
        return False

    # ---------------------------------------------------------- instantiate --
    def instantiate(self, c, args, kwargs, st, fr, node):
        q = c.args[0]
        self.class_known(q)
        ci = self.classes.get(q)
        if ci is None:
            return self.opaque(c, args, kwargs, st, fr, node)
        if self.is_exc_class(q):
            return mk('exc', q)
        if q in self.boundaries and not self.module_mode:
            return self.opaque(c, args, kwargs, st, fr, node, impure=q in self.impure_bounds)
        flds = self.nt_fields(q)
        if flds is not None:
            if len(args) == 1 and args[0].op == 'star' and not kwargs:
                v = self.freeze(args[0].args[0], st)
                args = [item(v, C(n)) for n in range(len(flds))]
            vals = dict(zip(flds, args))
            vals.update(kwargs)
            if set(vals) != set(flds):
                raise Undecided('namedtuple arguments')
            return mk('inst', self.spec_of.get(q, q), tuple((n, vals[n]) for n in sorted(flds)))
        new_, _ = self.find_in_class(q, '__new__')
        if new_ is not None:
            v = self.call(new_, [c] + list(args), kwargs, st, fr, node)
            if v.op == 'ref' and kind(v) == 'inst:' + q:
                raise Undecided('__new__')
            return v
        o = self.new(st, 'inst:' + q, mk('inst', q, ()))
        init, owner = self.find_in_class(q, '__init__')
        if init is not None:
            self.call(mk('bound', o, init), args, kwargs, st, fr, node)
        elif args or kwargs:
            ext_base = [b for b in ci.bases if b.op != 'cls']
            if not ext_base:
                raise Undecided('constructor arguments of ' + q)
        return o

    def nt_fields(self, q):
        ci = self.classes.get(q)
        if ci is None:
            return None
        if ci.fields:
            return ci.fields
        for b in ci.bases:
            if b.op == 'cls':
                r = self.nt_fields(b.args[0])
                if r is not None:
                    return r
        return None

    def is_exc_class(self, q):
        ci = self.classes.get(q)
        if ci is None:
            return False
        for b in ci.bases:
            if b.op == 'ext' and exc_name(b.args[0]) in EXC_PARENTS:
                return True
            if b.op == 'cls' and self.is_exc_class(b.args[0]):
                return True
        return False
