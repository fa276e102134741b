"""Abstract interpreter: expressions, heap, attributes."""
import ast
from terms import *
from program import *
from core import Core, State, Frame, Event, conj, rel, canon_ext, _as_load

# terms whose parts are the objects themselves
HOLDERS = {'ite', 'opt', 'kvopt', 'each', 'list', 'tuple', 'dict', 'kv', 'inst', 'with', 'ret', 'upd', 'pair', 'setof', 'effects', 'call',
           'kveach', 'var', 'first', 'last', 'loopval', 'loopend', 'zip'}
SEGOPS = ('each', 'opt', 'spread')


class EvalMixin:
    # ----------------------------------------------------------------- heap --
    def new(self, st, knd, content):
        oid = self.uid()
        r = mk('ref', oid, knd)
        st.store[('h', oid)] = content
        self.owner[oid] = self.loopstack[-1][:2] if self.loopstack else None
        return r

    def hget(self, ref, st):
        return self.get(st, ('h', ref.args[0]))

    def hset(self, ref, content, st):
        st.store[('h', ref.args[0])] = content

    def is_list_ref(self, v, st):
        return v.op == 'ref' and v.args[1] in ('list', 'set', 'deque')

    def symlist(self, v, st):
        return v.op not in ('ref', 'list', 'const', 'cat', 'tuple') and (is_listkind(kind(v)) or ('c', v) in st.store)

    def content(self, v, st):
        """list structure of a sequence value, or None"""
        if v.op == 'ref':
            if v.args[1] in ('list', 'set', 'deque'):
                return self.hget(v, st)
            return None
        if v.op == 'list':
            return v
        if v.op == 'tuple':
            return mk('list', *v.args)
        c = st.store.get(('c', v))
        if c is not None:
            return c
        return None

    def seq(self, v, st):
        """like content, but a symbolic sequence becomes spread(v)"""
        c = self.content(v, st)
        if c is not None and v.op == 'ref' and v.args[1] == 'set':
            return members(self.freeze(c, st))
        if c is not None:
            return c
        if v.op == 'ite':
            return merge_seq(v.args[0], self.seq(v.args[1], st), self.seq(v.args[2], st))
        if v.op == 'const' and isinstance(v.args[0], (bytes, str)):
            return mk('list', *[C(x) for x in v.args[0]])
        if v.op == 'ref' and v.args[1] == 'dict':
            return self.dict_keys(v, st)
        if v.op == 'dict':
            return self.dict_keys(v, st)
        if v.op == 'ref':
            v = self.freeze(v, st)
        return mk('list', spread(v))

    def dict_content(self, v, st):
        if v.op == 'ref' and v.args[1] == 'dict':
            return self.hget(v, st)
        if v.op == 'dict':
            return v
        return st.store.get(('d', v))

    @staticmethod
    def simple_keys(d):
        ks = [e.args[0] for e in d.args if e.op == 'kv']
        return len(ks) == len(d.args) and (len(ks) < 2 or all(is_const(k) for k in ks)) or \
            len(d.args) == 1 and d.args[0].op in ('kvopt', 'kvspread')

    def dict_keys(self, v, st):
        d = self.dict_content(v, st)
        if not self.simple_keys(d):
            return mk('list', spread(mk('dkeys', self.freeze(d, st))))
        segs = []
        for e in d.args:
            if e.op == 'kv':
                segs.append(e.args[0])
            elif e.op == 'kvopt':
                segs.extend(opt(e.args[0], (e.args[1],)))
            elif e.op == 'kveach':
                it, k, g, kk, vv = e.args
                s = each(it, k, opt(g, (kk,)))
                if s is not None:
                    segs.append(s)
            elif e.op == 'kvspread':
                segs.append(spread(e.args[0]))
            else:
                raise Undecided('dict keys')
        return mk('list', *segs)

    def dict_items(self, v, st, which='items'):
        d = self.dict_content(v, st)
        if d is None:
            it = mk('dictitems', v)
            e = mk('elem', it, 0)
            a, b = mk('item', e, C(0)), mk('item', e, C(1))
            x = {'items': Tup([a, b]), 'keys': a, 'values': b}[which]
            return mk('list', mk('each', it, 0, (x,)))
        if not self.simple_keys(d):
            d = self.freeze(d, st)
            ks = mk('dkeys', d)
            k = mk('elem', ks, 0)
            v = dict_get(d, k)
            return mk('list', mk('each', ks, 0, ({'items': Tup([k, v]), 'keys': k, 'values': v}[which],)))
        segs = []
        for e in d.args:
            if e.op == 'kv':
                segs.append({'items': Tup(e.args), 'keys': e.args[0], 'values': e.args[1]}[which])
            elif e.op == 'kvopt':
                segs.extend(opt(e.args[0], ({'items': Tup(e.args[1:]), 'keys': e.args[1], 'values': e.args[2]}[which],)))
            elif e.op == 'kveach':
                it, k, g, kk, vv = e.args
                s = each(it, k, opt(g, ({'items': Tup([kk, vv]), 'keys': kk, 'values': vv}[which],)))
                if s is not None:
                    segs.append(s)
            elif e.op == 'kvspread':
                segs.extend(self.dict_items(e.args[0], st, which).args)
            else:
                raise Undecided('dict items')
        return mk('list', *segs)

    def freeze(self, v, st, memo=None):
        """replace heap references by the structures they denote now"""
        if memo is None:
            memo = {}
        return self._fz(v, st, memo, 0)

    def _fz(self, v, st, memo, depth, val=True):
        """val: v stands for the object itself (its contents now), not for what was read from it"""
        if not isinstance(v, T):
            if isinstance(v, tuple):
                return tuple(self._fz(x, st, memo, depth, val) for x in v)
            return v
        if not val:
            memo = memo.setdefault(None, {})
        if v in memo:
            return memo[v]
        if v.op in ('const', 'sym', 'ext', 'func', 'cls', 'glob', 'cell', 'clo'):
            return v
        if depth > 400:
            raise Undecided('cyclic structure')
        if v.op == 'ref':
            if v.args[0] <= self._fz_min:
                return v
            c = self.hget(v, st)
            if c is None:
                return v
            memo[v] = v
            if v.args[1] == 'list' or v.args[1] == 'deque':
                r = self._fz(c, st, memo, depth + 1)
            elif v.args[1] == 'set':
                r = mk('setof', self._fz(c, st, memo, depth + 1))
            elif v.args[1] == 'dict':
                r = self._fz(c, st, memo, depth + 1)
            elif c.op == 'inst':
                q = c.args[0]
                q = self.spec_of.get(q, q)
                r = mk('inst', q, tuple((n, self._fz(x, st, memo, depth + 1)) for n, x in c.args[1]))
            else:
                r = self._fz(c, st, memo, depth + 1)
            memo[v] = r
            return r
        cc = st.store.get(('c', v))
        if cc is not None and v.op != 'list' and val:
            memo[v] = v
            r = self._fz(cc, st, memo, depth + 1)
            memo[v] = r
            return r
        if not has_ref(v):
            return v
        changed = False
        args = []
        outer = val and v.op in HOLDERS
        for n, a in enumerate(v.args):
            b = self._fz(a, st, memo, depth + 1, outer and not (n == 0 and v.op in ('ite', 'opt', 'kvopt', 'each')))
            changed = changed or b is not a
            args.append(b)
        r = rebuild(v.op, args) if changed else v
        memo[v] = r
        return r

    # ----------------------------------------------------------------- eval --
    def eval(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression {} at line {}'.format(type(n).__name__, getattr(n, 'lineno', '?')))
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        if n.value is Ellipsis:
            return ANY
        if isinstance(n.value, complex):
            return mk('const', str(n.value))
        return C(n.value)

    def e_Name(self, n, st, fr):
        v = self.lookup(n.id, st, fr)
        if not self.module_mode and (v.op == 'unbound' or v.op == 'ite' and unset(v)):
            return self.need_bound(v, st, fr)
        return v

    def need_bound(self, v, st, fr):
        """reading a local before it is assigned fails"""
        if v.op == 'unbound':
            self.raise_(mk('exc', 'UnboundLocalError'), st, fr)
            return v
        def when(x):
            if x.op == 'unbound':
                return TRUE
            return ite(x.args[0], when(x.args[1]), when(x.args[2])) if x.op == 'ite' and unset(x) else FALSE

        def rest(x):
            if x.op != 'ite' or not unset(x):
                return x
            a, b = rest(x.args[1]), rest(x.args[2])
            return b if a.op == 'unbound' else a if b.op == 'unbound' else ite(x.args[0], a, b)
        self.branch(when(v), st, lambda x: self.raise_(mk('exc', 'UnboundLocalError'), x, fr), lambda x: None)
        return rest(v)

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Tuple(self, n, st, fr):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                c = self.seq(v, st)
                if any(s.op in SEGOPS for s in c.args):
                    return self.new(st, 'list', mklist(items + list(c.args)))
                items.extend(c.args)
            else:
                items.append(self.eval(e, st, fr))
        return Tup(items)

    def e_List(self, n, st, fr):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.seq(self.eval(e.value, st, fr), st).args)
            else:
                segs.append(self.eval(e, st, fr))
        return self.new(st, 'list', mk('list', *segs))

    def e_Set(self, n, st, fr):
        return self.new(st, 'set', mk('list', *[self.eval(e, st, fr) for e in n.elts]))

    def e_Dict(self, n, st, fr):
        ents = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st, fr)
                dc = self.dict_content(d, st)
                if dc is None:
                    ents.append(mk('kvspread', d))
                else:
                    ents.extend(dc.args)
            else:
                kk = self.eval(k, st, fr)
                ents.append(mk('kv', kk, self.eval(v, st, fr)))
        return self.new(st, 'dict', mkdict(ents))

    def e_Lambda(self, n, st, fr):
        q = (fr.finfo.qual if fr.finfo else fr.module) + '.<lambda>'
        scope = (fr.id,) + tuple(fr.scope)
        if fr.id.startswith('M:'):
            scope = ()
        fi = FuncInfo(q, n, fr.module, scope)
        fi.defaults = tuple(self.eval(d, st, fr) for d in n.args.defaults)
        fi.kwdefaults = {a.arg: self.eval(d, st, fr) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        t = mk('clo', q, self.uid())
        self.funcs[t] = fi
        return t

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.eval(v.value, st, fr)
                if v.conversion in (114, 97):
                    x = mk('repr', self.freeze(x, st))
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, st, fr)
                parts.append(self.fmt(x, spec, st))
        return cat(parts, 'str')

    def fmt(self, x, spec, st):
        x = self.freeze(x, st)
        if spec is not None and spec.op == 'const':
            r = fmt_(x, spec.args[0])
            if r is not None:
                return r
        if spec is not None and spec is not ES:
            return mk('fmt', x, spec)
        return to_str(x)

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        if st.dead:
            return NONE
        return self.choose(c, st, lambda s: self.eval(n.body, s, fr), lambda s: self.eval(n.orelse, s, fr))

    def choose(self, c, st, f, g):
        c = self.under(c, st.guard)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        s1, s2 = st.fork(c), st.fork(Not(c))
        g1, g2, pg = s1.guard, s2.guard, st.guard
        v1 = f(s1) if not s1.dead else NONE
        v2 = g(s2) if not s2.dead else NONE
        if s1.dead and s2.dead:
            st.dead = True
            return NONE
        st.become(self.merge(c, s1, s2, pg, g1, g2))
        if s1.dead:
            return v2
        if s2.dead:
            return v1
        return self.merge_refs(c, v1, v2, st)

    def merge_refs(self, c, v1, v2, st):
        """choice between two values; two fresh lists become one fresh list"""
        if v1.op == 'ref' and v2.op == 'ref' and v1 is not v2 and v1.args[1] == v2.args[1] == 'list':
            return self.new(st, 'list', self.merge_term(c, self.hget(v1, st), self.hget(v2, st)))
        return ite(c, v1, v2)

    def e_BoolOp(self, n, st, fr):
        isor = isinstance(n.op, ast.Or)

        def go(vals, s):
            v = self.eval(vals[0], s, fr)
            if len(vals) == 1 or s.dead:
                return v
            c = self.truth(v, s)
            if isor:
                return self.choose(c, s, lambda x: v, lambda x: go(vals[1:], x))
            return self.choose(c, s, lambda x: go(vals[1:], x), lambda x: v)
        r = go(n.values, st)
        return r

    def truth(self, v, st):
        if v.op == 'ref':
            c = self.hget(v, st)
            if v.args[1] in ('list', 'set', 'deque'):
                return list_nonempty(c) if c.op == 'list' else truth(self.freeze(c, st))
            if v.args[1] == 'dict':
                if not c.args:
                    return FALSE
                if any(e.op == 'kv' for e in c.args):
                    return TRUE
                return truth(self.freeze(v, st))
            return TRUE
        cc = st.store.get(('c', v))
        if cc is not None:
            return list_nonempty(cc) if cc.op == 'list' else truth(cc)
        if v.op == 'ite':
            return ite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
        return truth(v)

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return Not(self.truth(v, st))
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return sub(neg(v), C(1))

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.binop(type(n.op).__name__, a, b, st, fr, n)

    def binop(self, op, a, b, st, fr, n=None):
        if op == 'Add':
            if self.is_list_ref(a, st) or self.is_list_ref(b, st) or a.op == 'list' or b.op == 'list':
                return self.new(st, 'list', mklist(list(self.seq(a, st).args) + list(self.seq(b, st).args)))
            if a.op == 'tuple' and b.op == 'tuple':
                return Tup(a.args + b.args)
            return plus(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if kind(x) in ('bytes', 'str'):
                    return repeat(x, y)
                if self.is_list_ref(x, st):
                    return self.new(st, 'list', repeat(self.hget(x, st), y))
            return in_decimal(mul(a, b))
        if op == 'Div':
            if poly_const(b) is None and kind(a) in ('int', 'bool') and kind(b) in ('int', 'bool'):
                # a quotient of two integers is a binary float (dividing amounts by a constant is exact enough)
                return mk('float', div(a, b))
            return in_decimal(div(a, b))
        if op == 'FloorDiv':
            return floordiv(a, b)
        if op == 'Mod':
            if kind(a) == 'str':
                return self.percent(a, b, st)
            return mod(a, b)
        if op == 'Pow':
            return pow_(a, b)
        if op == 'BitAnd':
            return bitand(a, b)
        if op == 'BitOr':
            if kind(a) == 'bool' and kind(b) == 'bool':
                return Or([truth(a), truth(b)])
            return bitop('bitor', a, b)
        if op == 'BitXor':
            return bitop('bitxor', a, b)
        if op == 'LShift':
            return shl(a, b)
        if op == 'RShift':
            return shr(a, b)
        raise Undecided('operator ' + op)

    def percent(self, a, b, st):
        if a.op != 'const':
            return mk('pct', a, self.freeze(b, st))
        args = list(b.args) if b.op == 'tuple' else [b]
        parts, i, s = [], 0, a.args[0]
        cur = ''
        while i < len(s):
            if s[i] == '%' and i + 1 < len(s):
                if s[i + 1] == '%':
                    cur += '%'
                elif s[i + 1] in 'sdi' and args:
                    parts.append(C(cur))
                    cur = ''
                    parts.append(to_str(self.freeze(args.pop(0), st)))
                elif s[i + 1] == 'x' and args:
                    parts.append(C(cur))
                    cur = ''
                    parts.append(self.fmt(args.pop(0), C('x'), st))
                else:
                    return mk('pct', a, self.freeze(b, st))
                i += 2
                continue
            cur += s[i]
            i += 1
        parts.append(C(cur))
        return cat(parts, 'str')

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        conds = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            conds.append(self.compare(type(op).__name__, left, right, st, fr, n))
            left = right
        return And(conds)

    def compare(self, op, a, b, st, fr, n):
        if op in ('Eq', 'NotEq'):
            r = self.eq(a, b, st, fr, n)
            return r if op == 'Eq' else Not(r)
        if op in ('Is', 'IsNot'):
            if a is NONE or b is NONE:
                r = isnone(b if a is NONE else a)
            elif a in (TRUE, FALSE) or b in (TRUE, FALSE):
                r = eq(a, b)
            elif a is b:
                r = TRUE
            elif a.op in ('cls', 'ext', 'func') and b.op in ('cls', 'ext', 'func'):
                r = FALSE
            else:
                r = self.eq(a, b, st, fr, n)
            return r if op == 'Is' else Not(r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a, st)
            return r if op == 'In' else Not(r)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'LtE':
            return le(a, b)
        if op == 'GtE':
            return le(b, a)
        raise Undecided('comparison ' + op)

    def eq(self, a, b, st, fr, n):
        for x, y in ((a, b), (b, a)):
            if x.op == 'typeof' and y.op in ('ext', 'cls'):
                return isinst(x.args[0], y.args[0])
        ka = kind(a)
        if isinstance(ka, str) and ka.startswith('inst:'):
            q = ka[5:]
            f, _ = self.find_in_class(q, '__eq__')
            if f is not None and f.op in ('func', 'clo'):
                return self.truth(self.call(mk('bound', a, f), [b], {}, st, fr, n), st)
        return eq(self.freeze(a, st), self.freeze(b, st))

    def contains(self, cont, x, st):
        if cont.op == 'ite':
            return ite(cont.args[0], self.contains(cont.args[1], x, st), self.contains(cont.args[2], x, st))
        d = self.dict_content(cont, st)
        x = self.freeze(x, st)
        if d is not None:
            return in_(x, self.freeze(d, st))
        c = self.content(cont, st)
        if c is not None:
            if x.op == 'typeof':
                return Or([isinst(x.args[0], e.args[0]) if e.op in ('ext', 'cls') else eq(x, e) for e in c.args])
            return in_(x, self.freeze(c, st))
        if cont.op == 'setof':
            return in_(x, cont.args[0])
        return in_(x, self.freeze(cont, st))

    # ---------------------------------------------------------- subscripts --
    def e_Subscript(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        if isinstance(n.slice, ast.Slice):
            lo, hi, step = [self.eval(x, st, fr) if x is not None else NONE for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return self.slice(o, lo, hi, step, st)
        i = self.eval(n.slice, st, fr)
        if st.dead:
            return NONE
        if i.op == 'sliceobj':
            return self.slice(o, i.args[0], i.args[1], i.args[2], st)
        r = self.getitem(o, i, st, fr)
        if o.op == 'ref' and o.args[1] == 'list' and r.op in ('inst', 'item', 'elem', 'with', 'loopval'):
            self.prov[r] = (o, i)
        return r

    def slice(self, o, lo, hi, step, st):
        if o.op == 'ite':
            return ite(o.args[0], self.slice(o.args[1], lo, hi, step, st), self.slice(o.args[2], lo, hi, step, st))
        c = self.content(o, st)
        if c is not None and o.op != 'tuple':
            if lo is NONE and hi is NONE and step is NONE:
                return self.new(st, 'list', c)
            if poly_const(step) == -1 if step is not NONE else False:
                if lo is NONE and hi is NONE:
                    return self.new(st, 'list', reverse_list(c))
            base = unspread(c)
            r = slice_(base, lo, hi, step)
            if r.op != 'list':
                r = mk('list', spread(r))
            return self.new(st, 'list', r)
        if is_listkind(kind(o)):
            r = slice_(o, lo, hi, step)
            return r if r is not o else self.new(st, 'list', mk('list', spread(o)))
        return slice_(o, lo, hi, step)

    def getitem(self, o, i, st, fr):
        if o.op == 'ite':
            return ite(o.args[0], self.getitem(o.args[1], i, st, fr), self.getitem(o.args[2], i, st, fr))
        d = self.dict_content(o, st)
        if d is not None:
            i = self.freeze(i, st)
            if d.args and not self.module_mode and const_leaves(i) and all(e.op == 'kv' and e.args[0].op == 'const' for e in d.args):
                have = in_(i, mk('list', *[e.args[0] for e in d.args]))
                if have is not TRUE:
                    # the key is absent
                    self.branch(have, st, lambda x: None, lambda x: self.raise_(mk('exc', 'KeyError'), x, fr))
                    if st.dead:
                        return NONE
            r = self.dict_lookup(d, i, st)
            if not (r.op == 'const' or d.args and all(e.op == 'kv' and e.args[0].op == 'const' for e in d.args) and i.op == 'const'):
                fd = self.freeze(o, st)
                when = None
                if fd.op == 'dict' and all(e.op in ('kv', 'kvopt', 'kveach') for e in fd.args):
                    when = Not(in_(i, fd))
                self.may_raise(mk('item', fd, i), st, fr, 'item', when=when, exc='KeyError' if when is not None else None)
            return r
        c = self.content(o, st)
        if c is not None:
            r = self.list_item(c, i, st)
            return r
        if o.op == 'ref':
            return mk('item', self.freeze(o, st), self.freeze(i, st))
        r = self.item_of(o, self.freeze(i, st), st)
        if r.op == 'item':
            self.may_raise(r, st, fr, 'item')
        return r

    def item_of(self, o, i, st):
        if o.op == 'last':
            it, k, g, v = o.args
            return mk('last', it, k, g, item(v, i))
        if o.op in ('sorted', 'slice') and i.op == 'idx' and i.args[0] is o:
            return mk('elem', o, i.args[1])
        return item(o, i)

    def dict_lookup(self, d, i, st):
        each_e = [e for e in d.args if e.op == 'kveach']
        if each_e and len(d.args) == 1:
            it, k, g, kk, vv = d.args[0].args
            return last_match(it, k, And([g, eq(kk, i)]), vv)
        return dict_get(d, i)

    def list_item(self, c, i, st):
        if c.op != 'list':
            return item(self.freeze(c, st), i)
        r = item(c, i)
        if r.op == 'item' and r.args[0] is c:
            b = unspread(c)
            if b is not c:
                return item(b, i)
            return mk('item', self.freeze(c, st), i)
        return r

    # ----------------------------------------------------------- assignment --
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [j for j, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            c = self.content(v, st)
            if star:
                j = star[0]
                after = n - j - 1
                for a in range(j):
                    self.assign(t.elts[a], self.unpack(v, a, st), st, fr)
                self.assign(t.elts[j].value, self.slice(v, C(j), C(-after) if after else NONE, NONE, st), st, fr)
                for a in range(after):
                    self.assign(t.elts[j + 1 + a], self.unpack(v, a - after, st), st, fr)
                return
            vals = [self.unpack(v, a, st) for a in range(n)]
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            if not st.dead:
                self.setattr(o, t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                lo, hi = [self.eval(x, st, fr) if x is not None else NONE for x in (t.slice.lower, t.slice.upper)]
                if lo in (NONE, C(0)) and hi is NONE and t.slice.step is None:
                    c = self.seq(v, st)
                    if o.op == 'ref':
                        self.hset(o, c, st)
                    else:
                        st.store[('c', o)] = c
                    return
                c = self.content(o, st)
                if c is not None and o.op == 'ref' and lo is not NONE and hi is NONE and sub(lo, length(c)) is C(0):
                    self.hset(o, mklist(list(c.args) + list(self.seq(v, st).args)), st)
                    return
                raise Undecided('slice assignment')
            i = self.eval(t.slice, st, fr)
            if not st.dead:
                self.setitem(o, i, v, st, fr)
        else:
            raise Undecided('assignment target')

    def unpack(self, v, a, st):
        if v.op == 'ite':
            return ite(v.args[0], self.unpack(v.args[1], a, st), self.unpack(v.args[2], a, st))
        c = self.content(v, st)
        if c is not None:
            return self.list_item(c, C(a), st)
        if v.op == 'ref' and isinstance(kind(v), str) and kind(v).startswith('inst:'):
            ci = self.classes.get(kind(v)[5:])
            if ci and ci.fields:
                f = dict(self.hget(v, st).args[1])
                return f[ci.fields[a]]
        return self.item_of(v, C(a), st)

    def setattr(self, o, name, v, st, fr):
        if o.op == 'ite':
            c = o.args[0]
            self.branch(c, st, lambda s: self.setattr(o.args[1], name, v, s, fr),
                        lambda s: self.setattr(o.args[2], name, v, s, fr))
            return
        k = kind(o)
        if isinstance(k, str) and k.startswith('inst:'):
            f, owner = self.find_in_class(k[5:], name)
            if f is not None and f in self.funcs and self.funcs[f].kind in ('property', 'setter'):
                for b in self.classes[owner].node.body:
                    if isinstance(b, ast.FunctionDef) and b.name == name and any(
                            isinstance(d, ast.Attribute) and d.attr == 'setter' for d in b.decorator_list):
                        raise Undecided('property setter ' + name)
        if o.op == 'ref':
            c = self.hget(o, st)
            if c is not None and c.op == 'inst':
                f = dict(c.args[1])
                f[name] = v
                self.hset(o, mk('inst', c.args[0], tuple(sorted(f.items()))), st)
                return
            raise Undecided('attribute store on ' + str(o.args[1]))
        if o.op == 'cls':
            st.store[('ca', o.args[0], name)] = v
            return
        if o.op == 'ext':
            st.store[('g', o.args[0] + '.' + name)] = v
            return
        if o.op == 'mod':
            st.store[('g', o.args[0] + '.' + name)] = v
            self.note_write(('g', o.args[0] + '.' + name), v, st)
            return
        if o in self.prov:
            # a member of a list built here: the list holds the updated object
            lst, i = self.prov[o]
            cur = self.content(lst, st)
            x = o
            if cur.op == 'list' and len(cur.args) == 1 and cur.args[0].op == 'upd' and cur.args[0].args[1] is i:
                x = cur.args[0].args[2]
            self.setitem(lst, i, with_field(x, name, v), st, fr)
        st.store[('a', o, name)] = v

    def setitem(self, o, i, v, st, fr):
        if o.op == 'ite':
            self.branch(o.args[0], st, lambda s: self.setitem(o.args[1], i, v, s, fr),
                        lambda s: self.setitem(o.args[2], i, v, s, fr))
            return
        if o.op == 'ref' and o.args[1] == 'dict':
            c = self.hget(o, st)
            if c.op != 'dict':
                raise Undecided('dict store')
            i = self.freeze(i, st)
            self.hset(o, mkdict([e for e in c.args if not (e.op == 'kv' and e.args[0] is i)] + [mk('kv', i, v)])
                      if all(e.op == 'kv' for e in c.args) and False else mkdict(list(c.args) + [mk('kv', i, v)]), st)
            return
        c = self.content(o, st)
        if c is not None and c.op == 'list':
            ci = poly_const(i) if i.op in ('const', 'poly') else None
            segs = list(c.args)
            if ci is not None and all(s.op not in SEGOPS for s in segs) and -len(segs) <= ci < len(segs):
                segs[int(ci)] = v
                new = mk('list', *segs)
            elif len(segs) == 1 and segs[0].op == 'each' and segs[0].args[0].op == 'cv':
                new = mk('list', mk('upd', segs[0].args[0], i, v))
            elif len(segs) == 1 and segs[0].op == 'each' and i.op == 'idx' and len(segs[0].args[2]) == 1:
                new = mk('list', mk('upd', c, i, v))
            elif len(segs) == 1 and segs[0].op == 'upd':
                new = mk('list', mk('upd', c, i, v)) if segs[0].args[1] is not i else mk('list', mk('upd', segs[0].args[0], i, v))
            else:
                new = mk('list', mk('upd', c, i, v))
            if o.op == 'ref':
                self.hset(o, new, st)
            else:
                st.store[('c', o)] = new
            return
        dc = st.store.get(('d', o)) or mk('dict', mk('kvspread', o))
        if kind(i) == 'str' or not is_listkind(kind(o)):
            st.store[('d', o)] = mkdict(list(dc.args) + [mk('kv', self.freeze(i, st), v)])
            return
        st.store[('c', o)] = mk('list', mk('upd', o, i, v))

    def del_item(self, o, sl, st, fr):
        i = None if isinstance(sl, ast.Slice) else self.eval(sl, st, fr)
        c = self.content(o, st)
        if c is not None and i is not None and o.op == 'ref':
            ci = poly_const(i) if i.op in ('const', 'poly') else None
            if ci is not None and all(s.op not in SEGOPS for s in c.args):
                segs = list(c.args)
                del segs[int(ci)]
                self.hset(o, mk('list', *segs), st)
                return
            if ci == 0:
                self.list_pop(o, C(0), st, fr)
                return
        raise Undecided('del item')

    def list_extend(self, o, v, st, fr):
        add_ = self.seq(v, st)
        cur = self.content(o, st)
        if cur is None:
            cur = mk('list', spread(o))
        if cur.op != 'list' or add_.op != 'list':
            new = mk('list', *(list(_as_segs(cur)) + list(_as_segs(add_))))
        else:
            new = mklist(list(cur.args) + list(add_.args))
        if o.op == 'ref':
            self.hset(o, new, st)
        else:
            st.store[('c', o)] = new

    def list_append(self, o, v, st, fr, left=False):
        cur = self.content(o, st)
        if cur is None:
            cur = mk('list', spread(o))
            if o.op != 'ref' and self.under(truth(o), st.guard) is FALSE:
                cur = mk('list')
        segs = list(_as_segs(cur))
        new = mk('list', *([v] + segs if left else segs + [v]))
        if o.op == 'ref':
            self.hset(o, new, st)
        else:
            st.store[('c', o)] = new

    def list_pop(self, o, i, st, fr):
        cur = self.content(o, st)
        if cur is None:
            cur = mk('list', spread(o))
        segs = list(_as_segs(cur))
        ci = poly_const(i)
        if ci == 0 and segs and segs[0].op not in SEGOPS:
            v, rest = segs[0], segs[1:]
        elif ci == -1 and segs and segs[-1].op not in SEGOPS:
            v, rest = segs[-1], segs[:-1]
        elif ci == 0 and len(segs) == 1 and unspread(cur) is not cur:
            b = unspread(cur)
            v, rest = item(b, C(0)), [spread(slice_(b, C(1), NONE))]
        elif ci == -1 and len(segs) == 1 and unspread(cur) is not cur:
            b = unspread(cur)
            v, rest = item(b, C(-1)), [spread(slice_(b, NONE, C(-1)))]
        else:
            b = choice_base(cur)
            if b is None and ci in (0, -1):
                b = self.freeze(cur, st)
                if b.op != 'list' or any(x.op in ('ref', 'upd') for x in walk(b)):
                    b = None
            if b is None or ci not in (0, -1):
                raise Undecided('pop from a structured list')
            if ci == 0:
                v, rest = item(b, C(0)), [spread(slice_(b, C(1), NONE))]
            else:
                v, rest = item(b, C(-1)), [spread(slice_(b, NONE, C(-1)))]
        new = mk('list', *rest)
        if o.op == 'ref':
            self.hset(o, new, st)
        else:
            st.store[('c', o)] = new
        return v

    # ------------------------------------------------------------ attributes -
    def e_Attribute(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        if st.dead:
            return NONE
        return self.getattr(o, n.attr, st, fr, n)

    def find_in_class(self, q, name, skip_self=False):
        """(value, owner class) following the MRO (left to right, depth first)"""
        ci = self.classes.get(q)
        if ci is None:
            return None, None
        if not skip_self and name in ci.ns:
            return ci.ns[name], q
        for b in ci.bases:
            if b.op == 'cls':
                v, o = self.find_in_class(b.args[0], name)
                if v is not None:
                    return v, o
        return None, None

    def class_known(self, q):
        if q in self.classes:
            return True
        mod = q.rsplit('.', 1)[0]
        if self.src.has(mod):
            self.load(mod)
        return q in self.classes

    def getattr(self, o, name, st, fr, n=None):
        if o.op == 'ite':
            return self.choose(o.args[0], st, lambda s: self.getattr(o.args[1], name, s, fr, n),
                               lambda s: self.getattr(o.args[2], name, s, fr, n))
        if o.op == 'ref':
            c = self.hget(o, st)
            if c is not None and c.op == 'inst':
                for f, v in c.args[1]:
                    if f == name:
                        return v
                return self.class_getattr(o, c.args[0], name, st, fr, n, concrete=True)
            return mk('method', o, name)
        if name == 'ok' and kind(o) == 'inst:requests.Response':
            # an answer is fine unless its status is an error status
            return lt(mk('attr', self.freeze(o, st), 'status_code'), C(400))
        if o.op == 'with':
            if ('a', o, name) in st.store:
                return st.store[('a', o, name)]
            return o.args[2] if o.args[1] == name else self.getattr(o.args[0], name, st, fr, n)
        if o.op == 'inst':
            if ('a', o, name) in st.store:
                return st.store[('a', o, name)]
            for f, v in o.args[1]:
                if f == name:
                    return v
            return self.class_getattr(o, o.args[0], name, st, fr, n, concrete=True)
        if o.op == 'cls':
            q = o.args[0]
            v = st.store.get(('ca', q, name))
            if v is not None:
                return v
            if (q, name) in self.mut_cls and not self.module_mode:
                f, owner = self.find_in_class(q, name)
                return mk('clsattr', q, name)
            self.class_known(q)
            f, owner = self.find_in_class(q, name)
            if f is not None:
                if f in self.funcs:
                    if self.funcs[f].kind == 'classmethod':
                        return mk('bound', o, f)
                    return f
                return f
            if name in ('__name__', '__qualname__'):
                return C(q.rsplit('.', 1)[-1])
            return mk('attr', o, name)
        if o.op == 'mod':
            v = self.modvar(o.args[0], name, st)
            if v is None:
                if self.src.has(o.args[0] + '.' + name):
                    return mk('mod', o.args[0] + '.' + name)
                raise Undecided('no attribute {} in module {}'.format(name, o.args[0]))
            return v
        if o.op == 'ext':
            v = st.store.get(('g', o.args[0] + '.' + name))
            if v is not None:
                return v
            return canon_ext(o.args[0] + '.' + name)
        if o.op == 'super':
            f, owner = self.find_in_class(o.args[0], name, skip_self=True)
            if f is None:
                b = [x for x in self.classes[o.args[0]].bases if x.op == 'ext']
                return mk('method', mk('superext', b[0] if b else NONE, o.args[1]), name)
            return mk('bound', o.args[1], f)
        k = kind(o)
        if isinstance(k, str) and k.startswith('inst:'):
            return self.class_getattr(o, k[5:], name, st, fr, n)
        if k in ('bytes', 'str', 'int', 'decimal', 'tuple', 'list', 'dict') or is_listkind(k):
            return mk('method', o, name)
        v = self.attr_read(o, name, st)
        return v

    def attr_read(self, o, name, st):
        v = st.store.get(('a', o, name))
        if v is not None:
            return v
        if o.op == 'elem':
            it, k = o.args
            r = it
            while True:
                q = st.store.get(('q', r, name))
                if q is not None:
                    return subst(q, {mk('elem', r, 0): o, mk('idx', r, 0): mk('idx', it, k)})
                if r.op in ('slice', 'sorted', 'rev', 'shuffled', 'listof') and isinstance(r.args[0], T):
                    r = r.args[0]
                    continue
                break
        if o.op == 'item':
            q = st.store.get(('q', o.args[0], name))
            if q is not None:
                return subst(q, {mk('elem', o.args[0], 0): o, mk('idx', o.args[0], 0): o.args[1]})
        if o.op == 'last':
            it, k, g, v = o.args
            return mk('last', it, k, g, self.attr_read(v, name, st))
        if o.op == 'first':
            it, k, g, v = o.args
            return first(it, k, g, self.attr_read(v, name, st))
        return mk('attr', o, name)

    def class_getattr(self, o, q, name, st, fr, n, concrete=False):
        self.class_known(q)
        if not concrete:
            if ('a', o, name) in st.store:
                return st.store[('a', o, name)]
        f, owner = self.find_in_class(q, name)
        if f is not None:
            fi = self.funcs.get(f)
            if fi is not None:
                if fi.kind == 'property':
                    oq = owner + '.' + name
                    if name in self.opaque_props or (q + '.' + name) in self.opaque_props or oq in self.opaque_props:
                        return self.attr_read(o, name, st)
                    return self.call(mk('bound', o, f), [], {}, st, fr, n)
                if fi.kind == 'classmethod':
                    return mk('bound', mk('cls', q), f)
                if fi.kind == 'staticmethod':
                    return f
                return mk('bound', o, f)
            if name in self.fields_of.get(q, ()):
                return self.attr_read(o, name, st) if not concrete else mk('unbound', name)
            return f
        known = set()
        stack = [q]
        extbase = False
        while stack:
            x = stack.pop()
            known |= self.fields_of.get(x, set())
            ci = self.classes.get(x)
            if ci:
                for b in ci.bases:
                    if b.op == 'cls':
                        stack.append(b.args[0])
                    else:
                        extbase = True
        if name == '__class__':
            return mk('cls', q)
        if name not in known:
            g, owner = self.find_in_class(q, '__getattr__')
            if g is not None:
                return self.call(mk('bound', o, g), [C(name)], {}, st, fr, n)
            ci = self.classes.get(q)
            if ci is not None and ci.fields and name in ci.fields:
                return item(o, C(ci.fields.index(name)))
            if extbase:
                return mk('method', o, name)
            return self.attr_read(o, name, st)
        return self.attr_read(o, name, st)

    # -------------------------------------------------------- comprehensions -
    def e_ListComp(self, n, st, fr):
        return self.comp(n.generators, n.elt, st, fr, 'list')

    def e_SetComp(self, n, st, fr):
        return self.comp(n.generators, n.elt, st, fr, 'set')

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n.generators, n.elt, st, fr, 'list')

    def e_DictComp(self, n, st, fr):
        return self.comp(n.generators, (n.key, n.value), st, fr, 'dict')

    def comp(self, gens, elt, st, fr, knd):
        cf = Frame('X:%d' % self.uid(), ((fr.id,) if not fr.id.startswith('M:') else ()) + tuple(fr.scope), fr.module, fr.finfo)
        if fr.is_class:
            cf.scope = tuple(fr.scope)
        cf.exits = fr.exits
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    cf.locals.add(x.id)
        acc = self.new(st, 'dict' if knd == 'dict' else knd, mk('dict') if knd == 'dict' else mk('list'))
        self.owner[acc.args[0]] = self.loopstack[-1][:2] if self.loopstack else None

        def level(i, s):
            if i == len(gens):
                if knd == 'dict':
                    k = self.eval(elt[0], s, cf)
                    v = self.eval(elt[1], s, cf)
                    if not s.dead:
                        self.setitem(acc, k, v, s, cf)
                else:
                    v = self.eval(elt, s, cf)
                    if not s.dead:
                        self.list_append(acc, v, s, cf)
                return
            g = gens[i]
            itv = self.eval(g.iter, s, fr if i == 0 else cf)
            if s.dead:
                return

            def body(x):
                def ifs(j, y):
                    if j == len(g.ifs):
                        level(i + 1, y)
                        return
                    c = self.cond(g.ifs[j], y, cf)
                    if y.dead:
                        return
                    self.branch(c, y, lambda z: ifs(j + 1, z), lambda z: None)
                ifs(0, x)
            self.iterate(itv, s, cf, lambda v, x: self.assign(g.target, v, x, cf), body)
        level(0, st)
        return acc

    def e_Starred(self, n, st, fr):
        raise Undecided('starred')

    def e_Slice(self, n, st, fr):
        return mk('sliceobj', *[self.eval(x, st, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def e_Await(self, n, st, fr):
        raise Undecided('await')

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        key = ('v', fr.id, '%yield')
        acc = self.get(st, key)
        if acc is None:
            raise Undecided('yield outside function')
        self.list_append(acc, v, st, fr)
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        acc = self.get(st, ('v', fr.id, '%yield'))
        if acc is None:
            raise Undecided('yield outside function')
        self.list_extend(acc, v, st, fr)
        return NONE


_has_ref = {}


def has_ref(v):
    r = _has_ref.get(v)
    if r is None:
        r = v.op == 'ref' or v.op in ('attr', 'elem', 'sym', 'item', 'clsattr') or any(has_ref(x) for x in subterms(v))
        _has_ref[v] = r
    return r


def choice_base(c):
    """[x* if c] + [y* if not c]  ->  x if c else y"""
    if c.op == 'list' and len(c.args) == 2 and all(s.op == 'opt' and len(s.args) == 2 for s in c.args):
        a, b = c.args
        if a.args[0] is Not(b.args[0]):
            x, y = unspread(mk('list', a.args[1])), unspread(mk('list', b.args[1]))
            return ite(a.args[0], x, y)
    return None


def with_field(o, name, v):
    if o.op == 'inst':
        f = dict(o.args[1])
        f[name] = v
        return mk('inst', o.args[0], tuple(sorted(f.items())))
    if o.op == 'with' and o.args[1] == name:
        return mk('with', o.args[0], name, v)
    return mk('with', o, name, v)


def unspread(c):
    """list(spread(x)) -> x"""
    if c.op == 'list' and len(c.args) == 1 and c.args[0].op == 'each':
        it, k, b = c.args[0].args
        if b == (mk('elem', it, k),):
            return it
    return c


def _as_segs(c):
    if c.op == 'list':
        return c.args
    return (mk('each', c, 0, (mk('elem', c, 0),)),)


def merge_seq(c, a, b):
    from core import merge_lists
    if a.op == 'list' and b.op == 'list':
        return merge_lists(c, a, b)
    return ite(c, a, b)


def reverse_list(c):
    if all(s.op not in SEGOPS for s in c.args):
        return mk('list', *c.args[::-1])
    return mk('list', spread(mk('rev', unspread(c))))


def isinst(x, cname):
    k = kind(x)
    prim = {'str', 'bytes', 'int', 'list', 'dict', 'set', 'tuple', 'float', 'bool'}
    if cname in prim:
        base = 'list' if is_listkind(k) else k
        if base in ('str', 'bytes', 'int', 'list', 'dict', 'tuple', 'float', 'bool', 'none', 'set'):
            if base == 'bool' and cname == 'int':
                return TRUE
            return TRUE if base == cname else FALSE
        if isinstance(k, str) and k.startswith('inst:'):
            return FALSE
    elif k in prim or is_listkind(k):
        return FALSE
    if isinstance(k, str) and k.startswith('inst:') and k[5:] == cname:
        return TRUE
    return mk('isinst', x, cname)


def last_match(it, k, g, v):
    if v.op == 'tuple':
        return Tup([last_match(it, k, g, x) for x in v.args])
    k2, pair = canon_binder(it, k, (g, v))
    return mk('last', it, k2, pair[0], pair[1])
