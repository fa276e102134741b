"""Summaries of builtins and of the library functions the repository uses."""
import ast
import string
from terms import *
from program import *
from core import Core, State, Frame, conj, canon_ext
from evalx import isinst, unspread, reverse_list, SEGOPS

PURE_EXT = {
    'json.dumps', 'json.loads', 'coincurve.verify_signature', 'coincurve.ecdsa.der_to_cdata', 'coincurve.Context',
    'coincurve.PublicKey', 'coincurve.PrivateKey.from_hex', 'coincurve.PrivateKey.from_int',
    'coincurve.PrivateKey.from_pem', 'coincurve.PrivateKey.from_der', 're.match', 're.search', 're.fullmatch',
    're.compile', 'operator.itemgetter', 'operator.attrgetter', 'decimal.getcontext', 'urllib.parse.urljoin',
    'urllib.parse.quote', 'base64.b64encode', 'math.log', 'math.log2', 'math.sqrt', 'math.isnan', 'str.maketrans', 'object',
}
# parameter names of library methods (positional and keyword spelling agree)
METHOD_SIG = {
    'format': ['compressed', 'context'], 'sign': ['message', 'hasher', 'custom_nonce'],
    'multiply': ['scalar'], 'verify': ['signature', 'message', 'hasher', 'context'],
}
EXT_SIG = {
    'requests.get': ['url', 'params'], 'requests.post': ['url', 'data', 'json'],
    'coincurve.PrivateKey': ['secret', 'context'], 'coincurve.PublicKey': ['data', 'context'],
    'coincurve.PrivateKey.from_hex': ['hexed', 'context'], 'coincurve.PrivateKey.from_int': ['num', 'context'],
    'coincurve.PrivateKey.from_pem': ['pem', 'context'], 'coincurve.PrivateKey.from_der': ['der', 'context'],
    'coincurve.verify_signature': ['signature', 'message', 'public_key', 'hasher', 'context'],
}
PURE_METHODS = {'json', 'format', 'to_hex', 'to_int', 'to_pem', 'to_der', 'group', 'groups', 'is_set', 'verify', 'point',
                'legacy_repr'}
EXT_KIND = {'time.time': 'float', 'json.dumps': 'str', 'random.randint': 'int', 'random.randrange': 'int',
            'random.random': 'float', 'os.urandom': 'bytes', 'secrets.token_bytes': 'bytes', 'multiprocessing.cpu_count': 'int',
            'coincurve.verify_signature': 'bool', 'input': 'str', 'requests.get': 'inst:requests.Response',
            'coincurve.PrivateKey': 'inst:coincurve.PrivateKey', 'coincurve.PrivateKey.from_hex': 'inst:coincurve.PrivateKey',
            'coincurve.PrivateKey.from_int': 'inst:coincurve.PrivateKey', 'coincurve.PrivateKey.from_pem': 'inst:coincurve.PrivateKey',
            'coincurve.PrivateKey.from_der': 'inst:coincurve.PrivateKey',
            'requests.post': 'inst:requests.Response', 'requests.Session': 'inst:requests.Session'}
CALL_KIND.update(EXT_KIND)


def canon_kw(sig, args, kwargs):
    out = {}
    rest = []
    for i, a in enumerate(args):
        if i < len(sig):
            out[sig[i]] = a
        else:
            rest.append(a)
    if any(k in out for k in kwargs):
        return args, kwargs
    out.update(kwargs)
    pos = []
    for s in sig:
        if s in out and not rest:
            if len(pos) == sig.index(s):
                pos.append(out.pop(s))
            else:
                break
    return pos + rest, out


def join_(sep, segs):
    knd = kind(sep)
    empty = EB if knd == 'bytes' else ES
    if sep in (EB, ES):
        parts = []
        for s in segs:
            if s.op == 'opt':
                parts.append(ite(s.args[0], join_(sep, s.args[1:]), empty))
            elif s.op == 'each':
                it, k, body = s.args
                parts.append(eachcat(it, k, join_(sep, body), knd))
            elif s.op == 'upd':
                return mk('join', sep, mk('list', *segs))
            else:
                parts.append(s)
        return cat(parts, knd)
    if all(s.op not in SEGOPS for s in segs):
        out = []
        for i, s in enumerate(segs):
            if i:
                out.append(sep)
            out.append(s)
        return cat(out, knd)
    return mk('join', sep, mk('list', *segs))


def sum_(segs, start):
    r = start
    for s in segs:
        if s.op == 'opt':
            r = add(r, ite(s.args[0], sum_(s.args[1:], C(0)), C(0)))
        elif s.op == 'each':
            r = add(r, eachsum(s.args[0], s.args[1], sum_(s.args[2], C(0))))
        else:
            r = plus(r, s) if r is not C(0) else s
    return r


def any_(segs, f):
    cs = []
    for s in segs:
        if s.op == 'opt':
            cs.append(And([s.args[0], any_(s.args[1:], f)]))
        elif s.op == 'each':
            cs.append(exists(s.args[0], s.args[1], any_(s.args[2], f)))
        else:
            cs.append(f(s))
    return Or(cs)


def ceil_(x):
    if kind(x) in ('int', 'bool'):
        return x
    c = poly_const(x)
    if c is not None:
        return C(-((-c) // 1))
    p = to_poly(x)
    if all(kind(a) in ('int', 'bool') for m in p for a in m):
        D = 1
        for v in p.values():
            d = Fraction(v).denominator
            import math
            D = D * d // math.gcd(D, d)
        if D > 1:
            n = from_poly({m: -Fraction(v) * D for m, v in p.items()})
            return neg(floordiv(n, C(D)))
    return mk('ceil', x)


def range_list(n, f):
    """list [f(0), ..., f(n-1)]"""
    c = poly_const(n)
    if c is not None:
        if c <= 0:
            return mk('list')
        if c <= 48:
            return mk('list', *[f(C(i)) for i in range(int(c))])
    if n.op == 'len':
        it = n.args[0]
    else:
        it = mk('range', n)
    return mk('list', mk('each', it, 0, (f(mk('idx', it, 0)),)))


class BuiltinMixin:
    def ext_call(self, name, args, kwargs, st, fr, node):
        if name.startswith('logging.') or name.startswith('warnings.') or name in ('print',):
            self.record(ext(name), tuple(self.freeze(x, st) for x in args),
                        tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items())), NONE, st, fr, node)
            return NONE
        h = getattr(self, 'f_' + name.replace('.', '_'), None)
        if h is not None and not any(a.op == 'star' for a in args) and '**' not in kwargs:
            r = h(args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        if name in EXC_PARENTS:
            return mk('exc', name)
        if name in ('requests.request', 'requests.api.request') and args and args[0].op == 'const':
            return self.ext_call('requests.' + args[0].args[0].lower(), args[1:], kwargs, st, fr, node)
        if name in EXT_SIG and not any(a.op == 'star' for a in args):
            args, kwargs = canon_kw(EXT_SIG[name], args, kwargs)
        impure = name not in PURE_EXT
        if name == 'coincurve.PrivateKey' and args and not kwargs:
            x = args[0]
            if len(args) == 1 and x.op == 'attr' and x.args[1] == 'secret' and kind(x.args[0]) == 'inst:coincurve.PrivateKey':
                return x.args[0]
            impure = args[0] is NONE
        if name == 'json.loads' and len(args) == 1 and args[0].op == 'attr' and args[0].args[1] in ('text', 'content'):
            return self.method_call(args[0].args[0], 'json', [], {}, st, fr, node)
        if name == 'requests.get' and 'params' in kwargs:
            pass
        return self.opaque(ext(name), args, kwargs, st, fr, node, impure=impure)

    # ------------------------------------------------------------- builtins --
    def f_time_time(self, args, kwargs, st, fr, node):
        """the clock: one reading per step of a history"""
        if args or kwargs:
            return NotImplemented
        if self.module_mode:
            return mk('call', ext('time.time'), (), (), 'import')
        n = self.get(st, ('n', 'clock'))
        return mk('call', ext('time.time'), (), (), poly_const(n) if n is not None else 0)

    f_time_monotonic = f_time_time

    def f_tick_tick(self, args, kwargs, st, fr, node):
        n = self.get(st, ('n', 'clock'))
        st.store[('n', 'clock')] = C(1) if n is None else add(n, C(1))
        return NONE

    def f_len(self, a, kw, st, fr, n):
        x = a[0]
        if x.op == 'ite':
            return ite(x.args[0], self.f_len([x.args[1]], kw, st, fr, n), self.f_len([x.args[2]], kw, st, fr, n))
        if x.op == 'ref' and x.args[1] == 'set':
            c = self.freeze(x, st)
            return mk('len', c) if c.args[0].args else C(0)
        c = self.content(x, st)
        if c is not None:
            if c.op == 'list' and any(s.op == 'upd' for s in c.args):
                return length(c.args[0].args[0])
            return length(c) if c.op == 'list' else length(self.freeze(c, st))
        d = self.dict_content(x, st)
        if d is not None:
            return length(self.freeze(d, st))
        k = kind(x)
        if isinstance(k, str) and k.startswith('inst:'):
            f, _ = self.find_in_class(k[5:], '__len__')
            if f is not None:
                return self.call(mk('bound', x, f), [], {}, st, fr, n)
        return length(self.freeze(x, st))

    def f_int(self, a, kw, st, fr, n):
        if not a:
            return C(0)
        x = self.freeze(a[0], st)
        base = a[1] if len(a) > 1 else kw.get('base')
        if base is not None:
            if is_const(x) and is_const(base):
                try:
                    return C(int(x.args[0], base.args[0]))
                except (ValueError, TypeError):
                    return mk('intbase', x, base)
            if base is C(16) and x.op == 'hexs':
                return frombytes(x.args[0], 'big')
            r = mk('intbase', x, base)
            self.may_raise(r, st, fr)
            return r
        if is_const(x) and isinstance(x.args[0], str):
            try:
                return C(int(x.args[0]))
            except ValueError:
                pass
        if kind(x) == 'bool' and x.op in BOOL_OPS:
            return ite(x, C(1), C(0))
        r = to_int(x)
        if r.op == 'int' and kind(x) not in NUMK:
            self.may_raise(r, st, fr)
        return r

    def f_float(self, a, kw, st, fr, n):
        x = self.freeze(a[0], st)
        if poly_const(x) is not None if x.op in ('const', 'poly') and not isinstance(x.args[0], (str, bytes)) else False:
            return x
        return mk('float', x)

    def f_str(self, a, kw, st, fr, n):
        if not a:
            return ES
        if len(a) > 1 or 'encoding' in kw:
            return self.m_decode(a[0], a[1:], kw, st, fr, n)
        x = a[0]
        k = kind(x)
        if isinstance(k, str) and k.startswith('inst:'):
            f, _ = self.find_in_class(k[5:], '__str__')
            if f is None:
                f, _ = self.find_in_class(k[5:], '__repr__')
            if f is not None:
                return self.call(mk('bound', x, f), [], {}, st, fr, n)
        return to_str(self.freeze(x, st))

    def f_repr(self, a, kw, st, fr, n):
        x = a[0]
        k = kind(x)
        if isinstance(k, str) and k.startswith('inst:'):
            f, _ = self.find_in_class(k[5:], '__repr__')
            if f is not None:
                return self.call(mk('bound', x, f), [], {}, st, fr, n)
        return mk('repr', self.freeze(x, st))

    def f_bool(self, a, kw, st, fr, n):
        return self.truth(a[0], st) if a else FALSE

    def f_bytes(self, a, kw, st, fr, n):
        if not a:
            return EB
        x = a[0]
        if len(a) > 1 or 'encoding' in kw:
            return self.m_encode(x, a[1:], kw, st, fr, n)
        if kind(x) == 'bytes':
            return x
        if kind(x) == 'str':
            return encode_(x)
        if x.op == 'ref' and x.args[1] == 'bytearray':
            return self.freeze(x, st)
        c = self.content(x, st)
        if c is not None:
            return self.bytes_of(c.args)
        if kind(x) in ('int',):
            return repeat(C(b'\0'), x)
        k = kind(x)
        if isinstance(k, str) and k.startswith('inst:'):
            f, _ = self.find_in_class(k[5:], '__bytes__')
            if f is not None:
                return self.call(mk('bound', x, f), [], {}, st, fr, n)
        return mk('bytesof', self.freeze(x, st))

    def bytes_of(self, segs):
        parts = []
        for s in segs:
            if s.op == 'opt':
                parts.append(ite(s.args[0], self.bytes_of(s.args[1:]), EB))
            elif s.op == 'each':
                parts.append(eachcat(s.args[0], s.args[1], self.bytes_of(s.args[2]), 'bytes'))
            else:
                parts.append(tobytes(s, C(1), 'big'))
        return cat(parts)

    def f_bytearray(self, a, kw, st, fr, n):
        v = self.f_bytes(a, kw, st, fr, n)
        return self.new(st, 'bytearray', v)

    def f_memoryview(self, a, kw, st, fr, n):
        return a[0]

    def f_sum(self, a, kw, st, fr, n):
        start = a[1] if len(a) > 1 else kw.get('start', C(0))
        c = self.seq(a[0], st)
        if self.is_list_ref(start, st) or start.op in ('list', 'tuple'):
            raise Undecided('sum of lists')
        if any(s.op == 'upd' for s in c.args):
            return mk('sumof', self.freeze(c, st))
        return self.freeze(sum_(c.args, start), st)

    def f_math_fsum(self, a, kw, st, fr, n):
        return self.f_sum(a, kw, st, fr, n)

    def f_any(self, a, kw, st, fr, n):
        return any_(self.seq(a[0], st).args, lambda x: self.truth(x, st))

    def f_all(self, a, kw, st, fr, n):
        return Not(any_(self.seq(a[0], st).args, lambda x: Not(self.truth(x, st))))

    def f_range(self, a, kw, st, fr, n):
        if len(a) == 1:
            return self.new(st, 'list', range_list(a[0], lambda i: i))
        lo, hi = a[0], a[1]
        step = a[2] if len(a) > 2 else C(1)
        cs = poly_const(step)
        if cs == 1:
            return self.new(st, 'list', range_list(sub(hi, lo), lambda i: add(lo, i)))
        if cs is not None and cs > 0:
            m = neg(floordiv(neg(sub(hi, lo)), step))
            return self.new(st, 'list', range_list(m, lambda i: add(lo, mul(step, i))))
        if cs is not None and cs < 0:
            m = neg(floordiv(neg(sub(lo, hi)), C(-cs)))
            return self.new(st, 'list', range_list(m, lambda i: add(lo, mul(step, i))))
        it = mk('range', mk('rangelen', lo, hi, step))
        return self.new(st, 'list', mk('list', mk('each', it, 0, (add(lo, mul(step, mk('idx', it, 0))),))))

    def f_enumerate(self, a, kw, st, fr, n):
        start = a[1] if len(a) > 1 else kw.get('start', C(0))
        c = self.seq(a[0], st)
        return self.new(st, 'list', self.enum_list(c, start, st))

    def enum_list(self, c, start, st):
        segs = c.args
        if all(s.op not in SEGOPS for s in segs):
            return mk('list', *[Tup([add(C(i), start), s]) for i, s in enumerate(segs)])
        if len(segs) == 1 and segs[0].op == 'each' and len(segs[0].args[2]) == 1 and segs[0].args[2][0].op not in SEGOPS:
            it, k, b = segs[0].args
            return mk('list', mk('each', it, k, (Tup([add(mk('idx', it, k), start), b[0]]),)))
        out, pos = [], start
        for s in segs:
            r = self.enum_seg(s, pos)
            if r is None:
                break
            out.append(r)
            pos = add(pos, seglen(s))
        else:
            return mk('list', *out)
        it = self.freeze(c, st)
        return mk('list', mk('each', it, 0, (Tup([add(mk('idx', it, 0), start), mk('elem', it, 0)]),)))

    def enum_seg(self, s, pos):
        if s.op == 'opt' and all(x.op not in SEGOPS and x.op != 'upd' for x in s.args[1:]):
            return mk('opt', s.args[0], *[Tup([add(pos, C(i)), x]) for i, x in enumerate(s.args[1:])])
        if s.op == 'each' and all(x.op not in SEGOPS and x.op != 'upd' for x in s.args[2]):
            it, k, b = s.args
            n = len(b)
            i = mul(mk('idx', it, k), C(n))
            return mk('each', it, k, tuple(Tup([add(add(pos, i), C(j)), x]) for j, x in enumerate(b)))
        return None if s.op in SEGOPS or s.op == 'upd' else Tup([pos, s])

    def f_zip(self, a, kw, st, fr, n):
        cs = [self.seq(x, st) for x in a]
        if all(all(s.op not in SEGOPS for s in c.args) for c in cs):
            return self.new(st, 'list', mk('list', *[Tup(x) for x in zip(*[c.args for c in cs])]))

        def simple(c):
            return len(c.args) == 1 and c.args[0].op == 'each' and len(c.args[0].args[2]) == 1 and \
                c.args[0].args[2][0].op not in SEGOPS
        if all(simple(c) for c in cs):
            it = cs[0].args[0].args[0]
            if all(c.args[0].args[0] is it and c.args[0].args[1] == 0 for c in cs):
                return self.new(st, 'list', mk('list', mk('each', it, 0, (Tup([c.args[0].args[2][0] for c in cs]),))))
            its = [c.args[0].args[0] for c in cs]
            z = mk('zip', *its)
            i = mk('idx', z, 0)
            items = []
            for c in cs:
                t, k, b = c.args[0].args
                items.append(subst(b[0], {mk('elem', t, k): item(t, i), mk('idx', t, k): i}))
            return self.new(st, 'list', mk('list', mk('each', z, 0, (Tup(items),))))
        def filtered(c):
            if len(c.args) == 1 and c.args[0].op == 'each' and len(c.args[0].args[2]) == 1:
                o = c.args[0].args[2][0]
                if o.op == 'opt' and len(o.args) == 2 and o.args[1].op not in SEGOPS:
                    return c.args[0].args[0], c.args[0].args[1], o.args[0]
            return None
        fs = [filtered(c) for c in cs]
        if fs[0] is not None and all(f is not None and f[0] is fs[0][0] and f[1] == fs[0][1] and f[2] is fs[0][2] for f in fs):
            it, k, g = fs[0]
            return self.new(st, 'list', mk('list', mk('each', it, k, (mk('opt', g, Tup([c.args[0].args[2][0].args[1] for c in cs])),))))
        # one structured (concrete) side and one symbolic side: bounded by the concrete one
        z = mk('zip', *[self.freeze(c, st) for c in cs])
        i = mk('idx', z, 0)
        return self.new(st, 'list', mk('list', mk('each', z, 0, (Tup([item(c, i) for c in z.args]),))))

    def f_list(self, a, kw, st, fr, n):
        if not a:
            return self.new(st, 'list', mk('list'))
        c = self.seq(a[0], st)
        return self.new(st, 'list', c)

    def f_tuple(self, a, kw, st, fr, n):
        if not a:
            return Tup([])
        c = self.seq(a[0], st)
        if all(s.op not in SEGOPS and s.op != 'upd' for s in c.args):
            return Tup(c.args)
        return self.new(st, 'list', c)

    def f_iter(self, a, kw, st, fr, n):
        if len(a) != 1:
            raise Undecided('iter')
        return self.f_list(a, kw, st, fr, n)

    def f_set(self, a, kw, st, fr, n):
        if not a:
            return self.new(st, 'set', mk('list'))
        return self.new(st, 'set', self.seq(a[0], st))

    f_frozenset = f_set

    def f_collections_deque(self, a, kw, st, fr, n):
        return self.new(st, 'deque', self.seq(a[0], st) if a else mk('list'))

    def f_dict(self, a, kw, st, fr, n):
        ents = []
        if a:
            d = self.dict_content(a[0], st)
            if d is not None:
                ents.extend(d.args)
            else:
                c = self.content(a[0], st)
                if c is not None:
                    ents.extend(self.pairs(c.args))
                else:
                    ents.append(mk('kvspread', a[0]))
        for k, v in kw.items():
            ents.append(mk('kv', C(k), v))
        return self.new(st, 'dict', mkdict(ents))

    f_collections_OrderedDict = f_dict

    def pairs(self, segs, g=None):
        out = []
        for s in segs:
            if s.op == 'tuple' and len(s.args) == 2:
                out.append(mk('kv', s.args[0], s.args[1]))
            elif s.op == 'each' and len(s.args[2]) == 1:
                b = s.args[2][0]
                gg = TRUE
                if b.op == 'opt' and len(b.args) == 2:
                    gg, b = b.args
                if b.op == 'tuple' and len(b.args) == 2:
                    out.append(mk('kveach', s.args[0], s.args[1], gg, b.args[0], b.args[1]))
                else:
                    raise Undecided('dict of pairs')
            elif s.op == 'opt' and len(s.args) == 2 and s.args[1].op == 'tuple':
                out.append(mk('kvopt', s.args[0], s.args[1].args[0], s.args[1].args[1]))
            elif s.op == 'ref':
                raise Undecided('dict of pairs')
            else:
                raise Undecided('dict of pairs')
        return out

    def f_sorted(self, a, kw, st, fr, n):
        c = self.seq(a[0], st)
        return self.new(st, 'list', self.sort_list(c, kw, st, fr, n))

    def sort_list(self, c, kw, st, fr, n):
        base = self.freeze(unspread(c), st)
        key = kw.get('key', NONE)
        rv = kw.get('reverse', FALSE)
        if not base.args and base.op == 'list':
            return c
        if key is not NONE:
            e = mk('elem', base, 0)
            x = st.copy()
            r0, self.recording = self.recording, False
            try:
                body = self.freeze(self.call(key, [e], {}, x, fr, n), x)
            finally:
                self.recording = r0
            key = mk('lam', base, 0, body)
        return mk('list', spread(mk('sorted', base, key, rv)))

    def f_reversed(self, a, kw, st, fr, n):
        return self.new(st, 'list', reverse_list(self.seq(a[0], st)))

    def f_map(self, a, kw, st, fr, n):
        f = a[0]
        if len(a) == 2:
            src = a[1]
            un = lambda v: [v]
        else:
            src = self.f_zip(a[1:], {}, st, fr, n)
            un = lambda v: list(v.args)
        return self.build(src, st, fr, lambda v, s, put: put(self.call(f, un(v), {}, s, fr, n), s))

    def f_filter(self, a, kw, st, fr, n):
        f = a[0]

        def body(v, s, put):
            c = self.truth(v, s) if f is NONE else self.truth(self.call(f, [v], {}, s, fr, n), s)
            if s.dead:
                return
            self.branch(c, s, lambda x: put(v, x), lambda x: None)
        return self.build(a[1], st, fr, body)

    def build(self, src, st, fr, body):
        acc = self.new(st, 'list', mk('list'))
        cf = Frame('X:%d' % self.uid(), fr.scope, fr.module, fr.finfo)
        cf.exits = fr.exits
        cell = [None]

        def bind(v, s):
            s.store[('v', cf.id, '%x')] = v

        def put(v, s):
            if not s.dead:
                self.list_append(acc, v, s, cf)
        self.iterate(src, st, cf, bind, lambda s: body(self.get(s, ('v', cf.id, '%x')), s, put))
        return acc

    def f_functools_reduce(self, a, kw, st, fr, n):
        f, src = a[0], a[1]
        cf = Frame('X:%d' % self.uid(), fr.scope, fr.module, fr.finfo)
        cf.exits = fr.exits
        if len(a) < 3:
            raise Undecided('reduce without initial value')
        st.store[('v', cf.id, '%acc')] = a[2]

        def bind(v, s):
            s.store[('v', cf.id, '%x')] = v

        def body(s):
            r = self.call(f, [self.get(s, ('v', cf.id, '%acc')), self.get(s, ('v', cf.id, '%x'))], {}, s, fr, n)
            if not s.dead:
                s.store[('v', cf.id, '%acc')] = r
        self.iterate(src, st, cf, bind, body)
        return self.get(st, ('v', cf.id, '%acc'))

    def f_next(self, a, kw, st, fr, n):
        c = self.content(a[0], st)
        if c is None or c.op != 'list':
            return NotImplemented
        segs = c.args
        if segs and segs[0].op not in SEGOPS:
            return segs[0]
        if not segs:
            if len(a) > 1:
                return a[1]
            self.raise_(mk('exc', 'StopIteration'), st, fr)
            return NONE
        s = segs[0]
        if len(segs) == 1 and s.op == 'each' and len(s.args[2]) == 1:
            it, k, b = s.args
            g, v = TRUE, b[0]
            if v.op == 'opt' and len(v.args) == 2 and v.args[1].op not in SEGOPS:
                g, v = v.args
            elif v.op in SEGOPS:
                raise Undecided('next')
            ne = exists(it, k, g) if g is not TRUE else truth(it)
            fv = first(it, k, g, v) if g is not TRUE else subst(v, {mk('elem', it, k): item(it, C(0)), mk('idx', it, k): C(0)})
            if len(a) > 1:
                return ite(ne, fv, a[1])
            self.branch(ne, st, lambda x: None, lambda x: self.raise_(mk('exc', 'StopIteration'), x, fr))
            return fv
        raise Undecided('next')

    def f_itertools_islice(self, a, kw, st, fr, n):
        if len(a) == 2:
            return self.slice(self.f_list([a[0]], {}, st, fr, n), NONE, a[1], NONE, st)
        if len(a) == 3:
            return self.slice(self.f_list([a[0]], {}, st, fr, n), a[1], a[2], NONE, st)
        return NotImplemented

    def f_itertools_chain(self, a, kw, st, fr, n):
        segs = []
        for x in a:
            segs.extend(self.seq(x, st).args)
        return self.new(st, 'list', mklist(segs))

    def minmax(self, a, kw, st, fr, n, which):
        if len(a) == 1:
            c = self.seq(a[0], st)
            if kw or any(s.op in SEGOPS for s in c.args) or not c.args:
                base = self.freeze(unspread(c), st)
                key = kw.get('key', NONE)
                if key is not NONE:
                    key = mk('lam', base, 0, self.freeze(self.call(key, [mk('elem', base, 0)], {}, st.copy(), fr, n), st))
                return mk(which + 'of', base, key, kw.get('default', NONE))
            a = list(c.args)
        elif kw:
            return NotImplemented
        r = a[0]
        for x in a[1:]:
            r = ite(lt(r, x), r, x) if which == 'min' else ite(lt(r, x), x, r)
        return r

    def f_min(self, a, kw, st, fr, n):
        return self.minmax(a, kw, st, fr, n, 'min')

    def f_max(self, a, kw, st, fr, n):
        return self.minmax(a, kw, st, fr, n, 'max')

    def f_abs(self, a, kw, st, fr, n):
        return ite(lt(a[0], C(0)), neg(a[0]), a[0])

    def f_divmod(self, a, kw, st, fr, n):
        return Tup([floordiv(a[0], a[1]), mod(a[0], a[1])])

    def f_pow(self, a, kw, st, fr, n):
        if len(a) == 3:
            return powmod(*a)
        return pow_(*a)

    def f_round(self, a, kw, st, fr, n):
        return mk('round', *a)

    def f_ord(self, a, kw, st, fr, n):
        x = a[0]
        if is_const(x):
            return C(ord(x.args[0]))
        return mk('ord', x)

    def f_chr(self, a, kw, st, fr, n):
        if is_const(a[0]):
            return C(chr(a[0].args[0]))
        return mk('chr', a[0])

    def f_hex(self, a, kw, st, fr, n):
        if is_const(a[0]):
            return C(hex(a[0].args[0]))
        return mk('hexint', a[0])

    def f_id(self, a, kw, st, fr, n):
        return mk('id', a[0])

    def f_callable(self, a, kw, st, fr, n):
        return TRUE if a[0].op in ('func', 'clo', 'bound', 'ext', 'cls') else mk('truth', mk('callable', a[0]))

    def f_isinstance(self, a, kw, st, fr, n):
        x, t = a
        if t.op == 'tuple':
            return Or([self.f_isinstance([x, y], {}, st, fr, n) for y in t.args])
        if x.op == 'ite':
            return ite(x.args[0], self.f_isinstance([x.args[1], t], {}, st, fr, n), self.f_isinstance([x.args[2], t], {}, st, fr, n))
        if x.op == 'ref':
            k = x.args[1]
            nm = t.args[0] if t.op in ('ext', 'cls') else None
            if k.startswith('inst:'):
                return TRUE if nm and self.subclass(k[5:], nm) else FALSE
            return TRUE if nm == k else FALSE
        if t.op in ('ext', 'cls'):
            nm = t.args[0]
            k = kind(x)
            if isinstance(k, str) and k.startswith('inst:') and self.subclass(k[5:], nm):
                return TRUE
            nm = {'collections.abc.Mapping': 'dict', 'collections.abc.Sequence': 'list'}.get(nm, nm)
            return isinst(x, nm)
        return mk('isinst', x, t)

    def subclass(self, q, nm):
        if q == nm:
            return True
        ci = self.classes.get(q)
        return ci is not None and any(b.op in ('cls', 'ext') and self.subclass(b.args[0], nm) for b in ci.bases)

    def f_issubclass(self, a, kw, st, fr, n):
        return mk('truth', mk('issub', *a))

    def f_type(self, a, kw, st, fr, n):
        if len(a) != 1:
            return NotImplemented
        x = a[0]
        k = kind(x)
        if isinstance(k, str) and k.startswith('inst:'):
            return mk('cls', k[5:])
        return mk('typeof', x)

    def f_getattr(self, a, kw, st, fr, n):
        if a[1].op != 'const':
            o, nm = a[0], a[1]
            if nm.op == 'ite':
                return self.choose(nm.args[0], st, lambda s: self.f_getattr([o, nm.args[1]] + a[2:], kw, s, fr, n),
                                   lambda s: self.f_getattr([o, nm.args[2]] + a[2:], kw, s, fr, n))
            return mk('getattr', self.freeze(o, st), nm)
        return self.getattr(a[0], a[1].args[0], st, fr, n)

    def f_setattr(self, a, kw, st, fr, n):
        if a[1].op != 'const':
            raise Undecided('setattr with a computed name')
        self.setattr(a[0], a[1].args[0], a[2], st, fr)
        return NONE

    def f_hasattr(self, a, kw, st, fr, n):
        return mk('hasattr', self.freeze(a[0], st), a[1])

    def f_vars(self, a, kw, st, fr, n):
        return mk('vars', *[self.freeze(x, st) for x in a])

    # -------------------------------------------------------------- library --
    def f_hashlib_sha256(self, a, kw, st, fr, n):
        return self.new(st, 'hash', mk('hashobj', 'sha256', a[0] if a else EB))

    def f_hashlib_new(self, a, kw, st, fr, n):
        if a[0].op != 'const':
            return NotImplemented
        return self.new(st, 'hash', mk('hashobj', a[0].args[0].lower(), a[1] if len(a) > 1 else kw.get('data', EB)))

    def f_binascii_hexlify(self, a, kw, st, fr, n):
        return encode_(hexs(a[0]))

    f_binascii_b2a_hex = f_binascii_hexlify

    def f_binascii_unhexlify(self, a, kw, st, fr, n):
        x = a[0]
        if kind(x) == 'bytes':
            x = decode_(x)
        r = unhex(x)
        self.may_raise(r, st, fr)
        return r

    f_binascii_a2b_hex = f_binascii_unhexlify

    def f_bytes_fromhex(self, a, kw, st, fr, n):
        r = unhex(self.freeze(a[0], st))
        if r.op == 'unhex':
            self.may_raise(r, st, fr)
        return r

    def f_int_from_bytes(self, a, kw, st, fr, n):
        o = a[1] if len(a) > 1 else kw.get('byteorder', C('big'))
        if o.op != 'const' or kw.get('signed', FALSE) is not FALSE:
            return NotImplemented
        x = a[0]
        c = self.content(x, st)
        if c is not None:
            x = self.bytes_of(c.args)
        return frombytes(x, o.args[0])

    def f_dict_fromkeys(self, a, kw, st, fr, n):
        c = self.seq(a[0], st)
        v = a[1] if len(a) > 1 else NONE
        ents = []
        for s in c.args:
            if s.op == 'opt' and len(s.args) == 2 and s.args[1].op not in SEGOPS:
                ents.append(mk('kvopt', s.args[0], s.args[1], v))
            elif s.op == 'each' and len(s.args[2]) == 1:
                x = s.args[2][0]
                g, x = (x.args[0], x.args[1]) if x.op == 'opt' and len(x.args) == 2 else (TRUE, x)
                if x.op in SEGOPS:
                    raise Undecided('fromkeys')
                ents.append(mk('kveach', s.args[0], s.args[1], g, x, v))
            elif s.op in SEGOPS:
                raise Undecided('fromkeys')
            else:
                ents.append(mk('kv', s, v))
        return self.new(st, 'dict', mkdict(ents))

    def f_struct_pack(self, a, kw, st, fr, n):
        if a[0].op != 'const':
            return NotImplemented
        f = a[0].args[0]
        if isinstance(f, bytes):
            f = f.decode()
        order = 'little'
        if f[:1] in '<>!':
            order = 'little' if f[0] == '<' else 'big'
            f = f[1:]
        else:
            return NotImplemented
        parts = []
        sizes = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}
        if any(ch not in sizes for ch in f) or len(f) != len(a) - 1:
            return NotImplemented
        for ch, x in zip(f, a[1:]):
            parts.append(tobytes(x, C(sizes[ch]), order))
        return cat(parts)

    def f_math_ceil(self, a, kw, st, fr, n):
        return ceil_(a[0])

    def f_math_floor(self, a, kw, st, fr, n):
        r = ceil_(neg(a[0]))
        if r.op == 'ceil':
            return mk('floor', a[0])
        return neg(r)

    def f_decimal_Decimal(self, a, kw, st, fr, n):
        if not a:
            return C(0)
        x = a[0]
        if x.op == 'float' or kind(x) == 'float':
            return mk('decimal', mk('inexact', x))
        if kind(x) == 'int':
            return mk('decimal', x) if x.op != 'const' else x
        return decimal(self.freeze(x, st))

    def f_functools_partial(self, a, kw, st, fr, n):
        return mk('partial', a[0], tuple(a[1:]), tuple(sorted(kw.items())))

    def f_functools_wraps(self, a, kw, st, fr, n):
        return mk('call', ext('functools.wraps'), tuple(a), (), 0)

    def f_collections_namedtuple(self, a, kw, st, fr, n):
        nm = a[0].args[0]
        f = a[1]
        if f.op == 'const':
            fl = f.args[0].replace(',', ' ').split()
        else:
            fl = [x.args[0] for x in self.seq(f, st).args]
        q = fr.module + '.' + nm
        ci = ClassInfo(q, None, fr.module, [])
        ci.fields = fl
        self.classes[q] = ci
        self.fields_of[q] = set(fl)
        return mk('cls', q)

    def f_random_shuffle(self, a, kw, st, fr, n):
        o = a[0]
        c = self.content(o, st)
        if c is None:
            c = mk('list', spread(o))
        base = self.freeze(unspread(c), st)
        new = mk('list', spread(mk('shuffled', base)))
        if o.op == 'ref':
            self.hset(o, new, st)
        else:
            st.store[('c', o)] = new
        self.record(ext('random.shuffle'), (base,), (), NONE, st, fr, n)
        return NONE
