"""Summaries of methods of builtin types and of library objects."""
import ast
import string
from terms import *
from program import *
from core import Core, State, Frame, conj, canon_ext
from evalx import isinst, unspread, reverse_list, SEGOPS
from builtinx import join_, METHOD_SIG, PURE_METHODS, canon_kw

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard', 'appendleft',
            'popleft', 'update', 'setdefault', 'popitem', '__setitem__'}


class MethodMixin:
    def method_call(self, o, name, args, kwargs, st, fr, node):
        if o.op == 'ite':
            return self.choose(o.args[0], st, lambda s: self.method_call(o.args[1], name, args, kwargs, s, fr, node),
                               lambda s: self.method_call(o.args[2], name, args, kwargs, s, fr, node))
        star = any(a.op == 'star' for a in args) or '**' in kwargs
        if o.op == 'ref':
            k = o.args[1]
            if k in ('list', 'set', 'deque'):
                return self.m_list(o, name, args, kwargs, st, fr, node)
            if k == 'dict':
                return self.m_dict(o, name, args, kwargs, st, fr, node)
            if k == 'hash':
                return self.m_hash(o, name, args, st, fr, node)
            if k == 'bytearray':
                if name in ('append', 'extend'):
                    cur = self.hget(o, st)
                    x = args[0]
                    add_ = tobytes(x, C(1), 'big') if name == 'append' else self.f_bytes([x], {}, st, fr, node)
                    self.hset(o, cat([cur, add_]), st)
                    return NONE
                return self.method_call(self.freeze(o, st), name, args, kwargs, st, fr, node)
            if name == '__getattr__':
                pass
        if o.op == 'superext' and name == '__new__' and o.args[0].op == 'ext':
            return self.ext_call(o.args[0].args[0], args[1:], kwargs, st, fr, node)
        if o.op == 'superext':
            return NONE if name == '__init__' else self.opaque(mk('attr', o, name), args, kwargs, st, fr, node)
        if o.op == 'entered' or o.op == 'call' and o.args[0].op == 'ext' and o.args[0].args[0] == 'requests.Session':
            x = o
            while x.op == 'entered':
                x = x.args[0]
            if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('requests.Session', 'requests.session'):
                if name in ('get', 'post', 'request'):
                    return self.ext_call('requests.' + name, args, kwargs, st, fr, node)
        if name == 'format' and o.op == 'attr' and kind(o) != 'str' and len(args) + len(kwargs) <= 1:
            # a point of the curve library: SEC encoding, compressed unless told otherwise
            c = args[0] if args else kwargs.get('compressed', TRUE)
            return self.opaque(mk('attr', self.freeze(o, st), 'format'), [], {'compressed': c}, st, fr, node, impure=False,
                               risky=False)
        if name == 'raise_for_status' and not args and not kwargs and not self.module_mode and o.op != 'ref' and \
                not str(kind(o)).startswith('inst:bit.'):
            # the refusal of an answer with an error status is an outcome of its own
            cond = self.under(le(C(400), mk('attr', self.freeze(o, st), 'status_code')), st.guard)
            if cond is not FALSE:
                x = st.fork(cond)
                if not x.dead:
                    self.raise_(mk('exc', 'requests.exceptions.HTTPError'), x, fr)
                st.become(st.fork(Not(cond)))
            return NONE
        h = getattr(self, 'm_' + name, None)
        k = kind(o)
        if star:
            h = None
        if h is not None and (k in ('bytes', 'str', 'int', 'decimal', 'num', 'float', 'optstr', 'bool') or o.op == 'const'):
            r = h(o, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        isinst_ = isinstance(k, str) and k.startswith('inst:')
        if not isinst_ and not star:
            if name in ('get',) and 1 <= len(args) <= 2 and k not in ('bytes', 'str'):
                return self.m_dict(o, name, args, kwargs, st, fr, node)
            if name in ('items', 'keys', 'values') and not args:
                return self.new(st, 'list', self.dict_items(o, st, name))
            if is_listkind(k) or ('c', o) in st.store or (o.op in ('list', 'tuple', 'sorted')):
                return self.m_list(o, name, args, kwargs, st, fr, node)
            if name in ('append', 'extend', 'sort', 'reverse', 'insert') and k is None and o.op != 'ext':
                return self.m_list(o, name, args, kwargs, st, fr, node)
            if name == 'copy' and not args and k is None:
                c = st.store.get(('c', o))
                return self.new(st, 'list', c) if c is not None else mk('copyof', o)
            if h is not None and k is None and name in ('encode', 'decode', 'hex', 'lower', 'upper', 'split', 'strip',
                                                        'startswith', 'endswith', 'join', 'to_bytes', 'quantize',
                                                        'normalize', 'bit_length', 'digest', 'rstrip', 'lstrip', 'replace'):
                r = h(o, args, kwargs, st, fr, node)
                if r is not NotImplemented:
                    return r
            if name in ('pop', 'update', 'setdefault') and k is None and o.op not in ('call',):
                return self.m_dict(o, name, args, kwargs, st, fr, node)
        if name in METHOD_SIG and not star:
            args, kwargs = canon_kw(METHOD_SIG[name], args, kwargs)
        return self.opaque(mk('attr', self.freeze(o, st), name), args, kwargs, st, fr, node, impure=name not in PURE_METHODS)

    # ----------------------------------------------------------------- hash --
    def m_hash(self, o, name, args, st, fr, node):
        h = self.hget(o, st)
        if name == 'update':
            self.hset(o, mk('hashobj', h.args[0], cat([h.args[1], args[0]])), st)
            return NONE
        alg, data = h.args
        if alg == 'sha256':
            d = mk('sha256', data)
        elif alg == 'ripemd160':
            d = mk('ripemd160', data)
        else:
            d = mk('hash', alg, data)
        if name == 'digest':
            return d
        if name == 'hexdigest':
            return hexs(d)
        if name == 'copy':
            return self.new(st, 'hash', h)
        raise Undecided('hash.' + name)

    # ----------------------------------------------------------------- list --
    def m_list(self, o, name, args, kwargs, st, fr, node):
        if name in ('append', 'add'):
            if name == 'add' and o.op == 'ref' and o.args[1] == 'set':
                pass
            self.list_append(o, args[0], st, fr)
            return NONE
        if name in ('extend', 'update'):
            for a in args:
                self.list_extend(o, a, st, fr)
            return NONE
        if name == 'appendleft':
            self.list_append(o, args[0], st, fr, left=True)
            return NONE
        if name == 'insert':
            if args[0] is C(0):
                self.list_append(o, args[1], st, fr, left=True)
                return NONE
            c = self.content(o, st)
            if c is not None and all(s.op not in SEGOPS for s in c.args) and poly_const(args[0]) is not None:
                segs = list(c.args)
                segs.insert(int(poly_const(args[0])), args[1])
                self.hset(o, mk('list', *segs), st)
                return NONE
            if c is not None and sub(args[0], length(c)) is C(0):
                self.list_append(o, args[1], st, fr)
                return NONE
            raise Undecided('insert')
        if name in ('pop', 'popleft'):
            i = C(0) if name == 'popleft' else (args[0] if args else C(-1))
            return self.list_pop(o, i, st, fr)
        if name == 'copy':
            return self.new(st, o.args[1] if o.op == 'ref' else 'list', self.seq(o, st))
        if name == 'clear':
            self.put_content(o, mk('list'), st)
            return NONE
        if name == 'sort':
            self.put_content(o, self.sort_list(self.seq(o, st), kwargs, st, fr, node), st)
            return NONE
        if name == 'reverse':
            self.put_content(o, reverse_list(self.seq(o, st)), st)
            return NONE
        if name == 'index' and len(args) == 1:
            c = self.seq(o, st)
            x = self.freeze(args[0], st)
            r = mk('find', self.freeze(unspread(c), st), x)
            if r.args[0].op == 'list' and len(r.args[0].args) >= 4 and all(s.op == 'const' and isinstance(s.args[0], str) and len(s.args[0]) == 1 for s in r.args[0].args):
                r = mk('find', C(''.join(s.args[0] for s in r.args[0].args)), x)
            self.may_raise(r, st, fr, when=Not(in_(x, self.freeze(unspread(c), st))), exc='ValueError')
            return r
        if name == 'count' and len(args) == 1:
            c = self.seq(o, st)
            from builtinx import sum_
            segs = c.args
            x = self.freeze(args[0], st)

            def m(s):
                if s.op == 'opt':
                    return ite(s.args[0], add_all([m(y) for y in s.args[1:]]), C(0))
                if s.op == 'each':
                    return eachsum(s.args[0], s.args[1], add_all([m(y) for y in s.args[2]]))
                return ite(eq(s, x), C(1), C(0))
            return add_all([m(s) for s in segs])
        if name == 'remove':
            c = self.content(o, st)
            x = self.freeze(args[0], st)
            if c is not None and all(s.op not in SEGOPS for s in c.args):
                segs = list(c.args)
                for i, s in enumerate(segs):
                    e = eq(s, x)
                    if e is TRUE:
                        del segs[i]
                        self.put_content(o, mk('list', *segs), st)
                        return NONE
                    if e is not FALSE:
                        break
            raise Undecided('remove')
        if name in ('union', 'difference', 'intersection', 'issubset', 'issuperset'):
            return mk(name, self.freeze(o, st), *[self.freeze(a, st) for a in args])
        if name in ('items', 'keys', 'values'):
            return self.new(st, 'list', self.dict_items(o, st, name))
        return self.opaque(mk('attr', self.freeze(o, st), name), args, kwargs, st, fr, node)

    def put_content(self, o, c, st):
        if o.op == 'ref':
            self.hset(o, c, st)
        else:
            st.store[('c', o)] = c

    # ----------------------------------------------------------------- dict --
    def m_dict(self, o, name, args, kwargs, st, fr, node):
        if name == 'get':
            d = self.dict_content(o, st)
            k = self.freeze(args[0], st)
            dflt = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            if d is not None:
                if any(e.op == 'kveach' for e in d.args):
                    return ite(in_(k, self.freeze(d, st)), self.dict_lookup(d, k, st), dflt)
                if any(e.op == 'kvspread' for e in d.args):
                    return ite(in_(k, d), dict_get(d, k), dflt)
                return dict_get(d, k, dflt)
            oo = self.freeze(o, st)
            return ite(in_(k, oo), item(oo, k), dflt)
        if name in ('items', 'keys', 'values'):
            return self.new(st, 'list', self.dict_items(o, st, name))
        if name == 'copy':
            d = self.dict_content(o, st)
            return self.new(st, 'dict', d if d is not None else mk('dict', mk('kvspread', o)))
        if name == 'update':
            d = self.dict_content(o, st) or mk('dict', mk('kvspread', o))
            ents = list(d.args)
            if args:
                x = self.dict_content(args[0], st)
                if x is not None:
                    ents.extend(x.args)
                else:
                    c = self.content(args[0], st)
                    ents.extend(self.pairs(c.args) if c is not None else [mk('kvspread', args[0])])
            ents.extend(mk('kv', C(k), v) for k, v in kwargs.items())
            self.put_dict(o, mkdict(ents), st)
            return NONE
        if name == 'setdefault':
            k = self.freeze(args[0], st)
            d = self.dict_content(o, st) or mk('dict', mk('kvspread', o))
            v = args[1] if len(args) > 1 else NONE
            have = in_(k, self.freeze(d, st))
            cur = self.dict_lookup(d, k, st) if have is not FALSE else v
            self.branch(have, st, lambda s: None, lambda s: self.setitem(o, k, v, s, fr))
            return ite(have, cur, v)
        if name == 'pop':
            d = self.dict_content(o, st)
            k = self.freeze(args[0], st)
            if d is not None and all(e.op == 'kv' and e.args[0].op == 'const' for e in d.args) and k.op == 'const':
                v = dict_get(d, k, args[1] if len(args) > 1 else None)
                self.put_dict(o, mkdict([e for e in d.args if e.args[0] is not k]), st)
                return v
            raise Undecided('dict.pop')
        return self.opaque(mk('attr', self.freeze(o, st), name), args, kwargs, st, fr, node)

    def put_dict(self, o, d, st):
        if o.op == 'ref':
            self.hset(o, d, st)
        else:
            st.store[('d', o)] = d

    # ------------------------------------------------------- bytes/str/int ---
    def m_to_bytes(self, o, a, kw, st, fr, n):
        ln = a[0] if a else kw.get('length', C(1))
        od = a[1] if len(a) > 1 else kw.get('byteorder', C('big'))
        if od.op != 'const' or kw.get('signed', FALSE) is not FALSE:
            return NotImplemented
        r = tobytes(o, ln, od.args[0])
        if r.op == 'tobytes':
            self.may_raise(r, st, fr)
        return r

    def m_bit_length(self, o, a, kw, st, fr, n):
        if is_const(o):
            return C(o.args[0].bit_length())
        return mk('bitlen', o)

    def m_hex(self, o, a, kw, st, fr, n):
        if a:
            return NotImplemented
        return hexs(o)

    def m_fromhex(self, o, a, kw, st, fr, n):
        return self.f_bytes_fromhex(a, kw, st, fr, n)

    def m_from_bytes(self, o, a, kw, st, fr, n):
        return self.f_int_from_bytes(a, kw, st, fr, n)

    def m_encode(self, o, a, kw, st, fr, n):
        enc = a[0] if a else kw.get('encoding', C('utf-8'))
        err = a[1] if len(a) > 1 else kw.get('errors', C('strict'))
        if err is not C('strict') and not is_const(o):
            return mk('encode_', o, enc, err)
        if enc.op == 'const':
            enc = C(enc.args[0].lower().replace('-', '').replace('_', ''))
            if enc.args[0] in ('utf8', 'u8', 'utf') or enc.args[0] in ('ascii', 'usascii', 'latin1') and ascii_only(o):
                return encode_(o)
        return mk('encode_', o, enc)

    def m_decode(self, o, a, kw, st, fr, n):
        enc = a[0] if a else kw.get('encoding', C('utf-8'))
        err = a[1] if len(a) > 1 else kw.get('errors', C('strict'))
        if err is not C('strict') and not is_const(o):
            return mk('decode_', o, enc, err)
        if enc.op == 'const':
            enc = C(enc.args[0].lower().replace('-', '').replace('_', ''))
            if enc.args[0] in ('utf8', 'u8', 'utf') or enc.args[0] in ('ascii', 'usascii', 'latin1') and ascii_only(o):
                return decode_(o)
        return mk('decode_', o, enc)

    def m_upper(self, o, a, kw, st, fr, n):
        return upper_(o)

    def m_lower(self, o, a, kw, st, fr, n):
        return lower_(o)

    def m_join(self, o, a, kw, st, fr, n):
        c = self.seq(a[0], st)
        segs = [self.freeze(s, st) for s in c.args]
        if kind(o) == 'bytes':
            segs = segs
        return join_(o, segs)

    def m_format(self, o, a, kw, st, fr, n):
        if o.op != 'const' or not isinstance(o.args[0], str):
            return mk('formatted', o, tuple(self.freeze(x, st) for x in a),
                      tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items())))
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o.args[0]):
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            name = field
            tail = None
            for sep in '.[':
                if sep in name:
                    raise Undecided('format field')
            if name == '':
                v = a[auto] if auto < len(a) else None
                auto += 1
            elif name.isdigit():
                v = a[int(name)] if int(name) < len(a) else None
            else:
                v = kw.get(name)
            if v is None:
                self.raise_(mk('exc', 'KeyError'), st, fr)
                return o
            if conv in ('r', 'a'):
                v = self.f_repr([v], {}, st, fr, n)
            if spec:
                parts.append(self.fmt(v, C(spec), st))
            else:
                parts.append(self.f_str([v], {}, st, fr, n))
        return cat(parts, 'str')

    def m_startswith(self, o, a, kw, st, fr, n):
        return self.affix(o, a[0], 'startswith', st)

    def m_endswith(self, o, a, kw, st, fr, n):
        return self.affix(o, a[0], 'endswith', st)

    def affix(self, o, p, which, st):
        if p.op == 'tuple':
            return Or([self.affix(o, x, which, st) for x in p.args])
        if is_const(o) and is_const(p):
            return TRUE if getattr(o.args[0], which)(p.args[0]) else FALSE
        # x.startswith(c)  <=>  x[:len(c)] == c
        L = known_len(p)
        if L is not None:
            if L == 0:
                return TRUE
            return eq(slice_(o, NONE, C(L)) if which == 'startswith' else slice_(o, C(-L), NONE), p)
        return mk(which, o, p)

    def m_find(self, o, a, kw, st, fr, n):
        if len(a) == 1:
            return mk('find', o, a[0])
        return mk('find', o, *a)

    def m_index(self, o, a, kw, st, fr, n):
        r = mk('find', o, *a)
        if len(a) == 1:
            self.may_raise(r, st, fr, when=Not(in_(a[0], o)), exc='ValueError')
        else:
            self.may_raise(r, st, fr)
        return r

    def m_rfind(self, o, a, kw, st, fr, n):
        return mk('rfind', o, *a)

    def m_count(self, o, a, kw, st, fr, n):
        return mk('strcount', o, *a)

    def m_strip(self, o, a, kw, st, fr, n):
        return mk('strip', o, *a)

    def m_lstrip(self, o, a, kw, st, fr, n):
        return lstrip_(o, *a)

    def m_rstrip(self, o, a, kw, st, fr, n):
        return rstrip_(o, *a)

    def m_replace(self, o, a, kw, st, fr, n):
        return mk('replace', o, *a)

    def m_split(self, o, a, kw, st, fr, n):
        if is_const(o) and all(is_const(x) for x in a):
            return self.new(st, 'list', mk('list', *[C(x) for x in o.args[0].split(*[x.args[0] for x in a])]))
        return mk('split', o, *a)

    def m_zfill(self, o, a, kw, st, fr, n):
        return mk('rjust', o, a[0], C('0' if kind(o) == 'str' else b'0'))

    def m_rjust(self, o, a, kw, st, fr, n):
        return mk('rjust', o, *a)

    def m_ljust(self, o, a, kw, st, fr, n):
        return mk('ljust', o, *a)

    def m_translate(self, o, a, kw, st, fr, n):
        return mk('translate', o, *a)

    def m_isdigit(self, o, a, kw, st, fr, n):
        return mk('strtest', 'isdigit', o)

    def m_isalnum(self, o, a, kw, st, fr, n):
        return mk('strtest', 'isalnum', o)

    def m_islower(self, o, a, kw, st, fr, n):
        return mk('strtest', 'islower', o)

    def m_isupper(self, o, a, kw, st, fr, n):
        return mk('strtest', 'isupper', o)

    # -------------------------------------------------------------- decimal --
    def m_quantize(self, o, a, kw, st, fr, n):
        e = a[0]
        r = a[1] if len(a) > 1 else kw.get('rounding', ext('decimal.ROUND_HALF_EVEN'))
        return mk('quantize', o, e, r)

    def m_normalize(self, o, a, kw, st, fr, n):
        return mk('normalize', o)

    def m_to_integral_value(self, o, a, kw, st, fr, n):
        r = a[0] if a else kw.get('rounding', ext('decimal.ROUND_HALF_EVEN'))
        return mk('quantize', o, C(1), r)


def add_all(xs):
    r = C(0)
    for x in xs:
        r = add(r, x)
    return r
