"""Interned value-flow terms and their normalising constructors.

A term denotes the value an expression has on *every* execution, as a function
of the inputs of the analysed function.  Constructors keep terms in a normal
form (global value numbering): arithmetic is kept as polynomials, byte strings
as flattened concatenations, comparisons in one canonical orientation, ...
Nothing here executes code of the analysed repository.
"""
import hashlib
from fractions import Fraction

_table = {}


class T:
    __slots__ = ('op', 'args', 'dig', '_kind', '_free', 'h', '__weakref__')

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError


def _enc(a):
    if isinstance(a, T):
        return b'T' + a.dig
    if isinstance(a, tuple):
        return b'(' + b','.join(_enc(x) for x in a) + b')'
    if isinstance(a, bool):
        return b'B' + (b'1' if a else b'0')
    if isinstance(a, Fraction):
        return b'Q' + repr((a.numerator, a.denominator)).encode()
    return type(a).__name__.encode() + b':' + repr(a).encode()


def mk(op, *args):
    if op == 'list' and any(a.op == 'each' and a.args[0].op == 'list' and a.args[0].args for a in args):
        args = splice(args)
    k = (op,) + tuple(_k(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.dig = hashlib.blake2b(op.encode() + b'|' + b';'.join(_enc(a) for a in args), digest_size=12).digest()
        t.h = int.from_bytes(t.dig[:7], 'big')
        t._kind = 0
        t._free = None
        _table[k] = t
    return t


def _k(a):
    if isinstance(a, T):
        return ('T', id(a))
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    return (type(a).__name__, a)


# ------------------------------------------------------------------ basic ---
def C(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
        else:
            return mk('poly', ((v, ()),))
    if isinstance(v, float):
        return C(Fraction(v).limit_denominator(10 ** 12)) if v == v and abs(v) != float('inf') else mk('const', v)
    return mk('const', v)


NONE = mk('const', None)
ANY = mk('any')
TRUE = mk('const', True)
FALSE = mk('const', False)
EB = mk('const', b'')
ES = mk('const', '')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def is_num_const(t):
    return t.op == 'const' and isinstance(t.args[0], int)


def sym(name, kind=None):
    return mk('sym', name, kind)


def ext(name):
    return mk('ext', name)


def Tup(items):
    return mk('tuple', *items)


# ------------------------------------------------------------------- kind ---
# attribute -> kind, for attributes of symbolic objects of the analysed program
ATTR_KIND = {
    'script_sig': 'bytes', 'script_sig_len': 'bytes', 'witness': 'bytes', 'locktime': 'bytes',
    'script_pubkey': 'bytes', 'script_pubkey_len': 'bytes', 'public_key': 'bytes', 'redeemscript': 'bytes',
    'scriptcode': 'bytes', 'segwit_scriptcode': 'bytes', '_public_key': 'bytes', 'secret': 'bytes',
    'vsize': 'num', 'm': 'int', 'confirmations': 'int', 'status_code': 'int',
    'text': 'str', 'address': 'str', '_address': 'optstr', 'balance': 'int', 'instance': 'str',
    'public_keys': 'list:bytes', 'unspents': 'list:inst:bit.network.meta.Unspent',
    'transactions': 'list:str', 'satoshis': 'num', 'last_update': 'float', 'script': 'str', 'reason': 'str',
    '_url': 'str', '_rpc_method': 'str', 'segwit_input': 'bool',
}
# attribute kinds that depend on the class of the object
CLASS_ATTR_KIND = {
    ('bit.transaction.TxIn', 'txid'): 'bytes', ('bit.transaction.TxIn', 'txindex'): 'bytes',
    ('bit.transaction.TxIn', 'sequence'): 'bytes', ('bit.transaction.TxIn', 'amount'): 'bytes',
    ('bit.transaction.TxOut', 'amount'): 'bytes', ('bit.transaction.TxObj', 'version'): 'bytes',
    ('bit.transaction.TxObj', 'TxIn'): 'list:inst:bit.transaction.TxIn',
    ('bit.wallet.MultiSig', 'is_compressed'): 'bool', ('bit.wallet.MultiSigTestnet', 'is_compressed'): 'bool',
    ('bit.transaction.TxObj', 'TxOut'): 'list:inst:bit.transaction.TxOut',
    ('bit.network.meta.Unspent', 'amount'): 'int', ('bit.network.meta.Unspent', 'txid'): 'str',
    ('bit.network.meta.Unspent', 'txindex'): 'int', ('bit.network.meta.Unspent', 'sequence'): 'int',
    ('bit.network.meta.Unspent', 'vsize'): 'num', ('bit.network.meta.Unspent', 'segwit'): 'bool',
    ('bit.network.meta.Unspent', 'script'): 'str', ('bit.network.meta.Unspent', 'type'): 'str',
}

RETKIND = {
    'bit.utils.int_to_varint': 'bytes', 'bit.utils.script_push': 'bytes', 'bit.utils.int_to_unknown_bytes': 'bytes',
    'bit.utils.hex_to_bytes': 'bytes', 'bit.utils.bytes_to_hex': 'str', 'bit.crypto.sha256': 'bytes',
    'bit.crypto.double_sha256': 'bytes', 'bit.crypto.double_sha256_checksum': 'bytes', 'bit.crypto.ripemd160_sha256': 'bytes',
    'bit.base58.b58encode': 'str', 'bit.base58.b58decode': 'bytes', 'bit.base58.b58encode_check': 'str',
    'bit.base58.b58decode_check': 'bytes', 'bit.base32.bech32_encode': 'str', 'bit.curve.x_to_y': 'int',
    'bit.format.multisig_to_redeemscript': 'bytes', 'bit.format.coords_to_public_key': 'bytes',
    'bit.format.segwit_scriptpubkey': 'bytes', 'bit.format.address_to_public_key_hash': 'bytes',
    'bit.transaction.address_to_scriptpubkey': 'bytes', 'bit.transaction.sign_tx': 'str',
    'bit.network.rates.currency_to_satoshi_cached': 'int', 'bit.network.rates.currency_to_satoshi': 'int',
    'bit.network.services.NetworkAPI.get_unspent': 'list:inst:bit.network.meta.Unspent',
    'bit.network.services.NetworkAPI.get_unspent_testnet': 'list:inst:bit.network.meta.Unspent',
    'bit.network.services.NetworkAPI.get_transactions': 'list:str', 'bit.network.services.NetworkAPI.get_transactions_testnet': 'list:str',
    'bit.transaction.deserialize': 'inst:bit.transaction.TxObj', 'bit.base32.bech32_polymod': 'int', 'bit.utils.get_signatures_from_script': 'list:bytes',
}

BOOL_OPS = {'eq', 'inset', 'gt0', 'ge0', 'and', 'or', 'not', 'truth', 'in', 'isinst', 'exists', 'raises', 'excmatch',
            'startswith', 'endswith', 'isnone', 'loopstop', 'lexlt', 'remat', 'hasattr', 'is', 'strtest', 'verify', 'broke'}


def kind(t):
    if t._kind == 0:
        t._kind = _kindof(t)
    return t._kind


def _kindof(t):
    op = t.op
    if op == 'const':
        v = t.args[0]
        return {bool: 'bool', int: 'int', str: 'str', bytes: 'bytes', type(None): 'none', float: 'float'}.get(type(v))
    if op in ('sym', 'cv'):
        return t.args[-1]
    if op in BOOL_OPS:
        return 'bool'
    if op == 'poly':
        ks = set()
        for c, m in t.args[0]:
            if isinstance(c, Fraction) and c.denominator != 1:
                ks.add('num')
            for a in m:
                ks.add(kind(a))
        if 'decimal' in ks:
            return 'decimal'
        if 'float' in ks:
            return 'float'
        if ks - {'int', 'bool'}:
            return 'num'
        return 'int'
    if op in ('cat', 'eachcat', 'rev', 'slice', 'repeat', 'text'):
        if op == 'cat':
            for a in t.args:
                k = kind(a)
                if k in ('bytes', 'str'):
                    return k
            return None
        if op == 'eachcat':
            return t.args[3]
        k = kind(t.args[0])
        return k
    if op == 'encode_':
        return 'bytes'
    if op == 'decode_':
        return 'str'
    if op in ('tobytes', 'sha256', 'ripemd160', 'unhex', 'encode', 'minbytes', 'bytesof'):
        return 'bytes'
    if op in ('hexs', 'str', 'decode', 'upper', 'lower', 'repr', 'hexint', 'fmt', 'strip'):
        return 'str'
    if op in ('len', 'frombytes', 'ord', 'bitlen', 'count', 'int', 'floordiv', 'mod', 'bitand', 'bitor', 'bitxor',
              'find', 'rfind', 'idx', 'ceil', 'floor', 'round', 'shl', 'shr', 'powmod'):
        if op == 'mod' and not isinstance(t.args[0], T):
            return None
        if op in ('floordiv', 'mod') and kind(t.args[0]) in ('decimal', 'float'):
            return kind(t.args[0])
        return 'int'
    if op == 'eachsum':
        return kind(t.args[2]) or 'num'
    if op in ('decimal', 'quantize'):
        return 'decimal'
    if op in ('float', 'now'):
        return 'float'
    if op == 'inv':
        return kind(t.args[0]) if kind(t.args[0]) in ('decimal', 'float') else 'num'
    if op == 'pow':
        return kind(t.args[0])
    if op == 'ite':
        a, b = kind(t.args[1]), kind(t.args[2])
        if a == b:
            return a
        if a in ('int', 'bool', 'num') and b in ('int', 'bool', 'num'):
            return 'num'
        if a == 'none':
            return ('opt' + b) if b in ('str', 'int', 'bytes') else None
        if b == 'none':
            return ('opt' + a) if a in ('str', 'int', 'bytes') else None
        return None
    if op == 'tuple':
        return 'tuple'
    if op in ('list', 'sorted', 'shuffled', 'listof'):
        return 'list'
    if op == 'dict':
        return 'dict'
    if op == 'attr':
        o, n = t.args
        k = kind(o)
        if isinstance(k, str) and k.startswith('inst:'):
            r = CLASS_ATTR_KIND.get((k[5:], n))
            if r:
                return r
        return ATTR_KIND.get(n)
    if op in ('elem', 'item', 'first', 'last'):
        if op == 'first' or op == 'last':
            return kind(t.args[3])
        k = kind(t.args[0])
        if op == 'elem' and t.args[0].op == 'range':
            return 'int'
        if isinstance(k, str):
            if k.startswith('list:'):
                return k[5:]
            if k == 'bytes':
                return 'int'
            if k == 'str':
                return 'str'
        o = t.args[0]
        if op == 'item' and o.op == 'call' and o.args[0].op == 'func' and o.args[0].args[0] in RETPART and t.args[1].op == 'const':
            return RETPART[o.args[0].args[0]].get(t.args[1].args[0])
        if op in ('item', 'elem') and callee_name(o) in BYTELISTS:
            return 'bytes'
        if op == 'elem':
            it = t.args[0]
            if it.op in ('sorted', 'slice', 'shuffled', 'rev', 'listof'):
                return kind(mk('elem', it.args[0], t.args[1])) if it.args[0].op != 'list' else None
        return None
    if op == 'dictget':
        return None
    if op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'to_int' and len(t.args[1]) == 0:
        return 'int'
    if op == 'call' and t.args[0].op == 'func' and t.args[0].args[0] in RETKIND:
        return RETKIND[t.args[0].args[0]]
    if op == 'call':
        return CALL_KIND.get(callee_name(t))
    if op in ('loopval', 'loopend'):
        return kind(t.args[4])
    if op == 'memoised':
        return kind(t.args[0])
    if op in ('normalize',):
        return kind(t.args[0])
    if op in ('strip', 'lstrip', 'rstrip', 'replace', 'rjust', 'ljust'):
        return kind(t.args[0])
    if op == 'join':
        return kind(t.args[0])
    if op == 'inst':
        return 'inst:' + t.args[0]
    if op == 'ref':
        return t.args[1]
    return None


CALL_KIND = {}

# kinds of the parts of the results of functions returning tuples
RETPART = {
    'bit.base32.decode': {0: 'optint', 1: 'list:int'}, 'bit.base32.bech32_decode': {0: 'optstr', 1: 'list:int'},
    'bit.transaction.select_coins': {0: 'list:inst:bit.network.meta.Unspent', 1: 'int'},
    'bit.transaction.sanitize_tx_data': {0: 'list:inst:bit.network.meta.Unspent', 1: 'list'},
}


# results which are a pair of values or (None, None)
BYTELISTS = {'bit.utils.get_signatures_from_script'}
RETPAIR = {'bit.base32.decode', 'bit.base32.bech32_decode'}


def callee_name(t):
    f = t.args[0] if t.args else None
    if isinstance(f, T) and f.op in ('ext', 'func', 'cls'):
        return f.args[0]
    return None


NUMK = {'int', 'bool', 'num', 'decimal', 'float'}


def is_num(t):
    return kind(t) in NUMK


def is_bytesish(t):
    return kind(t) in ('bytes', 'str')


def is_listkind(k):
    return isinstance(k, str) and (k == 'list' or k.startswith('list:'))


# ------------------------------------------------------------- polynomials --
def to_poly(t):
    if t.op == 'poly':
        return dict((m, c) for c, m in t.args[0])
    if t.op == 'const' and isinstance(t.args[0], (int, bool)):
        v = int(t.args[0])
        return {(): v} if v else {}
    return {(t,): 1}


def _monokey(m):
    return (len(m), tuple(a.dig for a in m))


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if isinstance(c, Fraction):
                if c.denominator == 1:
                    return C(int(c))
                return mk('poly', ((c, ()),))
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = []
    for m in sorted(p, key=_monokey):
        c = p[m]
        if isinstance(c, Fraction) and c.denominator == 1:
            c = int(c)
        items.append((c, m))
    return mk('poly', tuple(items))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = list(m1 + m2)
            # cancel x * inv(x)
            changed = True
            while changed:
                changed = False
                for a in m:
                    if a.op == 'inv' and a.args[0] in m:
                        m.remove(a)
                        m.remove(a.args[0])
                        changed = True
                        break
            m = tuple(sorted(m, key=lambda a: a.dig))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def add(a, b):
    return from_poly(padd(to_poly(a), to_poly(b)))


def numeric(t):
    """a term known to be a number: untyped sums are arithmetic"""
    if t.op == 'plus':
        r = numeric(t.args[0])
        for x in t.args[1:]:
            r = add(r, numeric(x))
        return r
    return t


def sub(a, b):
    a, b = numeric(a), numeric(b)
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 200:
        return mk('mul', *sorted((a, b), key=lambda x: x.dig))
    return from_poly(pmul(pa, pb))


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def poly_const(t):
    if t.op == 'const' and isinstance(t.args[0], (int, bool)):
        return Fraction(int(t.args[0]))
    if t.op == 'poly' and len(t.args[0]) == 1 and t.args[0][0][1] == ():
        return Fraction(t.args[0][0][0])
    return None


def div(a, b):
    c = poly_const(b)
    if c is not None and c != 0:
        return from_poly({m: Fraction(k) / c for m, k in to_poly(a).items()})
    if a is b:
        return C(1)
    # b a single monomial: distribute the inverse
    pb = to_poly(b)
    if len(pb) == 1:
        (m, k), = pb.items()
        r = to_poly(a)
        for x in m:
            r = pmul(r, {((x.args[0] if x.op == 'inv' else mk('inv', x)),): 1})
        return from_poly({mm: Fraction(kk) / k for mm, kk in r.items()})
    return mul(a, mk('inv', b))


def floordiv(a, b):
    ca, cb = poly_const(a), poly_const(b)
    if ca is not None and cb:
        return C(ca // cb)
    if cb == 1 and kind(a) in ('int', 'bool'):
        return a
    if cb and kind(a) in ('int', 'bool'):
        if a.op == 'floordiv' and poly_const(a.args[1]) and poly_const(a.args[1]) > 0 and cb > 0:
            return floordiv(a.args[0], C(poly_const(a.args[1]) * cb))
    return mk('floordiv', a, b)


def mod(a, b):
    ca, cb = poly_const(a), poly_const(b)
    if ca is not None and cb:
        return C(ca % cb)
    return mk('mod', a, b)


def pow_(a, b):
    ca, cb = poly_const(a), poly_const(b)
    if ca is not None and cb is not None and cb.denominator == 1 and abs(cb) <= 512:
        return C(ca ** int(cb)) if cb >= 0 else C(Fraction(1) / ca ** int(-cb))
    if cb is not None and cb.denominator == 1 and 0 <= cb <= 4:
        r = C(1)
        for _ in range(int(cb)):
            r = mul(r, a)
        return r
    return mk('pow', a, b)


def small_powers(a, m):
    """powers modulo m in the polynomial a, written out"""
    return {x: pow_(x.args[0], x.args[1]) for k in to_poly(a) for x in k
            if x.op == 'powmod' and x.args[2] is m and kind(x.args[0]) == 'int' and poly_const(x.args[1]) in (2, 3, 4)}


def powmod(a, e, m):
    ca, ce, cm = poly_const(a), poly_const(e), poly_const(m)
    if cm and cm > 0 and cm.denominator == 1:
        if a.op == 'powmod' and a.args[2] is m:
            return powmod(a.args[0], mul(a.args[1], e), m)
        if kind(a) == 'int':
            # only the residue of the base matters
            r = {x: x.args[0] for x in walk(a) if x.op == 'mod' and x.args[1] is m and kind(x.args[0]) == 'int'} if a.op in ('poly', 'mod') else {}
            r = {x: y for x, y in r.items() if a is x or any(x in k for k in to_poly(a))}
            r.update(small_powers(a, m))
            while r:
                p = C(0)
                for k, c in to_poly(a).items():
                    t = C(c)
                    for x in k:
                        t = mul(t, r.get(x, x))
                    p = add(p, t)
                a = p
                r = {x: x.args[0] for k in to_poly(a) for x in k if x.op == 'mod' and x.args[1] is m}
                r.update(small_powers(a, m))
        if ca is not None and ce is not None and ca.denominator == ce.denominator == 1 and ce >= 0:
            return C(pow(int(ca), int(ce), int(cm)))
    return mk('powmod', a, e, m)


def bitand(a, b):
    ca, cb = poly_const(a), poly_const(b)
    if ca is not None and cb is not None:
        return C(int(ca) & int(cb))
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None and cb >= 0 and (int(cb) & (int(cb) + 1)) == 0:
        return mod(a, C(int(cb) + 1))
    if cb is not None and cb > 0 and kind(a) in ('int', 'bool'):
        low = int(cb) & -int(cb)
        ones = int(cb) // low
        if ones & (ones + 1) == 0:
            # consecutive bits, at their place
            return mul(C(low), mod(floordiv(a, C(low)), C(ones + 1)))
    x, y = sorted((a, b), key=lambda t: t.dig)
    return mk('bitand', x, y)


def bitop(name, a, b):
    ca, cb = poly_const(a), poly_const(b)
    if ca is not None and cb is not None:
        return C(int(ca) | int(cb)) if name == 'bitor' else C(int(ca) ^ int(cb))
    if ca == 0:
        return b
    if cb == 0:
        return a
    parts = []
    for t in (a, b):
        parts.extend(t.args if t.op == name else (t,))
    if name == 'bitor':
        parts = list(dict.fromkeys(parts))
    consts = [int(poly_const(t)) for t in parts if poly_const(t) is not None]
    if consts:
        parts = [t for t in parts if poly_const(t) is None]
        k = 0
        for c in consts:
            k = k | c if name == 'bitor' else k ^ c
        if k:
            parts.append(C(k))
        if len(parts) == 1:
            return parts[0]
    parts.sort(key=lambda t: t.dig)
    return mk(name, *parts)


def shl(a, b):
    cb = poly_const(b)
    if cb is not None and 0 <= cb <= 512:
        return mul(a, C(2 ** int(cb)))
    return mul(a, pow_(C(2), b))


def shr(a, b):
    cb = poly_const(b)
    if cb is not None and 0 <= cb <= 512:
        return floordiv(a, C(2 ** int(cb)))
    return floordiv(a, pow_(C(2), b))


# ----------------------------------------------------------------- booleans -
_not_memo = {}
_and_memo = {}
_or_memo = {}


def Not(t):
    r = _not_memo.get(t)
    if r is None:
        r = _not_memo[t] = _Not(t)
    return r


def And(ts):
    k = tuple(ts)
    r = _and_memo.get(k)
    if r is None:
        r = _and_memo[k] = _And(k)
    return r


def Or(ts):
    k = tuple(ts)
    r = _or_memo.get(k)
    if r is None:
        r = _or_memo[k] = _Or(k)
    return r


def _Not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return Or([Not(a) for a in t.args])
    if t.op == 'or':
        return And([Not(a) for a in t.args])
    if t.op == 'ite' and kind(t) == 'bool':
        return ite(t.args[0], Not(t.args[1]), Not(t.args[2]))
    if t.op == 'ge0':
        # not (p >= 0)  <=>  -p > 0
        return mk('gt0', neg(t.args[0]))
    if t.op == 'gt0' and not _intish(t.args[0]):
        return mk('ge0', neg(t.args[0]))
    return mk('not', t)


def _And(ts):
    out = []
    seen = set()
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == 'and':
            stack.extend(reversed(t.args))
            continue
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
    for t in out:
        if Not(t) in seen:
            return FALSE
    # unit resolution: a and (not a or b) -> a and b
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(out):
            if t.op == 'or':
                new = [x for x in t.args if Not(x) not in seen]
                if any(x in seen for x in t.args):
                    out.pop(i)
                    seen.discard(t)
                    changed = True
                    break
                if len(new) < len(t.args):
                    rest = out[:i] + out[i + 1:] + [Or(new)]
                    return And(rest)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda a: a.dig))


def _Or(ts):
    out = []
    seen = set()
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == 'or':
            stack.extend(reversed(t.args))
            continue
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
    for t in out:
        if Not(t) in seen:
            return TRUE
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(out):
            if t.op == 'and':
                if any(x in seen for x in t.args):
                    out.pop(i)
                    seen.discard(t)
                    changed = True
                    break
                new = [x for x in t.args if Not(x) not in seen]
                if len(new) < len(t.args):
                    return Or(out[:i] + out[i + 1:] + [And(new)])
    # (a and x) or (not a and x) -> x
    for i, t in enumerate(out):
        if t.op != 'and':
            continue
        for j in range(i):
            u = out[j]
            if u.op == 'and' and len(u.args) == len(t.args):
                s1, s2 = set(t.args), set(u.args)
                d1, d2 = s1 - s2, s2 - s1
                if len(d1) == 1 and len(d2) == 1 and Not(next(iter(d1))) is next(iter(d2)):
                    rest = [x for n, x in enumerate(out) if n not in (i, j)]
                    return Or(rest + [And(list(s1 & s2))])
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out, key=lambda a: a.dig))


def truth(t):
    if t.op == 'const':
        return TRUE if t.args[0] else FALSE
    k = kind(t)
    if k == 'bool' and t.op in BOOL_OPS:
        return t
    if t.op == 'poly':
        return Not(eq(t, C(0)))
    if t.op == 'item' and t.args[1] is C(1) and t.args[0].op == 'call' and callee_name(t.args[0]) == 'bit.base32.decode':
        # a witness program has at least two bytes
        return Not(isnone(item(t.args[0], C(0))))
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if k in ('int', 'num', 'float', 'decimal'):
        return Not(eq(t, C(0)))
    if t.op == 'tuple':
        return TRUE if t.args else FALSE
    if t.op in ('func', 'cls', 'ext', 'clo', 'inst', 'bound') or k == 'inst:coincurve.PrivateKey':
        return TRUE
    if t.op in ('list', 'cat'):
        n = length(t)
        if n.op != 'len' or n.args[0] is not t:
            c = poly_const(n)
            if c is not None:
                return TRUE if c else FALSE
            if t.op == 'cat':
                lo = min_len(t)
                if lo > 0:
                    return TRUE
                return Or([truth(a) for a in t.args])
            if t.op == 'list':
                return list_nonempty(t)
    if t.op in ('tobytes', 'sha256', 'ripemd160', 'minbytes'):
        return TRUE
    if t.op in ('rev', 'hexs', 'unhex', 'encode'):
        return truth(t.args[0])
    if t.op in ('sorted', 'listof', 'shuffled'):
        return truth(t.args[0])
    if t.op == 'eachcat':
        it, kk, body, _ = t.args
        return exists(it, kk, truth(body))
    return mk('truth', t)


def shuffled(x):
    if x.op == 'list' and not any(s.op in ('each', 'opt', 'spread', 'upd') for s in x.args) and len(x.args) < 2:
        return x
    return mk('shuffled', x)


def list_nonempty(t):
    conds = []
    for s in t.args:
        if s.op == 'opt':
            conds.append(And([s.args[0], list_nonempty(mk('list', *s.args[1:]))]))
        elif s.op == 'each':
            body = mk('list', *s.args[2])
            conds.append(exists(s.args[0], s.args[1], list_nonempty(body)))
        elif s.op == 'spread':
            conds.append(truth(s.args[0]))
        else:
            return TRUE
    return Or(conds)


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    k = kind(t)
    if t.op in ('const', 'poly', 'cat', 'tuple', 'list', 'dict', 'inst', 'func', 'cls', 'ext', 'tobytes', 'sha256',
                'ripemd160', 'hexs', 'decimal', 'int', 'ref', 'clo', 'bound') or t.op in BOOL_OPS:
        return FALSE
    if t.op == 'call' and callee_name(t) in RETKIND and k in ('bytes', 'str', 'int', 'bool', 'list'):
        return FALSE
    if t.op in ('item', 'elem') and callee_name(t.args[0]) in BYTELISTS:
        return FALSE
    return mk('isnone', t)


def _intish(t):
    k = kind(t)
    return k not in ('float', 'decimal')


def eq(a, b):
    if a is b:
        return TRUE
    if a is NONE or b is NONE:
        return isnone(b if a is NONE else a)
    if is_const(a) and is_const(b):
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return And([eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if x is TRUE and kind(y) == 'bool':
            return truth(y)
        if x is FALSE and kind(y) == 'bool':
            return Not(truth(y))
    ka, kb = kind(a), kind(b)
    if ka in NUMK and kb in NUMK or a.op == 'poly' or b.op == 'poly':
        d = sub(a, b)
        c = poly_const(d)
        if c is not None:
            return TRUE if c == 0 else FALSE
        return eq0(d)
    for x, y in ((a, b), (b, a)):
        if x.op == 'item' and is_const(y) and isinstance(y.args[0], str) and x.args[1] is C(0) and kind(x.args[0]) == 'str' \
                and x.args[0].op not in ('text', 'item', 'elem'):
            if len(y.args[0]) != 1:
                return FALSE
            return eq(slice_(x.args[0], NONE, C(1), NONE), y)
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (is_const(y) or y.op == 'tuple'):
            # resolve comparisons of a choice between constants
            u, v = x.args[1], x.args[2]
            if _decidable_const(u) or _decidable_const(v):
                return ite(x.args[0], eq(u, y), eq(v, y))
    if a.op == 'list' and b.op == 'list':
        if not a.args or not b.args:
            o = b if not a.args else a
            return Not(list_nonempty(o))
    for x, y in ((a, b), (b, a)):
        if x.op == 'list' and not x.args:
            return Not(truth(y))
        if x in (EB, ES):
            if kind(y) in ('bytes', 'str'):
                return Not(truth(y))
        if x.op == 'slice' and kind(x) == 'bytes' and is_const(y) and isinstance(y.args[0], bytes) and len(y.args[0]) == 1 \
                and x.args[2] is NONE and x.args[3] is NONE and x.args[1] is C(-1):
            # the last byte, of a string that has one
            return And([truth(x.args[0]), eq(item(x.args[0], C(-1)), C(y.args[0][0]))])
    # byte strings that start / end with the same constant parts
    if ka == 'bytes' and kb == 'bytes' and is_const(b) and a.op == 'slice' or \
            ka == 'bytes' and kb == 'bytes' and is_const(a) and b.op == 'slice':
        pass
    if ka in ('bytes', 'str') and kb in ('bytes', 'str') and ka != kb:
        return FALSE
    if ka == 'none' or kb == 'none':
        return FALSE
    x, y = sorted((a, b), key=lambda t: (t.op == 'const', t.dig))
    return mk('eq', x, y)


def _decidable_const(u):
    return is_const(u) or (u.op == 'tuple') or (u.op == 'ite' and (_decidable_const(u.args[1]) or _decidable_const(u.args[2])))


def eq0(d):
    """canonical `poly == 0`"""
    p = to_poly(d)
    # lengths: len(x) == 0  <=>  not truth(x)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0].op == 'len':
            return Not(truth(m[0].args[0]))
        if len(m) == 1 and m[0].op == 'ite':
            t = m[0]
            return ite(t.args[0], eq(t.args[1], C(0)), eq(t.args[2], C(0)))
    if len(p) == 2 and () in p:
        (m,) = [k for k in p if k != ()]
        if len(m) == 1 and m[0].op == 'mod' and m[0].args[1] is C(2) and p[m] in (1, -1):
            r = Fraction(-p[()]) / p[m]
            return Not(eq(m[0], C(0))) if r == 1 else FALSE
        if len(m) == 1 and m[0].op == 'ite' and p[m] in (1, -1):
            t = m[0]
            if _decidable_const(t.args[1]) or _decidable_const(t.args[2]):
                rhs = C(Fraction(-p[()]) / p[m])
                return ite(t.args[0], eq(t.args[1], rhs), eq(t.args[2], rhs))
    # normalise scale & sign
    ms = sorted((m for m in p if m != ()), key=_monokey)
    lead = Fraction(p[ms[0]])
    p = {m: Fraction(c) / lead for m, c in p.items()}
    t = from_poly(p)
    return mk('eq', t, C(0)) if p.get((), 0) == 0 or True else None


def min_len(t):
    op = t.op
    if op == 'const' and isinstance(t.args[0], (bytes, str)):
        return len(t.args[0])
    if op == 'cat':
        return sum(min_len(a) for a in t.args)
    if op == 'tobytes':
        c = poly_const(t.args[1])
        return int(c) if c is not None else 0
    if op == 'sha256':
        return 32
    if op == 'ripemd160':
        return 20
    if op == 'minbytes':
        return 1
    if op == 'ite':
        return min(min_len(t.args[1]), min_len(t.args[2]))
    if op == 'str' and kind(t.args[0]) in NUMK:
        return 1
    return 0


def gt0(d):
    """canonical `poly > 0`"""
    c = poly_const(d)
    if c is not None:
        return TRUE if c > 0 else FALSE
    p = to_poly(d)
    if any(m and len(m) == 1 and m[0].op == 'ite' for m in p) and len([m for m in p if m]) == 1:
        (m,) = [m for m in p if m]
        t = m[0]
        if _decidable_const(t.args[1]) or _decidable_const(t.args[2]):
            rest = {k: v for k, v in p.items() if k != m}
            return ite(t.args[0], gt0(from_poly(padd(rest, {k: v * p[m] for k, v in to_poly(t.args[1]).items()}))),
                       gt0(from_poly(padd(rest, {k: v * p[m] for k, v in to_poly(t.args[2]).items()}))))
    ms = sorted((m for m in p if m != ()), key=_monokey)
    lead = Fraction(p[ms[0]])
    integral = _intish(d)
    scale = abs(lead)
    if scale != 1 and all(Fraction(v) % scale == 0 for m, v in p.items() if m != ()):
        k0 = Fraction(p.get((), 0))
        q = {m: Fraction(v) / scale for m, v in p.items() if m != ()}
        if integral:
            # s*x + k > 0 <=> x > -k/s <=> x + ceil(k/s)... : x > -k/s <=> x >= floor(-k/s)+1
            f = (-k0 / scale)
            fl = f.numerator // f.denominator
            k1 = -fl
        else:
            k1 = k0 / scale
        q[()] = k1
        if q[()] == 0:
            del q[()]
        p = q
        lead = Fraction(p[ms[0]])
    if len(p) <= 2:
        # len(x) > 0, len(x) >= 1
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0].op in ('len', 'count'):
            x = ms[0][0]
            k0 = p.get((), 0)
            if lead == 1 and k0 == 0 and x.op == 'len':
                return truth(x.args[0])
            if lead == 1 and k0 > 0:
                return TRUE
            if lead == -1 and k0 == 1 and x.op == 'len':
                return Not(truth(x.args[0]))
            if lead == -1 and k0 <= 0:
                return FALSE
    t = from_poly(p)
    if lead < 0:
        if integral:
            # p > 0  <=>  not (1 - p > 0)
            return mk('not', mk('gt0', from_poly(padd({(): 1}, p, -1))))
    return mk('gt0', t)


def lt(a, b):
    if is_const(a) and is_const(b):
        try:
            return TRUE if a.args[0] < b.args[0] else FALSE
        except TypeError:
            pass
    if a.op == 'tuple' or b.op == 'tuple' or kind(a) in ('bytes', 'str') or kind(b) in ('bytes', 'str'):
        return mk('lexlt', a, b)
    return gt0(sub(b, a))


def le(a, b):
    if a.op == 'tuple' or b.op == 'tuple' or kind(a) in ('bytes', 'str') or kind(b) in ('bytes', 'str'):
        return Not(lt(b, a))
    d = sub(b, a)
    if _intish(d):
        return Not(lt(b, a))
    c = poly_const(d)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    return mk('ge0', d)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    ba = a.op in BOOL_OPS or a in (TRUE, FALSE)
    bb = b.op in BOOL_OPS or b in (TRUE, FALSE)
    if ba and bb:
        if a is TRUE:
            return Or([c, b])
        if b is TRUE:
            return Or([Not(c), a])
        if a is FALSE:
            return And([Not(c), b])
        if b is FALSE:
            return And([c, a])
        return Or([And([c, a]), And([Not(c), b])])
    return mk('ite', c, a, b)


def _char(v):
    return v.op == 'const' and isinstance(v.args[0], str) and len(v.args[0]) == 1


def inset(x, chars):
    chars = ''.join(sorted(set(chars)))
    if is_const(x):
        return TRUE if isinstance(x.args[0], str) and len(x.args[0]) == 1 and x.args[0] in chars else FALSE
    return mk('inset', x, C(chars))


def in_(x, container):
    if container.op in ('tuple', 'list') and len(container.args) >= 4 and all(_char(e) for e in container.args):
        return inset(x, [e.args[0] for e in container.args])
    if container.op == 'dict' and len(container.args) >= 4 and all(e.op == 'kv' and _char(e.args[0]) for e in container.args):
        return inset(x, [e.args[0].args[0] for e in container.args])
    if container.op == 'const' and isinstance(container.args[0], str) and len(container.args[0]) >= 4 \
            and x.op in ('elem', 'item') and kind(x.args[0]) == 'str':
        return inset(x, container.args[0])
    if container.op == 'tuple':
        return Or([eq(x, e) for e in container.args])
    if container.op == 'list':
        conds = []
        for s in container.args:
            if s.op == 'opt':
                conds.append(And([s.args[0], in_(x, mk('list', *s.args[1:]))]))
            elif s.op == 'each':
                conds.append(exists(s.args[0], s.args[1], in_(x, mk('list', *s.args[2]))))
            elif s.op == 'spread':
                conds.append(in_(x, s.args[0]))
            else:
                conds.append(eq(x, s))
        return Or(conds)
    if container.op == 'ite':
        return ite(container.args[0], in_(x, container.args[1]), in_(x, container.args[2]))
    if container.op == 'dict':
        conds = []
        for e in container.args:
            if e.op == 'kv':
                conds.append(eq(x, e.args[0]))
            elif e.op == 'kvopt':
                conds.append(And([e.args[0], eq(x, e.args[1])]))
            elif e.op == 'kveach':
                it, k, g, kk, vv = e.args
                conds.append(exists(it, k, And([g, eq(x, kk)])))
            elif e.op == 'kvspread':
                conds.append(mk('in', x, e.args[0]))
        return Or(conds)
    if is_const(x) and is_const(container):
        try:
            return TRUE if x.args[0] in container.args[0] else FALSE
        except TypeError:
            pass
    return mk('in', x, container)


# ------------------------------------------------------------ byte strings --
def cat(parts, k='bytes'):
    empty = EB if k == 'bytes' else ES
    out = []
    stack = list(parts)[::-1]
    while stack:
        p = stack.pop()
        if p.op in ('cat', 'plus'):
            stack.extend(reversed(p.args))
            continue
        if p in (EB, ES):
            continue
        if out and is_const(p) and is_const(out[-1]) and type(p.args[0]) is type(out[-1].args[0]):
            out[-1] = C(out[-1].args[0] + p.args[0])
            continue
        # adjacent slices x[a:b] + x[b:c]
        if out and p.op == 'slice' and out[-1].op == 'slice' and out[-1].args[0] is p.args[0] and \
                p.args[3] is NONE and out[-1].args[3] is NONE and out[-1].args[2] is p.args[1] and \
                _nonneg(p.args[1]) and _nonneg(out[-1].args[1]):
            q = out.pop()
            stack.append(slice_(p.args[0], q.args[1], p.args[2], NONE))
            continue
        out.append(p)
    if not out:
        return empty
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def _nonneg(t):
    c = poly_const(t) if t is not NONE else Fraction(0)
    return c is not None and c >= 0


def plus(a, b):
    """`a + b` for values of any kind."""
    ka, kb = kind(a), kind(b)
    for k in (ka, kb):
        if k in ('bytes', 'str'):
            return cat([a, b], k)
        if k in ('optstr',):
            return cat([a, b], 'str')
    if ka in NUMK or kb in NUMK:
        return add(a, b)
    if a.op == 'list' or b.op == 'list':
        return lcat([a, b])
    if is_listkind(ka) or is_listkind(kb):
        return lcat([a, b])
    if a.op == 'tuple' and b.op == 'tuple':
        return Tup(a.args + b.args)
    parts = (a.args if a.op == 'plus' else (a,)) + (b.args if b.op == 'plus' else (b,))
    return mk('plus', *parts)


def members(c):
    """the list of the members of a set built from the elements of the list c"""
    if c.op == 'list':
        if all(e.op == 'const' for e in c.args):
            return mk('list', *dict.fromkeys(c.args))
        if len(c.args) <= 1 and not any(e.op in ('each', 'spread', 'upd', 'opt', 'kveach') for e in c.args):
            return c
        if len(c.args) == 1 and c.args[0].op == 'each' and c.args[0].args[0].op == 'setof' and c.args[0].args[2] == (mk('elem', *c.args[0].args[:2]),):
            return c
    return mk('list', spread(mk('setof', c)))


def lcat(parts):
    segs = []
    for p in parts:
        if p.op == 'list':
            segs.extend(p.args)
        else:
            segs.append(spread(p))
    return mk('list', *segs)


def spread(it):
    e = mk('elem', it, 0)
    return mk('each', it, 0, (e,))


def slice_(x, lo, hi, step=NONE):
    if lo is C(0):
        lo = NONE
    if step is C(1):
        step = NONE
    if step is not NONE and poly_const(step) == -1 and lo is NONE and hi is NONE:
        return rev(x)
    if lo is NONE and hi is NONE and step is NONE:
        return x if x.op != 'ref' else x
    if x.op == 'ite':
        return ite(x.args[0], slice_(x.args[1], lo, hi, step), slice_(x.args[2], lo, hi, step))
    if step is NONE:
        cl = poly_const(lo) if lo is not NONE else Fraction(0)
        ch = poly_const(hi) if hi is not NONE else None
        if is_const(x) and isinstance(x.args[0], (bytes, str)) and cl is not None and (hi is NONE or ch is not None):
            return C(x.args[0][int(cl):None if hi is NONE else int(ch)])
        if x.op == 'tuple' and cl is not None and (hi is NONE or ch is not None):
            return Tup(x.args[int(cl):None if hi is NONE else int(ch)])
        if x.op == 'list' and cl is not None and (hi is NONE or ch is not None) and \
                all(s.op not in ('each', 'opt', 'spread') for s in x.args):
            return mk('list', *x.args[int(cl):None if hi is NONE else int(ch)])
        if x.op == 'list' and lo is NONE and ch == -1 and x.args and \
                x.args[-1].op not in ('each', 'opt', 'spread'):
            return mk('list', *x.args[:-1])
        if x.op == 'list' and hi is NONE and cl is not None and cl >= 0 and \
                all(s.op not in ('each', 'opt', 'spread') for s in x.args[:int(cl)]) and len(x.args) >= cl:
            return mk('list', *x.args[int(cl):])
        if x.op == 'cat' and cl is not None and cl >= 0 and hi is NONE:
            # drop a known-length prefix
            n = int(cl)
            parts = list(x.args)
            while parts and n > 0:
                L = known_len(parts[0])
                if L is None:
                    break
                if L <= n:
                    n -= L
                    parts.pop(0)
                elif is_const(parts[0]):
                    parts[0] = C(parts[0].args[0][n:])
                    n = 0
                else:
                    break
            if n == 0:
                return cat(parts, kind(x) or 'bytes')
        if x.op == 'cat' and (cl == 0 or lo is NONE) and ch is not None and ch >= 0:
            n = int(ch)
            out = []
            for p in x.args:
                if n == 0:
                    break
                L = known_len(p)
                if L is None:
                    out = None
                    break
                if L <= n:
                    out.append(p)
                    n -= L
                else:
                    out.append(slice_(p, NONE, C(n)))
                    n = 0
            if out is not None:
                return cat(out, kind(x) or 'bytes')
        if x.op == 'slice' and x.args[3] is NONE and cl is not None and cl >= 0:
            b_lo, b_hi = x.args[1], x.args[2]
            if _nonneg(b_lo) or b_lo is NONE or _nonneg_expr(b_lo):
                base = C(0) if b_lo is NONE else b_lo
                if b_hi is NONE and (hi is NONE or (ch is not None and ch >= 0) or _nonneg_expr(hi)):
                    return slice_(x.args[0], add(base, C(cl)), NONE if hi is NONE else add(base, hi))
                if hi is NONE and _nonneg(b_hi):
                    return slice_(x.args[0], add(base, C(cl)), b_hi)
                if ch is not None and ch >= 0 and _nonneg(b_hi) and poly_const(base) is not None:
                    return slice_(x.args[0], add(base, C(cl)), C(min(poly_const(b_hi), poly_const(base) + ch)))
                if hi is NONE and b_hi is not NONE and poly_const(b_hi) is not None and poly_const(b_hi) < 0:
                    return slice_(x.args[0], add(base, C(cl)), b_hi)
            if hi is NONE and b_hi is NONE and lo is not NONE and b_lo is not NONE:
                pass
        if x.op == 'slice' and x.args[3] is NONE and x.args[2] is NONE and hi is NONE and \
                (_nonneg_expr(x.args[1]) and _nonneg_expr(lo)):
            return slice_(x.args[0], add(x.args[1] if x.args[1] is not NONE else C(0), lo if lo is not NONE else C(0)), NONE)
        # x[len(x)-n:] -> x[-n:]
        if lo is not NONE and cl is None:
            d = sub(lo, length(x))
            c = poly_const(d)
            if c is not None and c < 0:
                return slice_(x, C(c), hi)
        if hi is not NONE and ch is None:
            d = sub(hi, length(x))
            c = poly_const(d)
            if c is not None and c < 0:
                return slice_(x, lo, C(c))
            if c == 0:
                return slice_(x, lo, NONE)
        if hi is not NONE and lo is NONE and ch is not None and ch >= 0:
            L = known_len(x)
            if L is not None and L <= ch:
                return x
    return mk('slice', x, lo, hi, step)


_assumed = set()


def _nonneg_expr(t):
    """obviously non-negative term"""
    if t is NONE:
        return True
    c = poly_const(t)
    if c is not None:
        return c >= 0
    if t.op in ('len', 'idx', 'frombytes', 'count', 'ord', 'bitlen'):
        return True
    if t in _assumed:
        return True
    if t.op in ('floordiv', 'mod'):
        c = poly_const(t.args[1])
        return bool(c) and c > 0 and kind(t.args[0]) in ('int', 'bool') and (t.op == 'mod' or _nonneg_expr(t.args[0]))
    if t.op == 'varint':
        return True
    if t.op == 'item' and kind(t.args[0]) == 'bytes':
        return True
    if t.op == 'ite':
        return _nonneg_expr(t.args[1]) and _nonneg_expr(t.args[2])
    if t.op == 'poly':
        return all(c >= 0 and all(_nonneg_expr(a) for a in m) for c, m in t.args[0])
    if t.op == 'pow':
        return _nonneg_expr(t.args[0])
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'to_int':
        return True
    return False


def known_len(t):
    op = t.op
    if op == 'const' and isinstance(t.args[0], (bytes, str)):
        return len(t.args[0])
    if op == 'sha256':
        return 32
    if op == 'ripemd160':
        return 20
    if op == 'tobytes':
        c = poly_const(t.args[1])
        return int(c) if c is not None else None
    if op == 'cat':
        n = 0
        for a in t.args:
            L = known_len(a)
            if L is None:
                return None
            n += L
        return n
    if op == 'rev':
        return known_len(t.args[0])
    if op in ('item', 'elem') and kind(t.args[0]) == 'str':
        return 1
    if op == 'hexs':
        L = known_len(t.args[0])
        return None if L is None else 2 * L
    if op == 'ite':
        a, b = known_len(t.args[1]), known_len(t.args[2])
        return a if a == b else None
    return None


def length(t):
    L = known_len(t)
    if L is not None:
        return C(L)
    op = t.op
    if op == 'tuple':
        return C(len(t.args))
    if op == 'list':
        r = C(0)
        for s in t.args:
            r = add(r, seglen(s))
        return r
    if op == 'dict' and all(e.op == 'kv' for e in t.args):
        return C(len(t.args))
    if op == 'cat':
        r = C(0)
        for a in t.args:
            r = add(r, length(a))
        return r
    if op in ('rev', 'sorted', 'shuffled', 'listof'):
        return length(t.args[0])
    if op == 'hexs':
        return mul(C(2), length(t.args[0]))
    if op == 'tobytes':
        return t.args[1]
    if op == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if op == 'eachcat':
        return eachsum(t.args[0], t.args[1], length(t.args[2]))
    if op == 'repeat':
        L = known_len(t.args[0])
        if L is not None and _nonneg_expr(t.args[1]):
            return mul(C(L), t.args[1])
    if op == 'slice' and t.args[2] is NONE and t.args[3] is NONE and t.args[1] is not NONE and t.args[1].op == 'first' \
            and t.args[1].args[0] is t.args[0] and t.args[1].args[3].op == 'idx':
        # from the position of an element on
        return sub(length(t.args[0]), t.args[1])
    if op == 'loopend':
        r = grown_len(t)
        if r is not None:
            return r
    return mk('len', t)


def grown_len(t):
    """length of a list that gets the same number of elements in every round of a loop without stop"""
    it, k, vars_, stop, expr = t.args
    if stop is not FALSE or it.op == 'forever':
        return None
    c = whole(expr)
    lv = loop_level(t)
    if c is None or c.op != 'cv' or c.args[0] != lv or c.args[1] >= len(vars_):
        return None
    init, upd = vars_[c.args[1]].args[:2]
    if init.op != 'list' or upd.op != 'list' or not upd.args or whole(mk('list', upd.args[0])) is not c:
        return None
    if any(x.op in ('each', 'opt', 'spread', 'upd', 'cell', 'seg') for x in upd.args[1:]):
        return None
    return add(length(init), mul(C(len(upd.args) - 1), iter_len(it)))


def whole(x):
    """the sequence a list term copies, or the term itself"""
    if x.op == 'list':
        if len(x.args) != 1 or x.args[0].op not in ('each', 'spread'):
            return None
        e = x.args[0]
        if e.op == 'spread':
            return e.args[0]
        return e.args[0] if e.args[2] == (mk('elem', e.args[0], e.args[1]),) else None
    return x


def seglen(s):
    if s.op == 'opt':
        return ite(s.args[0], length(mk('list', *s.args[1:])), C(0))
    if s.op == 'each':
        return eachsum(s.args[0], s.args[1], length(mk('list', *s.args[2])))
    if s.op == 'spread':
        return length(s.args[0])
    return C(1)


def rev(x):
    if x.op == 'rev':
        return x.args[0]
    if is_const(x) and isinstance(x.args[0], (bytes, str)):
        return C(x.args[0][::-1])
    if x.op == 'tobytes':
        return tobytes(x.args[0], x.args[1], 'little' if x.args[2] == 'big' else 'big')
    if x.op == 'tuple':
        return Tup(x.args[::-1])
    if x.op == 'list' and all(s.op not in ('each', 'opt', 'spread') for s in x.args):
        return mk('list', *x.args[::-1])
    if known_len(x) == 1:
        return x
    if x.op == 'cat' and all(kind(a) in ('bytes', 'str') or is_const(a) for a in x.args):
        return cat([rev(a) for a in x.args[::-1]], kind(x) or 'bytes')
    if x.op == 'slice' and x.args[3] is NONE and x.args[1] is NONE and poly_const(x.args[2]) == 1 if x.op == 'slice' and x.args[2] is not NONE else False:
        return x
    return mk('rev', x)


def tobytes(x, n, order):
    cx, cn = poly_const(x), poly_const(n)
    if cx is not None and cn is not None and cx.denominator == 1 and cx >= 0 and cn >= 0:
        try:
            return C(int(cx).to_bytes(int(cn), order))
        except OverflowError:
            return mk('overflow', x, n)
    if cn == 1:
        order = 'big'
    if x.op == 'frombytes':
        b = x.args[0]
        L = known_len(b)
        if L is not None and cn == L:
            return b if x.args[1] == order or L == 1 else rev(b)
    return mk('tobytes', x, n, order)


def frombytes(b, order):
    if is_const(b) and isinstance(b.args[0], bytes):
        return C(int.from_bytes(b.args[0], order))
    if b.op == 'tobytes':
        if b.args[2] == order or poly_const(b.args[1]) == 1:
            return b.args[0]
    if b.op == 'rev':
        return frombytes(b.args[0], 'little' if order == 'big' else 'big')
    if b.op == 'cat' and len(b.args) and is_const(b.args[0]) and order == 'big' and \
            isinstance(b.args[0].args[0], bytes) and b.args[0].args[0].strip(b'\0') == b'':
        return frombytes(cat(b.args[1:]), order)
    if b.op == 'minbytes' and b.args[1] == order:
        return b.args[0]
    if b.op == 'slice' and b.args[3] is NONE and _slice1(b):
        # one byte: same as indexing
        lo = b.args[1]
        return item(b.args[0], C(0) if lo is NONE else lo)
    return mk('frombytes', b, order)


def _slice1(b):
    lo, hi = b.args[1], b.args[2]
    if hi is NONE:
        return False
    d = poly_const(sub(hi, C(0) if lo is NONE else lo))
    return d == 1 and _nonneg_expr(lo) and False  # indexing raises on empty input: kept apart


def hexs(b):
    if is_const(b) and isinstance(b.args[0], bytes):
        return C(b.args[0].hex())
    if b.op == 'unhex':
        pass
    return mk('hexs', b)


def unhex(s):
    if is_const(s) and isinstance(s.args[0], str):
        try:
            return C(bytes.fromhex(s.args[0]))
        except ValueError:
            pass
    if s.op == 'hexs':
        return s.args[0]
    return mk('unhex', s)


def repeat(x, n):
    c = poly_const(n)
    if c is not None and is_const(x) and isinstance(x.args[0], (bytes, str)):
        return C(x.args[0] * max(0, int(c)))
    if x.op == 'list' and c is not None and 0 <= c <= 64:
        return mk('list', *(x.args * int(c)))
    return mk('repeat', x, n)


def item(x, i):
    op = x.op
    if op == 'ite':
        return ite(x.args[0], item(x.args[1], i), item(x.args[2], i))
    ci = poly_const(i) if i.op in ('const', 'poly') and not isinstance(i.args[0] if i.op == 'const' else 0, (str, bytes)) else None
    if op == 'tuple' and ci is not None and -len(x.args) <= ci < len(x.args):
        return x.args[int(ci)]
    if op == 'const' and isinstance(x.args[0], (bytes, str)) and ci is not None:
        try:
            return C(x.args[0][int(ci)])
        except IndexError:
            return mk('badindex', x, i)
    if ci in (0, -1) and op in ('item', 'elem') and kind(x) == 'str' and kind(x.args[0]) == 'str':
        return x        # the only character of a character
    if op == 'list' and ci is not None:
        segs = x.args
        if ci >= 0:
            if all(s.op not in ('each', 'opt', 'spread') for s in segs[:int(ci) + 1]) and ci < len(segs):
                return segs[int(ci)]
        else:
            n = int(-ci)
            if len(segs) >= n and all(s.op not in ('each', 'opt', 'spread') for s in segs[-n:]):
                return segs[-n]
    if op == 'list' and ci is None and len(x.args) >= 4 and all(_char(s) for s in x.args):
        return mk('item', C(''.join(s.args[0] for s in x.args)), i)
    if op == 'list' and len(x.args) == 1 and x.args[0].op == 'each':
        s = x.args[0]
        if len(s.args[2]) == 1 and s.args[2][0].op not in ('each', 'opt', 'spread'):
            # map: index into the image
            b = s.args[2][0]
            if i.op == 'idx' and i.args[0] is s.args[0]:
                if i.args[1] == s.args[1]:
                    return b
                return subst(b, {mk('elem', s.args[0], s.args[1]): mk('elem', s.args[0], i.args[1]),
                                 mk('idx', s.args[0], s.args[1]): i})
            if ci is not None:
                return subst(b, {mk('elem', s.args[0], s.args[1]): item(s.args[0], i),
                                 mk('idx', s.args[0], s.args[1]): i})
    if op == 'dict':
        return dict_get(x, i)
    if op == 'slice' and x.args[3] is NONE and ci is not None:
        lo, hi = x.args[1], x.args[2]
        if ci >= 0 and _nonneg(lo) and (hi is NONE or (poly_const(hi) is not None and poly_const(hi) > poly_const(lo if lo is not NONE else C(0)) + ci)):
            return item(x.args[0], add(C(0) if lo is NONE else lo, C(ci)))
        if ci < 0 and hi is NONE and _nonneg(lo) and kind(x) in ('bytes', 'str'):
            return item(x.args[0], i)
    if i.op == 'idx' and i.args[0] is x:
        return mk('elem', x, i.args[1])
    if op == 'cat' and ci is not None and ci >= 0:
        n = int(ci)
        for p in x.args:
            L = known_len(p)
            if L is None:
                break
            if n < L:
                return item(p, C(n))
            n -= L
    return mk('item', x, i)


def dict_get(d, k, default=None):
    """value under key k of a dict term; later entries win"""
    res = None
    pend = []
    if len(d.args) >= 4 and default is None and not is_const(k) and all(
            e.op == 'kv' and _char(e.args[0]) and e.args[1] is C(n) for n, e in enumerate(d.args)):
        return mk('find', C(''.join(e.args[0].args[0] for e in d.args)), k)
    for e in reversed(d.args):
        if e.op == 'kv':
            c = eq(e.args[0], k)
            if c is TRUE:
                res = e.args[1]
                break
            if c is FALSE:
                continue
            pend.append((c, e.args[1]))
        elif e.op == 'kvopt':
            c = And([e.args[0], eq(e.args[1], k)])
            if c is FALSE:
                continue
            if c is TRUE:
                res = e.args[2]
                break
            pend.append((c, e.args[2]))
        elif e.op == 'kvspread':
            # unknown base mapping
            res = mk('item', e.args[0], k)
            break
        else:
            return mk('dictget', d, k)
    if res is None:
        if default is not None:
            res = default
        elif pend:
            res = mk('keyerror', k)
        else:
            return mk('dictget', d, k)
    if len(pend) > 40:
        return mk('dictget', d, k)
    for c, v in reversed(pend):
        res = ite(c, v, res)
    return res


# ---------------------------------------------------------------- iteration -
def _has_bound(t, it, k):
    return mentions(t, mk('elem', it, k)) or mentions(t, mk('idx', it, k))


BINDERS = {'exists', 'eachsum', 'eachcat', 'each', 'first', 'count', 'kveach', 'last', 'lam'}


LOOPS = {'loopval', 'loopend', 'loopstop'}


def loop_level(t):
    """tag of the carried variables of a loop term"""
    return t.args[2][0].args[2] if t.args[2] else None


def canon_loop(op, it, k, vars_, stop, expr, own=None, label=lambda c: ''):
    """a loop term with the variables it needs only, in canonical order and naming.
    own: the carried-value atom of each variable (default: by the level in `vars_`)"""
    if own is None:
        if not vars_:
            k, body = canon_binder(it, k, (stop, expr))
            return mk(op, it, k, (), body[0], body[1])
        lv = vars_[0].args[2]
        own = [None] * len(vars_)
        fr = set()
        for t in [v.args[1] for v in vars_] + [stop, expr]:
            fr |= frees(t)
        for c in fr:
            if c.op == 'cv' and c.args[0] == lv and c.args[1] < len(vars_):
                own[c.args[1]] = c
    init = {c: v.args[0] for c, v in zip(own, vars_) if c is not None}
    for c, v in zip(own, vars_):
        if c is not None and v.args[1].op == 'list' and v.args[0].op in ('call', 'loopval', 'loopend', 'attr', 'item', 'sym'):
            init[c] = mk('list', spread(v.args[0]))
    U = {c: v.args[1] for c, v in zip(own, vars_) if c is not None}
    # variables that keep their first value
    while True:
        inv = {c: init[c] for c in U if _same_value(U[c], c)}
        if not inv:
            break
        for c in inv:
            del U[c]
            del init[c]
        U = {c: subst(t, inv) for c, t in U.items()}
        stop, expr = subst(stop, inv), subst(expr, inv)
    # numbers that never become negative
    pos = {c for c in U if kind(c) == 'int' and _nonneg_expr(init[c])}
    while pos:
        _assumed.update(pos)
        bad = {c for c in pos if not _nonneg_expr(U[c])}
        _assumed.difference_update(pos)
        if not bad:
            break
        pos -= bad
    if pos:
        m = {mk('gt0', c): Not(eq(c, C(0))) for c in pos}
        stop, expr = subst(stop, m), subst(expr, m)
        U = {c: subst(t, m) for c, t in U.items()}
    need, todo = [], [expr, stop]
    while todo:
        t = todo.pop()
        for c in sorted(frees(t), key=lambda x: x.dig):
            if c in U and c not in need:
                need.append(c)
                todo.append(U[c])
    outer = set()
    for t in [expr, stop] + [U[c] for c in need] + [init[c] for c in need]:
        outer |= {c for c in frees(t) if c.op == 'cv' and c not in U}
    keys = []
    for lab in ((lambda c: ''), label):
        anon = {c: mk('cv', '#outer', lab(c), kind(c)) for c in outer}
        ninit = {c: subst(init[c], anon) for c in need}
        nU = {c: subst(U[c], anon) for c in need}
        nexpr = subst(mk('pair', expr, stop), anon)
        col = {c: ninit[c].dig.hex() for c in need}
        for _ in range(min(4, len(need) + 1)):
            mm = {c: mk('cv', '#', col[c], kind(c)) for c in need}
            col = {c: (ninit[c].dig + subst(nU[c], mm).dig).hex() for c in need}
            col = {c: mk('const', v).dig.hex() for c, v in col.items()}
        keys.append(col)
        # variables that look alike so far: by their role in the result
        role = {}
        for c in need:
            m2 = {d: mk('cv', '#', col[d] + ('!' if d is c else ''), kind(d)) for d in need}
            role[c] = subst(nexpr, m2).dig.hex()
        keys.append(role)
        if not outer or len({(keys[-2][c], keys[-1][c]) for c in need}) == len(need):
            break
    need.sort(key=lambda c: [q[c] for q in keys])
    n = 0
    for t in [expr, stop] + [U[c] for c in need]:
        for x in walk(t):
            if x.op in LOOPS and x.args[2]:
                n = max(n, int(loop_level(x)[1:]) + 1)
    while any(c.args[0] == 'L%d' % n for c in outer):
        n += 1
    tag = 'L%d' % n
    if op != 'loopstop' and not any(c in U for c in frees(expr)) and not any(c.op in ('elem', 'idx') and c.args[0] is it and c.args[1] == k for c in frees(expr)):
        return expr
    ren = {c: mk('cv', tag, i, _carried_kind(init[c], U[c], c)) for i, c in enumerate(need)}
    new = tuple(mk('var', init[c], subst(U[c], ren), tag) for c in need)
    k, body = canon_binder(it, k, new + (subst(stop, ren), subst(expr, ren)))
    return mk(op, it, k, body[:-2], body[-2], body[-1])


def _carried_kind(i, u, c):
    a, b = kind(i), kind(u)
    return a if a == b else kind(c)


def _same_value(u, c):
    if u is c:
        return True
    return u.op == 'list' and len(u.args) == 1 and u.args[0].op == 'each' and u.args[0].args[0] is c \
        and u.args[0].args[2] == (mk('elem', c, u.args[0].args[1]),)


def frees(t):
    """elem/idx terms occurring in t (over-approximation: binders do not hide)"""
    if t._free is None:
        s = set()
        if t.op in ('elem', 'idx', 'cv'):
            s.add(t)
        if t.op in BINDERS:
            it, k = t.args[0], t.args[1]
            if t.op in LOOPS:
                for a in [v.args[1] for v in t.args[2]] + list(t.args[3:]):
                    s |= frees(a)
                lv = loop_level(t)
                s = {c for c in s if not (c.op == 'cv' and c.args[0] == lv)}
                for v in t.args[2]:
                    s |= frees(v.args[0])
            else:
                for a in t.args[2:]:
                    s |= _frees_arg(a)
            s.discard(mk('elem', it, k))
            s.discard(mk('idx', it, k))
            s |= frees(it)
        else:
            for a in t.args:
                s |= _frees_arg(a)
        t._free = frozenset(s)
    return t._free


def _frees_arg(a):
    if isinstance(a, T):
        return frees(a)
    if isinstance(a, tuple):
        s = set()
        for x in a:
            s |= _frees_arg(x)
        return s
    return frozenset()


def mentions(t, sub_):
    if sub_.op in ('elem', 'idx', 'cv'):
        return sub_ in frees(t)
    if t is sub_:
        return True
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x is sub_:
            return True
        if x in seen:
            continue
        seen.add(x)
        stack.extend(subterms(x))
    return False


def subterms(t):
    out = []

    def go(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    for a in t.args:
        go(a)
    return out


def walk(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(subterms(x))


def canon_binder(it, k, body):
    """rename the bound index k of a binder over `it` to the lowest free one"""
    if isinstance(body, tuple):
        fr = set()
        for b in body:
            fr |= frees(b)
    else:
        fr = frees(body)
    others = {f.args[1] for f in fr if f.op in ('elem', 'idx') and f.args[0] is it and f.args[1] != k}
    low = 0
    lower = [j for j in others if j < k]
    if lower:
        low = max(lower) + 1
    if low == k:
        return k, body
    m = {mk('elem', it, k): mk('elem', it, low), mk('idx', it, k): mk('idx', it, low)}
    if isinstance(body, tuple):
        return low, tuple(subst(b, m) for b in body)
    return low, subst(body, m)


class _NoRows(Exception):
    pass


def rows(it, k, bodies):
    """elements of an assembled list as (binders, guard, element); None if the
    position of an element matters or the list has no such description"""
    fr = set()
    for b in bodies:
        fr |= frees(b)
    if mk('idx', it, k) in fr:
        return None
    out = []

    def go(s, binders, guard):
        if s.op == 'opt':
            for x in s.args[1:]:
                go(x, binders, And([guard, s.args[0]]))
        elif s.op == 'each':
            t, j, segs = s.args
            lv = [f.args[1] for f in fr if f.op in ('elem', 'idx') and f.args[0] is t]
            lv += [y for x, y in binders if x is t]
            n = max(lv) + 1 if lv else 0
            if n != j:
                m = {mk('elem', t, j): mk('elem', t, n), mk('idx', t, j): mk('idx', t, n)}
                segs = tuple(subst(x, m) for x in segs)
            for x in segs:
                go(x, binders + ((t, n),), guard)
        elif s.op in ('upd', 'spread', 'cell', 'seg'):
            raise _NoRows()
        else:
            out.append((binders, guard, s))
    try:
        for s in it.args:
            go(s, (), TRUE)
    except _NoRows:
        return None
    return out


def over_rows(it, k, bodies, unit, wrap, join):
    """a binder over an assembled list or a choice of lists as a combination of simpler binders"""
    if it.op == 'list':
        rs = rows(it, k, bodies)
        if rs is None:
            return None
        parts = []
        for binders, g, v in rs:
            m = {mk('elem', it, k): v}
            x = unit(g, tuple(subst(b, m) for b in bodies))
            for t, j in reversed(binders):
                x = wrap(t, j, x)
            parts.append(x)
        return join(parts)
    return None


def splice(segs):
    """segments of a list, iterations over assembled lists spelled out"""
    out = []
    for s in segs:
        if s.op == 'each' and s.args[0].op == 'list':
            it, k, body = s.args
            rs = rows(it, k, body)
            if rs is not None:
                for binders, g, v in rs:
                    m = {mk('elem', it, k): v}
                    x = splice([subst(b, m) for b in body])
                    x = tuple(x) if g is TRUE else opt(g, x)
                    for t, j in reversed(binders):
                        y = each(t, j, x)
                        x = () if y is None else tuple(splice([y]))
                    out.extend(x)
                continue
        out.append(s)
    return tuple(out)


def exists(it, k, cond):
    if cond is FALSE:
        return FALSE
    if it.op == 'setof':
        return exists(it.args[0], k, subst(cond, {mk('elem', it, k): mk('elem', it.args[0], k)}))
    r = over_rows(it, k, (cond,), lambda g, b: And([g, b[0]]), exists, Or)
    if r is not None:
        return r
    if not _has_bound(cond, it, k):
        return And([cond, truth(it) if it.op != 'range' else gt0(range_len(it))])
    if cond.op == 'or':
        return Or([exists(it, k, c) for c in cond.args])
    if cond.op == 'and':
        inv = [c for c in cond.args if not _has_bound(c, it, k)]
        if inv:
            dep = [c for c in cond.args if _has_bound(c, it, k)]
            return And(inv + [exists(it, k, And(dep))])
    if cond.op == 'eq' and not it.op == 'range':
        e = mk('elem', it, k)
        a, b = cond.args
        if a is e and not _has_bound(b, it, k):
            return mk('in', b, it)
        if b is e and not _has_bound(a, it, k):
            return mk('in', a, it)
    k, cond = canon_binder(it, k, cond)
    return mk('exists', it, k, cond)


def range_len(it):
    return it.args[0]


def iter_len(it):
    if it.op == 'range':
        return it.args[0]
    return length(it)


def sum_terms(xs):
    r = C(0)
    for x in xs:
        r = add(r, x)
    return r


def eachsum(it, k, body):
    if body is C(0):
        return body
    if not _has_bound(body, it, k):
        return mul(iter_len(it), body)
    r = over_rows(it, k, (body,), lambda g, b: ite(g, b[0], C(0)), eachsum, sum_terms)
    if r is not None:
        return r
    p = to_poly(body)
    if len(p) > 1 or (len(p) == 1 and (list(p)[0] == () or list(p.values())[0] != 1)):
        r = C(0)
        for m, c in p.items():
            inv = [a for a in m if not _has_bound(a, it, k)]
            dep = [a for a in m if _has_bound(a, it, k)]
            t = eachsum(it, k, from_poly({tuple(dep): 1}))
            for a in inv:
                t = mul(t, a)
            r = add(r, mul(C(c), t))
        return r
    if len(p) == 1:
        (m, c), = p.items()
        inv = [a for a in m if not _has_bound(a, it, k)]
        if inv:
            dep = [a for a in m if _has_bound(a, it, k)]
            t = eachsum(it, k, from_poly({tuple(dep): 1}))
            for a in inv:
                t = mul(t, a)
            return t
    if body.op == 'ite' and body.args[1] is C(1) and body.args[2] is C(0):
        k, g = canon_binder(it, k, body.args[0])
        return mk('count', it, k, g)
    if body.op == 'ite' and body.args[1] is C(0) and body.args[2] is C(1):
        k, g = canon_binder(it, k, Not(body.args[0]))
        return mk('count', it, k, g)
    k, body = canon_binder(it, k, body)
    return mk('eachsum', it, k, body)


def eachcat(it, k, body, knd):
    if body in (EB, ES):
        return body
    if not _has_bound(body, it, k):
        return repeat(body, iter_len(it))
    e = C(b'' if knd == 'bytes' else '')
    r = over_rows(it, k, (body,), lambda g, b: ite(g, b[0], e), lambda t, j, x: eachcat(t, j, x, knd), lambda xs: cat(xs, knd))
    if r is not None:
        return r
    if body is mk('elem', it, k) and kind(it) == knd == 'str':
        return it
    if body.op == 'tobytes' and body.args[0] is mk('elem', it, k) and poly_const(body.args[1]) == 1 and kind(it) == knd == 'bytes':
        return rev(it.args[0]) if it.op == 'rev' else it
    r = joined_loop(it, k, body, knd)
    if r is not None:
        return r
    k, body = canon_binder(it, k, body)
    return mk('eachcat', it, k, body, knd)


def joined_loop(it, k, body, knd):
    """the elements of a list assembled by a loop, joined: the loop assembles the text instead"""
    if it.op not in ('loopval', 'loopend') or mk('idx', it, k) in frees(body):
        return None
    it0, k0, vars_, stop, expr = it.args
    lv = loop_level(it)
    c = expr
    if c.op == 'list' and len(c.args) == 1 and c.args[0].op == 'each':
        c = c.args[0].args[0]
        if not _same_value(expr, c):
            return None
    if c.op != 'cv' or c.args[0] != lv:
        return None
    i = c.args[1]
    init, U = vars_[i].args[:2]
    if init.op != 'list' or U.op != 'list' or c in frees(stop) or \
            any(c in frees(v.args[1]) for j, v in enumerate(vars_) if j != i):
        return None
    d = mk('cv', lv, i, knd)

    def text(segs):
        out = []
        for s in segs:
            if s.op == 'each' and s.args[0] is c:
                if s.args[2] != (mk('elem', c, s.args[1]),):
                    return None
                out.append(d)
            elif s.op == 'spread' and s.args[0] is c:
                out.append(d)
            elif c in frees(s) or s.op in ('upd', 'opt'):
                return None
            elif s.op in ('each', 'spread'):
                x = mk('list', s)
                out.append(eachcat(x, k, subst(body, {mk('elem', it, k): mk('elem', x, k)}), knd))
            else:
                out.append(subst(body, {mk('elem', it, k): s}))
        return cat(out, knd)
    a, b = text(init.args), text(U.args)
    if a is None or b is None or d not in frees(b):
        return None
    new = list(vars_)
    new[i] = mk('var', a, b, lv)
    return canon_loop(it.op, it0, k0, tuple(new), stop, d)


def each(it, k, segs):
    segs = tuple(segs)
    if not segs:
        return None
    k, segs = canon_binder(it, k, segs)
    return mk('each', it, k, segs)


def first(it, k, g, v):
    if not _has_bound(v, it, k):
        return v
    if v.op == 'tuple':
        return Tup([first(it, k, g, x) for x in v.args])
    fr = frees(v) | frees(g)
    k2, pair = canon_binder(it, k, (g, v))
    return mk('first', it, k2, pair[0], pair[1])


def lstrip_(x, chars=None):
    """x without the leading elements among chars"""
    if chars is None or not is_const(chars) or not isinstance(chars.args[0], (str, bytes)) or not chars.args[0] \
            or kind(x) != kind(chars) or frees(x):
        return mk('lstrip', x) if chars is None else mk('lstrip', x, chars)
    if is_const(x):
        return C(x.args[0].lstrip(chars.args[0]))
    if x.op == 'ite':
        return ite(x.args[0], lstrip_(x.args[1], chars), lstrip_(x.args[2], chars))
    e = mk('elem', x, 0)
    g = And([Not(eq(e, C(c))) for c in sorted(set(chars.args[0]))])
    return ite(exists(x, 0, g), slice_(x, first(x, 0, g, mk('idx', x, 0)), NONE), C(x.args[0][:0] if is_const(x) else b'' if kind(x) == 'bytes' else ''))


def rstrip_(x, chars=None):
    if chars is None or not is_const(chars):
        return mk('rstrip', x) if chars is None else mk('rstrip', x, chars)
    r = rev(x)
    y = lstrip_(r, chars)
    return rev(y) if not any(z.op == 'lstrip' for z in walk(y)) else mk('rstrip', x, chars)


# ---------------------------------------------------------------- rebuild ---
def opt(c, segs):
    segs = plain_opts(segs)
    if c is FALSE or not segs:
        return ()
    if c is TRUE:
        return segs
    if len(segs) == 1 and segs[0].op == 'opt':
        return opt(And([c, segs[0].args[0]]), segs[0].args[1:])
    return (mk('opt', c, *segs),)


def plain_opts(segs):
    """segments without optional parts that are always or never there"""
    segs = tuple(segs)
    if any(s.op == 'opt' and (s.args[0] in (TRUE, FALSE) or any(x.op == 'opt' and x.args[0] in (TRUE, FALSE) for x in s.args[1:]))
           for s in segs):
        out = []
        for s in segs:
            out.extend(opt(s.args[0], s.args[1:]) if s.op == 'opt' else (s,))
        return tuple(out)
    return segs


def mklist(segs):
    out = []
    for s in segs:
        if s.op == 'opt':
            out.extend(opt(s.args[0], s.args[1:]))
        else:
            out.append(s)
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        # the same elements under either of two exclusive conditions
        if a.op == b.op == 'opt' and a.args[1:] == b.args[1:] and And([a.args[0], b.args[0]]) is FALSE:
            out[i:i + 2] = opt(Or([a.args[0], b.args[0]]), a.args[1:])
            i = max(i - 1, 0)
        else:
            i += 1
    return mk('list', *out)


def _rb_each(it, k, segs):
    flat = []
    for s in segs:
        if s.op == 'opt':
            flat.extend(opt(s.args[0], s.args[1:]))
        else:
            flat.append(s)
    r = each(it, k, flat)
    return r if r is not None else mk('opt', FALSE)


def plain_entries(e):
    """entries of a dict spread into another one"""
    if e.op == 'kvspread' and e.args[0].op == 'dict':
        return [y for x in e.args[0].args for y in plain_entries(x)]
    if e.op == 'kvspreadopt':
        if e.args[0] is FALSE:
            return []
        xs = plain_entries(e.args[1])
        return xs if e.args[0] is TRUE else [guard_entry(e.args[0], x) for x in xs]
    return [e]


def guard_entry(c, e):
    if e.op == 'kv':
        return mk('kvopt', c, e.args[0], e.args[1])
    if e.op == 'kvopt':
        return mk('kvopt', And([c, e.args[0]]), e.args[1], e.args[2])
    if e.op == 'kveach':
        it, k, g, kk, vv = e.args
        return mk('kveach', it, k, And([c, g]), kk, vv)
    return mk('kvspreadopt', c, e)


def _rb_dict(*entries):
    out = []
    for e in [y for x in entries for y in plain_entries(x)]:
        if e.op == 'kvopt':
            if e.args[0] is TRUE:
                e = mk('kv', e.args[1], e.args[2])
            elif e.args[0] is FALSE:
                continue
        out.append(e)
    # drop entries overwritten by a later identical key
    res = []
    for i, e in enumerate(out):
        if e.op == 'kv' and any(x.op == 'kv' and x.args[0] is e.args[0] for x in out[i + 1:]):
            continue
        if e.op == 'kv' and all(x.op == 'kv' and is_const(x.args[0]) for x in out[:i + 1]):
            # a key keeps the place where it came first
            at = [j for j, x in enumerate(out[:i]) if x.args[0] is e.args[0]]
            if at:
                order = []
                for x in out[:i + 1]:
                    if x.args[0] not in order:
                        order.append(x.args[0])
                n = len([1 for x in res if order.index(x.args[0]) < order.index(e.args[0])])
                res.insert(n, e)
                continue
        res.append(e)
    return mk('dict', *res)


def mkdict(entries):
    return _rb_dict(*entries)


def _rb_poly(items):
    r = C(0)
    for c, m in items:
        t = C(c) if not isinstance(c, Fraction) or c.denominator == 1 else mk('poly', ((c, ()),))
        for a in m:
            t = mul(t, a)
        r = add(r, t)
    return r


def _rb_inv(x):
    return div(C(1), x)


def _rb_cat(*parts):
    k = 'bytes'
    for p in parts:
        kk = kind(p)
        if kk in ('bytes', 'str'):
            k = kk
            break
    return cat(parts, k)


def _rb_plus(*parts):
    r = parts[0]
    for p in parts[1:]:
        r = plus(r, p)
    return r


def _rb_int(x):
    return to_int(x)


def to_int(x):
    if kind(x) in ('int',):
        return x
    c = poly_const(x)
    if c is not None:
        return C(int(c))
    if x.op == 'ite':
        return ite(x.args[0], to_int(x.args[1]), to_int(x.args[2]))
    return mk('int', x)


def to_str(x):
    if is_const(x):
        return C(str(x.args[0]))
    if kind(x) == 'str':
        return x
    if x.op == 'ite':
        return ite(x.args[0], to_str(x.args[1]), to_str(x.args[2]))
    return mk('str', x)


def whole(x):
    """the integer of a decimal made from an integer"""
    if x.op == 'decimal' and kind(x.args[0]) == 'int':
        return x.args[0]
    if x.op == 'inv':
        y = whole(x.args[0])
        return None if y is None else div(C(1), y)


def in_decimal(t):
    """which factor of a product was made a decimal does not matter"""
    if t.op == 'poly' and len(t.args[0]) == 1 and kind(t) == 'decimal':
        c, m = t.args[0][0]
        if any(whole(x) is not None for x in m):
            r = C(c)
            for x in m:
                r = mul(r, whole(x) if whole(x) is not None else x)
            return r if kind(r) == 'decimal' else mk('decimal', r)
    return t


def decimal(x):
    if is_const(x) and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
        return x
    if x.op == 'poly' and poly_const(x) is not None:
        return x
    if kind(x) == 'decimal' or kind(x) == 'int' and x.op not in ('sym', 'call', 'attr'):
        return x
    if x.op == 'str':
        return decimal(x.args[0])
    if is_const(x) and isinstance(x.args[0], str):
        try:
            return C(Fraction(x.args[0]))
        except ValueError:
            pass
    return mk('decimal', x)


def const_leaves(v):
    return v.op == 'const' or v.op == 'ite' and const_leaves(v.args[1]) and const_leaves(v.args[2])


def unset(v):
    return v.op == 'unbound' or v.op == 'ite' and (unset(v.args[1]) or unset(v.args[2]))


def fmt_(x, spec):
    """format() of a number under a constant format specification, or None"""
    if x.op == 'const':
        try:
            return C(format(x.args[0], spec))
        except (ValueError, TypeError):
            return None
    if kind(x) != 'int':
        return None
    if spec == 'd':
        return to_str(x)
    if spec in ('x', 'X') and _nonneg_expr(x):
        r = slice_(mk('hexint', x), C(2), NONE)
        return upper_(r) if spec == 'X' else r
    if spec[:1] == '0' and spec[1:-1].isdigit() and spec[-1] in 'xX' and int(spec[1:-1]) % 2 == 0 and \
            x.op == 'frombytes' and length(x.args[0]) is C(int(spec[1:-1]) // 2):
        r = hexs(x.args[0] if x.args[1] in ('big', C('big')) else rev(x.args[0]))
        return upper_(r) if spec[-1] == 'X' else r
    return None


def ascii_only(x):
    """text or bytes without any character that ASCII and UTF-8 treat differently"""
    if x.op in ('encode', 'decode', 'upper', 'lower'):
        return ascii_only(x.args[0])
    if x.op == 'const':
        return x.args[0].isascii()
    if x.op == 'cat':
        return all(ascii_only(y) for y in x.args if isinstance(y, T))
    return x.op in ('hexs', 'hexint') or x.op == 'str' and kind(x.args[0]) == 'int' \
        or x.op == 'call' and callee_name(x) in ('bit.base58.b58encode', 'bit.base58.b58encode_check', 'bit.utils.bytes_to_hex', 'bit.base32.encode', 'bit.base32.bech32_encode')


def encode_(x):
    if is_const(x) and isinstance(x.args[0], str):
        return C(x.args[0].encode())
    if x.op == 'decode':
        return x.args[0]
    return mk('encode', x)


def decode_(x):
    if is_const(x) and isinstance(x.args[0], bytes):
        try:
            return C(x.args[0].decode())
        except UnicodeDecodeError:
            pass
    if x.op == 'encode':
        return x.args[0]
    return mk('decode', x)


def upper_(x):
    if is_const(x) and isinstance(x.args[0], str):
        return C(x.args[0].upper())
    if x.op == 'upper':
        return x
    if x.op == 'lower':
        return upper_(x.args[0])
    return mk('upper', x)


def lower_(x):
    if is_const(x) and isinstance(x.args[0], str):
        return C(x.args[0].lower())
    if x.op == 'lower' or x.op == 'hexs':
        return x
    if x.op == 'upper':
        return lower_(x.args[0])
    return mk('lower', x)


REBUILD = {
    'poly': _rb_poly, 'inv': _rb_inv, 'cat': _rb_cat, 'plus': _rb_plus, 'ite': ite,
    'and': lambda *a: And(a), 'or': lambda *a: Or(a), 'not': Not, 'truth': truth, 'isnone': isnone,
    'eq': eq, 'gt0': gt0, 'ge0': lambda d: (TRUE if poly_const(d) >= 0 else FALSE) if poly_const(d) is not None else mk('ge0', d),
    'in': in_, 'inset': lambda x, c: inset(x, c.args[0]), 'slice': slice_, 'rev': rev, 'tobytes': tobytes,
    'frombytes': frombytes, 'hexs': hexs, 'unhex': unhex, 'repeat': repeat, 'item': item,
    'len': length, 'exists': exists, 'eachsum': eachsum, 'eachcat': eachcat, 'each': _rb_each,
    'loopval': lambda *a: canon_loop('loopval', *a), 'loopend': lambda *a: canon_loop('loopend', *a),
    'loopstop': lambda *a: canon_loop('loopstop', *a),
    'first': first, 'list': lambda *a: mklist(a), 'dict': _rb_dict, 'floordiv': floordiv, 'mod': mod,
    'pow': pow_, 'bitand': bitand, 'bitor': lambda *a: _fold2('bitor', a), 'bitxor': lambda *a: _fold2('bitxor', a),
    'int': to_int, 'str': to_str, 'decimal': decimal, 'encode': encode_, 'decode': decode_, 'upper': upper_,
    'lower': lower_, 'count': lambda it, k, g: eachsum(it, k, ite(g, C(1), C(0))),
    'lstrip': lstrip_, 'rstrip': rstrip_, 'shuffled': shuffled,
    'dictget': lambda d, k: dict_get(d, k) if d.op == 'dict' else item(d, k),
}


def _fold2(name, a):
    r = a[0]
    for x in a[1:]:
        r = bitop(name, r, x)
    return r


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def subst(t, m, memo=None):
    """replace terms by terms, renormalising on the way up"""
    if memo is None:
        memo = {}
    keys_free = all(k.op in ('elem', 'idx', 'cv') for k in m)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if keys_free and not any(k in frees(x) for k in m):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in BINDERS:
            bound = {mk('elem', x.args[0], x.args[1]), mk('idx', x.args[0], x.args[1])}
            if bound & m.keys():
                m2 = {k: v for k, v in m.items() if k not in bound}
                it2 = go(x.args[0])
                m3 = dict(m2)
                if it2 is not x.args[0]:
                    m3.update({mk('elem', x.args[0], x.args[1]): mk('elem', it2, x.args[1]),
                               mk('idx', x.args[0], x.args[1]): mk('idx', it2, x.args[1])})
                rest = [_subst_arg(a, m3) for a in x.args[2:]]
                r = rebuild(x.op, [it2, x.args[1]] + rest)
                memo[x] = r
                return r
        changed = False
        args = []
        for a in x.args:
            b = go_arg(a)
            if b is not a:
                changed = True
            args.append(b)
        r = rebuild(x.op, args) if changed else x
        memo[x] = r
        return r

    def go_arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            n = tuple(go_arg(y) for y in a)
            return n if any(p is not q for p, q in zip(n, a)) else a
        return a
    return go(t)


def _subst_arg(a, m):
    if isinstance(a, T):
        return subst(a, m) if m else a
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, m) for x in a)
    return a


# ------------------------------------------------------------------- show ---
def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if depth <= 0:
        return '…'
    op, a = t.op, t.args
    d = depth - 1
    if op == 'const':
        return repr(a[0])
    if op in ('sym',):
        return a[0]
    if op in ('ext', 'func', 'cls', 'glob', 'cell'):
        return a[0]
    if op == 'poly':
        out = []
        for c, m in a[0]:
            s = '*'.join(show(x, d) for x in m)
            out.append(s if c == 1 and m else (str(c) + ('*' + s if m else '')))
        return '(' + ' + '.join(out) + ')'
    if op == 'cat':
        return ' ++ '.join(show(x, d) for x in a)
    if op == 'attr':
        return show(a[0], d) + '.' + str(a[1])
    if op == 'item':
        return show(a[0], d) + '[' + show(a[1], d) + ']'
    if op == 'slice':
        f = lambda x: '' if x is NONE else show(x, d)
        return show(a[0], d) + '[' + f(a[1]) + ':' + f(a[2]) + ('' if a[3] is NONE else ':' + f(a[3])) + ']'
    if op == 'ite':
        return '(' + show(a[1], d) + ' if ' + show(a[0], d) + ' else ' + show(a[2], d) + ')'
    if op == 'elem':
        return 'each‹' + show(a[0], min(d, 2)) + '›' + ("'" * a[1])
    if op == 'idx':
        return 'idx‹' + show(a[0], min(d, 2)) + '›' + ("'" * a[1])
    if op == 'call':
        s = [show(x, d) for x in a[1]] + ['{}={}'.format(n, show(v, d)) for n, v in a[2]]
        return show(a[0], d) + '(' + ', '.join(s) + ')' + ('#%s' % show(a[3]) if isinstance(a[3], T) else '#%s' % (a[3],) if a[3] else '')
    if op == 'mcall':
        s = [show(x, d) for x in a[2]] + ['{}={}'.format(n, show(v, d)) for n, v in a[3]]
        return show(a[0], d) + '.' + a[1] + '(' + ', '.join(s) + ')'
    if op == 'eq':
        return '(' + show(a[0], d) + ' == ' + show(a[1], d) + ')'
    if op == 'gt0':
        return '(' + show(a[0], d) + ' > 0)'
    if op == 'not':
        return 'not ' + show(a[0], d)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in a) + ')'
    return op + '(' + ', '.join(show(x, d) if isinstance(x, (T, tuple)) else repr(x) for x in a) + ')'
