"""Interval analysis of integer terms under the facts of a case.

Bounds come from the facts (linear constraints), from the kinds of the terms (a byte lies in 0..255, a length is not
negative, n bytes read as a number lie below 256**n) and from interval arithmetic over the term structure."""
from terms import *

INF = float('inf')


def _lits(facts):
    out = []
    stack = list(facts)
    while stack:
        f = stack.pop()
        if f.op == 'and':
            stack.extend(f.args)
        elif f.op == 'not' and f.args[0].op == 'or':
            stack.extend(Not(x) for x in f.args[0].args)
        else:
            out.append(f)
    return out


def _mulb(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


class Ranges:
    def __init__(self, facts):
        self.b = {}
        self.memo = {}
        self.empty = False
        self.cons = []      # (poly, kind) with kind 'gt' (>0), 'ge' (>=0), 'eq' (=0), 'ne' (!=0)
        for f in _lits(facts):
            self.literal(f)
        for _ in range(4):
            if self.empty or not self.round():
                break

    def literal(self, f):
        neg_ = f.op == 'not'
        t = f.args[0] if neg_ else f
        if t.op == 'gt0':
            p = to_poly(t.args[0])
            self.cons.append((p, 'gt') if not neg_ else ({m: -c for m, c in p.items()}, 'ge'))
        elif t.op == 'ge0':
            p = to_poly(t.args[0])
            self.cons.append((p, 'ge') if not neg_ else ({m: -c for m, c in p.items()}, 'gt'))
        elif t.op == 'eq' and all(kind(x) in ('int', 'bool') for x in t.args):
            self.cons.append((to_poly(sub(t.args[0], t.args[1])), 'ne' if neg_ else 'eq'))
        elif t.op == 'truth':
            x = t.args[0]
            if kind(x) in ('int',):
                self.cons.append(({(x,): 1}, 'ne' if neg_ else 'eq' if False else 'ne') if not neg_ else ({(x,): 1}, 'eq'))
            elif kind(x) in ('bytes', 'str', 'list', 'dict', 'tuple') or is_listkind(kind(x)):
                n = length(x)
                if n.op != 'const':
                    self.cons.append((to_poly(n), 'eq') if neg_ else (to_poly(n), 'gt'))
        elif t.op == 'inset' and False:
            pass

    def round(self):
        """one propagation pass; True if some bound changed"""
        changed = False
        self.memo = {}
        for p, k in self.cons:
            ms = [m for m in p if m]
            k0 = Fraction(p.get((), 0))
            if not ms:
                v = k0
                if k == 'gt' and v <= 0 or k == 'ge' and v < 0 or k == 'eq' and v != 0 or k == 'ne' and v == 0:
                    self.empty = True
                continue
            whole = all(kind(a) in ('int', 'bool') for m in ms for a in m) and \
                all(Fraction(c).denominator == 1 for c in p.values())
            for m in ms:
                lo = hi = k0
                for n in ms:
                    if n != m:
                        l, h = self.mono(n)
                        c = Fraction(p[n])
                        if c < 0:
                            l, h = h, l
                        lo = lo + _mulb(c, l) if abs(l) != INF else -INF
                        hi = hi + _mulb(c, h) if abs(h) != INF else INF
                # c*m + rest  (rest in lo..hi)
                c = Fraction(p[m])
                l, h = self.mono(m)
                isint = all(kind(a) in ('int', 'bool') for a in m)
                nl, nh = l, h
                if k in ('gt', 'ge', 'eq') and hi != INF:
                    # c*m > -hi
                    v = -Fraction(hi) / c
                    strict = k == 'gt'
                    if c > 0:
                        nl = max(nl, self.up(v, strict, isint))
                    else:
                        nh = min(nh, self.down(v, strict, isint))
                if k == 'eq' and lo != -INF:
                    v = -Fraction(lo) / c
                    if c > 0:
                        nh = min(nh, self.down(v, False, isint))
                    else:
                        nl = max(nl, self.up(v, False, isint))
                if k == 'ne' and lo == hi and isint:
                    v = -Fraction(lo) / c
                    if v == nl:
                        nl = nl + 1
                    if v == nh:
                        nh = nh - 1
                if nl > nh:
                    self.empty = True
                    return False
                if (nl, nh) != (l, h):
                    self.b[m] = (nl, nh)
                    self.memo = {}
                    changed = True
        return changed

    @staticmethod
    def up(v, strict, isint):
        if not isint:
            return v
        f = v.numerator // v.denominator
        if strict:
            return f + 1
        return f if v == f else f + 1

    @staticmethod
    def down(v, strict, isint):
        if not isint:
            return v
        f = v.numerator // v.denominator
        if strict and v == f:
            return f - 1
        return f

    def mono(self, m):
        if len(m) == 1:
            return self.bounds(m[0])
        lo, hi = self.bounds(m[0])
        for a in m[1:]:
            l, h = self.bounds(a)
            c = [_mulb(x, y) for x in (lo, hi) for y in (l, h)]
            lo, hi = min(c), max(c)
        if m in self.b:
            l, h = self.b[m]
            lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def bounds(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = (-INF, INF)
            lo, hi = self.own(t)
            if (t,) in self.b:
                l, h = self.b[(t,)]
                lo, hi = max(lo, l), min(hi, h)
            if lo > hi:
                self.empty = True
            r = self.memo[t] = (lo, hi)
        return r

    def strlen(self, x):
        """bounds of the length of a string or sequence term"""
        n = length(x)
        if n.op == 'len' and n.args[0] is x:
            lo, hi = self.raw_len(x)
            if (n,) in self.b:
                l, h = self.b[(n,)]
                lo, hi = max(lo, l), min(hi, h)
            return lo, hi
        return self.bounds(n)

    def raw_len(self, x):
        if x.op == 'slice' and x.args[3] is NONE:
            L = self.strlen(x.args[0])
            lo, hi = x.args[1], x.args[2]
            cl = self.point(lo) if lo is not NONE else 0
            if cl is not None and cl >= 0:
                if hi is NONE:
                    return max(0, L[0] - cl), max(0, L[1] - cl)
                ch = self.point(hi)
                if ch is not None and ch >= 0:
                    return max(0, min(L[0], ch) - cl), max(0, min(L[1], ch) - cl)
                if ch is not None:
                    return max(0, L[0] + ch - cl), max(0, L[1] + ch - cl)
                if hi is not NONE and lo is not NONE:
                    d = poly_const(sub(hi, lo))
                    if d is not None and d >= 0:
                        return 0, d
            elif lo is not NONE and cl is None and hi is not NONE:
                d = poly_const(sub(hi, lo))
                if d is not None and d >= 0 and self.bounds(lo)[0] >= 0:
                    return 0, d
            elif cl is not None and hi is NONE:
                return min(L[0], -cl), min(L[1], -cl)
            return 0, L[1]
        if x.op == 'minbytes':
            lo, hi = self.bounds(x.args[0])
            if lo >= 0 and hi != INF:
                return max(1, (int(lo).bit_length() + 7) // 8), max(1, (int(hi).bit_length() + 7) // 8)
            return 1, INF
        return min_len(x), INF

    def point(self, t):
        lo, hi = self.bounds(t)
        return lo if lo == hi else None

    def own(self, t):
        op = t.op
        c = poly_const(t)
        if c is not None:
            return c, c
        if op == 'poly':
            lo = hi = Fraction(0)
            for c, m in t.args[0]:
                l, h = self.mono(m) if m else (1, 1)
                if c < 0:
                    l, h = h, l
                lo = lo + _mulb(c, l) if abs(l) != INF else -INF
                hi = hi + _mulb(c, h) if abs(h) != INF else INF
            return lo, hi
        if op == 'len':
            return self.raw_len(t.args[0])
        if op in ('count', 'idx', 'strcount'):
            return 0, INF
        if op == 'ord':
            return 0, 0x10ffff
        if op in ('item', 'elem') and kind(t.args[0]) == 'bytes':
            return 0, 255
        if op == 'elem' and t.args[0].op == 'range' and len(t.args[0].args) >= 2:
            a, b = t.args[0].args[:2]
            if len(t.args[0].args) == 2 or t.args[0].args[2] is C(1):
                return self.bounds(a)[0], self.bounds(b)[1] - 1
        if op == 'frombytes':
            hi = self.strlen(t.args[0])[1]
            return 0, 256 ** int(hi) - 1 if hi <= 64 else INF
        if op == 'mod':
            m = poly_const(t.args[1])
            if m and m > 0 and kind(t.args[0]) in ('int', 'bool'):
                lo, hi = self.bounds(t.args[0])
                if 0 <= lo and hi < m:
                    return lo, hi
                return 0, m - 1
        if op == 'bitand':
            for x in t.args:
                m = poly_const(x)
                if m is not None and m >= 0:
                    return 0, m
            if any(self.bounds(x)[0] >= 0 for x in t.args):
                return 0, min(self.bounds(x)[1] for x in t.args if self.bounds(x)[0] >= 0)
        if op == 'bitlen':
            lo, hi = self.bounds(t.args[0])
            if lo >= 0:
                return int(lo).bit_length(), int(hi).bit_length() if hi != INF else INF
            return 0, INF
        if op == 'floordiv':
            m = poly_const(t.args[1])
            if m and m > 0:
                lo, hi = self.bounds(t.args[0])
                return lo if abs(lo) == INF else lo // m, hi if abs(hi) == INF else hi // m
        if op == 'ite':
            a, b = self.bounds(t.args[1]), self.bounds(t.args[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if op == 'pow':
            b = poly_const(t.args[0])
            lo, hi = self.bounds(t.args[1])
            if b is not None and b >= 1 and lo >= 0 and lo <= 600:
                return b ** int(lo), b ** int(hi) if hi <= 600 else INF
        if op == 'eachsum' and kind(t.args[2]) in ('int', 'bool'):
            if self.bounds(t.args[2])[0] >= 0:
                return 0, INF
        if op in ('find', 'rfind'):
            return -1, INF
        if op in BOOL_OPS:
            return 0, 1
        return -INF, INF

    # -- simplification under the facts --
    def simplify(self, t):
        """the term with parts decided by the bounds replaced"""
        m = {}
        for x in walk(t):
            r = self.decide(x)
            if r is not None and r is not x:
                m[x] = r
        return subst(t, m) if m else t

    def decide(self, x):
        op = x.op
        if op in ('const', 'poly', 'sym', 'cv', 'idx') or frees(x):
            if op != 'poly' or frees(x):
                return None
        if op in ('gt0', 'ge0'):
            lo, hi = self.bounds(x.args[0])
            if op == 'gt0':
                return TRUE if lo > 0 else FALSE if hi <= 0 else None
            return TRUE if lo >= 0 else FALSE if hi < 0 else None
        if op == 'eq' and x.args[1] is C(0) and kind(x.args[0]) in ('int', 'bool', 'num'):
            lo, hi = self.bounds(x.args[0])
            if lo > 0 or hi < 0:
                return FALSE
            if lo == hi == 0:
                return TRUE
            return None
        if op == 'mod':
            lo, hi = self.bounds(x.args[0])
            m = poly_const(x.args[1])
            if m and 0 <= lo and hi < m:
                return self.simplify(x.args[0])
        if op == 'floordiv' or op in ('bitlen', 'len', 'count', 'frombytes', 'item', 'bitand', 'mod', 'attr', 'call', 'poly'):
            if kind(x) in ('int', 'bool'):
                p = self.point(x)
                if p is not None and abs(p) != INF and Fraction(p).denominator == 1:
                    return C(int(p))
        if op == 'slice':
            return self.norm_slice(x)
        if op == 'item' and kind(x.args[0]) == 'bytes':
            n = self.strlen(x.args[0])
            i = poly_const(x.args[1])
            if i is not None and n[0] == n[1] and i < 0 and -i <= n[0]:
                return item(x.args[0], C(int(n[0] + i)))
        if op == 'frombytes':
            b = x.args[0]
            if b.op == 'slice':
                b2 = self.norm_slice(b) or b
                if b2.op == 'slice' and b2.args[3] is NONE and self.strlen(b2) == (1, 1):
                    lo = b2.args[1]
                    return item(b2.args[0], C(0) if lo is NONE else lo)
            elif self.strlen(b) == (1, 1) and kind(b) == 'bytes' and b.op not in ('item',):
                return item(b, C(0))
        if op == 'minbytes':
            n = self.strlen(x)
            if n[0] == n[1]:
                return tobytes(x.args[0], C(int(n[0])), x.args[1])
        return None

    def norm_slice(self, x):
        b, lo, hi, st = x.args
        if st is not NONE:
            return None
        n = self.strlen(b)
        if n[0] != n[1] or n[0] == INF:
            return None
        n = int(n[0])
        cl = 0 if lo is NONE else poly_const(lo)
        ch = n if hi is NONE else poly_const(hi)
        if cl is None or ch is None:
            return None
        i, j, _ = slice(int(cl), int(ch)).indices(n)
        if j <= i:
            return C(b'') if kind(b) == 'bytes' else C('') if kind(b) == 'str' else None
        if i == 0 and j == n:
            return b
        r = mk('slice', b, NONE if i == 0 else C(i), C(j), NONE)
        return r
