"""Loop terms for sequences of a fixed small length.

Where two loops have no common closed form, both outcome terms are specialised
to sequences of n = 0, 1, 2 ... elements (a `while` loop to at most n rounds):
binders and loop terms over such a sequence expand to loop-free terms, which
the comparison decides.  A difference found there is a difference of the
functions; agreement for the lengths tried decides nothing by itself.
"""
from terms import *
from core import merge_dicts
from compare import Comparer, Diff, assume, doubtful, fits, split_atom, innermost, cond_atoms, Budget, LOOPY

CUT = mk('cut')
EXPANDS = LOOPS | {'exists', 'eachsum', 'eachcat', 'each', 'first', 'last', 'count', 'kveach'}
FOREVER = mk('forever')


def elements(it):
    """elements of a concrete sequence, or None"""
    if it.op == 'tuple':
        return list(it.args)
    if it.op == 'list':
        if any(x.op in ('each', 'opt', 'spread', 'upd') for x in it.args):
            return None
        return list(it.args)
    if it.op == 'const' and isinstance(it.args[0], (str, bytes)):
        return [C(x) for x in it.args[0]]
    if it.op == 'cat':
        out = []
        for x in it.args:
            if x.op == 'tobytes' and poly_const(x.args[1]) == 1:
                out.append(x.args[0])
            elif x.op == 'item' and kind(x) == 'str' and kind(x.args[0]) == 'str':
                out.append(x)
            elif x.op == 'const':
                out.extend(C(y) for y in x.args[0])
            else:
                return None
        return out
    if it.op == 'item' and kind(it) == 'str' and kind(it.args[0]) == 'str':
        return [it]
    if it.op == 'tobytes' and poly_const(it.args[1]) == 1:
        return [it.args[0]]
    if it.op == 'range':
        n = poly_const(it.args[0])
        return None if n is None else [C(i) for i in range(int(n))]
    if it.op == 'rev':
        e = elements(it.args[0])
        return None if e is None else e[::-1]
    if it.op in ('sorted', 'shuffled', 'listof'):
        e = elements(it.args[0])
        if e is None:
            return None
        return e if len(e) < 2 or it.op == 'listof' else [mk('item', it, C(i)) for i in range(len(e))]
    if it.op == 'zip':
        es = [elements(x) for x in it.args]
        if not es or any(e is None for e in es):
            return None
        return [Tup(r) for r in zip(*es)]
    return None


def by_presence(it, room=None):
    """a list with optional parts as a case distinction over plain lists"""
    room = [64] if room is None else room
    if it.op == 'ite':
        return ite(it.args[0], by_presence(it.args[1], room), by_presence(it.args[2], room))
    if it.op in ('rev', 'sorted', 'shuffled', 'listof'):
        x = by_presence(it.args[0], room)
        if x is not it.args[0]:
            return over_cases(x, lambda y: rebuild(it.op, (y,) + it.args[1:]))
    if it.op == 'list':
        for s in it.args:
            if s.op == 'opt':
                # the conditions of the parts are rarely independent
                g = first_atom(s.args[0])
                room[0] -= 1
                if room[0] < 0:
                    raise Budget()
                return ite(g, by_presence(assume(it, g, True), room), by_presence(assume(it, g, False), room))
    return it


def first_atom(g):
    while g.op in ('and', 'or', 'not') or g.op == 'ite':
        g = g.args[0]
        if isinstance(g, tuple):
            g = g[0]
    return g


def over_cases(t, f):
    if t is CUT:
        return CUT
    if t.op == 'ite':
        return ite(t.args[0], over_cases(t.args[1], f), over_cases(t.args[2], f))
    return f(t)


class Unroller:
    def __init__(self, rounds, limit=200000):
        self.rounds = rounds
        self.memo = {}
        self.n = 0
        self.limit = limit

    def ex(self, t):
        if t.op in ('const', 'sym', 'ext', 'func', 'cls'):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        self.n += 1
        if self.n > self.limit:
            raise Budget()
        r = self.ex1(t)
        self.memo[t] = r
        return r

    def ex1(self, t):
        if t.op in EXPANDS:
            it = by_presence(self.ex(t.args[0])) if t.args[0] is not FOREVER else FOREVER
            if it is CUT:
                return CUT if t.op not in BOOL_OPS else mk('truth', CUT)
            if it.op == 'ite' and t.op not in ('each', 'kveach'):
                return over_cases(it, lambda x: self.ex(on(t, x)))
            es = None if it is FOREVER else elements(it)
            if t.op in LOOPS and (it is FOREVER or es is not None):
                return self.loop(t, it, es)
            if es is not None and t.op not in ('each', 'kveach'):
                return self.binder(t, es)
        if t.op == 'list':
            out = []
            for s in t.args:
                out.extend(self.seg(s))
            return mklist(out)
        if t.op == 'dict':
            out = []
            for e in t.args:
                es = None
                if e.op == 'kveach':
                    it = by_presence(self.ex(e.args[0]))
                    es = elements(it)
                    if it.op == 'ite':
                        both = [dict_entries(self.ex(mkdict([on(e, x)]))) for x in it.args[1:]]
                        out.extend(merge_dicts(it.args[0], mk('dict', *both[0]), mk('dict', *both[1])).args)
                        continue
                if es is not None:
                    _, k, g, kk, vv = e.args
                    for n, x in enumerate(es):
                        g1, k1, v1 = (self.ex(y) for y in self.inst((g, kk, vv), e.args[0], k, x, n))
                        out.append(mk('kvopt', g1, k1, v1))
                elif e.op == 'kvspread':
                    out.extend(dict_entries(self.ex(e.args[0])))
                else:
                    out.append(self.ex(e))
            return mkdict(out)
        if t.op == 'dkeys':
            return over_cases(self.ex(t.args[0]), keys_in_order)
        if t.op == 'item' and t.args[0].op in LOOPS | {'list'} and t.args[0] is not None:
            i = self.ex(t.args[1])
            return over_cases(by_presence(self.ex(t.args[0])), lambda x: item(x, i))
        args = []
        ch = False
        for a in t.args:
            b = self.exarg(a)
            ch = ch or b is not a
            args.append(b)
        if not ch:
            return t
        r = rebuild(t.op, args)
        return r

    def exarg(self, a):
        if isinstance(a, T):
            return self.ex(a)
        if isinstance(a, tuple):
            n = tuple(self.exarg(x) for x in a)
            return n if any(p is not q for p, q in zip(n, a)) else a
        return a

    def inst(self, body, it, k, x, n):
        m = {mk('elem', it, k): x, mk('idx', it, k): C(n)}
        return tuple(subst(b, m) for b in body)

    def seg(self, s):
        if s.op == 'each':
            it = by_presence(self.ex(s.args[0]))
            if it is CUT:
                return [mk('spread', CUT)]
            if it.op == 'ite':
                x, y = (self.seg(on(s, z)) if z is not CUT else [mk('spread', CUT)] for z in it.args[1:])
                return list(opt(it.args[0], x)) + list(opt(Not(it.args[0]), y))
            es = elements(it)
            if es is not None:
                out = []
                for n, x in enumerate(es):
                    for y in self.inst(s.args[2], s.args[0], s.args[1], x, n):
                        out.extend(self.seg(y))
                return out
        if s.op == 'opt':
            inner = []
            for y in s.args[1:]:
                inner.extend(self.seg(y))
            return list(opt(self.ex(s.args[0]), inner))
        if s.op == 'upd':
            return self.updated(by_presence(self.ex(s.args[0])), self.ex(s.args[1]), self.ex(s.args[2]))
        if s.op == 'spread':
            x = self.ex(s.args[0])
            es = elements(x)
            if es is not None:
                return es
            if x.op == 'list':
                return list(x.args)
            if x.op == 'ite':
                # both alternatives as guarded segments
                return list(opt(x.args[0], self.seg(spread(x.args[1])))) + list(opt(Not(x.args[0]), self.seg(spread(x.args[2]))))
            if x is CUT:
                return [mk('spread', CUT)]
            return [spread(x)]
        return [self.ex(s)]

    def updated(self, it, i, v):
        """segments of the list `it` after it[i] = v"""
        if it is CUT:
            return [mk('spread', CUT)]
        if it.op == 'ite':
            x, y = (self.updated(z, i, v) for z in it.args[1:])
            return list(opt(it.args[0], x)) + list(opt(Not(it.args[0]), y))
        es, n = elements(it), poly_const(i)
        if es is None or n is None:
            return [mk('upd', it, i, v)]
        if not -len(es) <= n < len(es):
            return [mk('spread', CUT)]
        es = list(es)
        es[int(n)] = v
        return es

    def binder(self, t, es):
        it, k = t.args[0], t.args[1]
        body = t.args[2:]
        if t.op == 'eachcat':
            return cat([self.ex(self.inst(body[:1], it, k, x, n)[0]) for n, x in enumerate(es)], body[1])
        rows = [tuple(self.ex(y) for y in self.inst(body, it, k, x, n)) for n, x in enumerate(es)]
        if t.op == 'exists':
            return Or([r[0] for r in rows])
        if t.op == 'eachsum':
            s = C(0)
            for r in rows:
                s = add(s, r[0])
            return s
        if t.op == 'count':
            s = C(0)
            for r in rows:
                s = add(s, ite(r[0], C(1), C(0)))
            return s
        v = CUT
        for g, x in (reversed(rows) if t.op == 'first' else rows):
            v = ite(g, x, v)
        return v

    def loop(self, t, it, es):
        it0, k, vars_, stop, expr = t.args
        n = self.rounds if it is FOREVER else len(es)
        lv = loop_level(t)
        cvs = {}
        for b in [v.args[1] for v in vars_] + [stop, expr]:
            for c in frees(b):
                if c.op == 'cv' and c.args[0] == lv:
                    cvs[c] = c.args[1]
        cur = [self.ex(v.args[0]) for v in vars_]
        out = []
        for i in range(n):
            m = {c: unwrap(cur[j], c) for c, j in cvs.items() if j < len(cur)}
            m[mk('idx', it0, k)] = C(i)
            if es is not None:
                m[mk('elem', it0, k)] = es[i]
            s = self.ex(subst(stop, m))
            if t.op == 'loopval':
                out.append((s, self.ex(subst(expr, m))))
            else:
                out.append((s, None))
            if s is TRUE:
                break
            cur = [self.ex(subst(v.args[1], m)) for v in vars_]
        if t.op == 'loopend':
            m = {c: unwrap(cur[j], c) for c, j in cvs.items() if j < len(cur)}
            return self.ex(subst(expr, m))
        if t.op == 'loopstop':
            r = Or([s for s, _ in out])
            return r if it is not FOREVER else TRUE
        v = CUT
        for s, x in reversed(out):
            v = ite(s, x, v)
        return v


def on(t, it):
    """the binder or loop t over another sequence"""
    k = t.args[1]
    m = {mk('elem', t.args[0], k): mk('elem', it, k), mk('idx', t.args[0], k): mk('idx', it, k)}

    def go(a):
        if isinstance(a, T):
            return subst(a, m)
        return tuple(go(x) for x in a) if isinstance(a, tuple) else a
    if t.op in LOOPS:
        vars_ = tuple(mk('var', v.args[0], subst(v.args[1], m), *v.args[2:]) for v in t.args[2])
        return mk(t.op, it, k, vars_, *[go(a) for a in t.args[3:]])
    return mk(t.op, it, k, *[go(a) for a in t.args[2:]])


def keys_in_order(d):
    """the keys of a dict with single entries: each at its first place"""
    if d.op != 'dict' or not all(e.op in ('kv', 'kvopt') for e in d.args):
        return mk('dkeys', d)
    es = [(TRUE,) + e.args[:1] if e.op == 'kv' else e.args[:2] for e in d.args]
    return mklist([mk('opt', And([g] + [Not(And([h, eq(k, q)])) for h, q in es[:n]]), k) for n, (g, k) in enumerate(es)])


def dict_entries(d):
    if d.op == 'dict':
        return list(d.args)
    if d.op == 'ite':
        u, v = (mk('dict', *dict_entries(x)) for x in d.args[1:])
        return list(merge_dicts(d.args[0], u, v).args)
    return [mk('kvspread', d)]


def unwrap(v, c):
    """carried lists are stored as their content"""
    return v


def bases(it):
    """the sequences a sequence is derived from element by element"""
    if it.op in ('rev', 'sorted', 'shuffled', 'listof') or it.op == 'slice' and kind(it) not in ('str', 'bytes'):
        return bases(it.args[0])
    if it.op == 'zip':
        return [b for x in it.args for b in bases(x)]
    if it.op == 'ite':
        return bases(it.args[1]) + bases(it.args[2])
    if it.op in ('list', 'dict') or it.op in LOOPS or it is CUT or it is NONE:
        return []
    return [it]


def iterables(t):
    """closed symbolic sequences iterated in t"""
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in EXPANDS and x.args[0] is not FOREVER:
            for it in bases(x.args[0]):
                if elements(it) is None and not frees(it) and not any(y.op in EXPANDS or y.op == 'sym' and y.args[0][0] == '%' for y in walk(it)):
                    out.append(it)
        stack.extend(subterms(x))
    return sorted(set(out), key=lambda z: (sum(1 for _ in walk(z)), z.dig))


def sizing(N, n, f):
    """what a number of rounds N = n says"""
    k = poly_const(N.args[1]) if N.op == 'floordiv' else None
    if k is not None and k > 0:
        p = N.args[0]
        return tuple(x for x in (f, gt0(add(p, C(1 - k * n))), gt0(sub(C(k * (n + 1)), p))) if x not in (TRUE, FALSE))
    return (f,) if f is not TRUE else ()


def specialise(a, b, plan, limit=12):
    """[(a, b, facts)] for sequences of the planned numbers of elements; None if out of reach

    A sequence told by a case distinction is sized case by case: the same
    sequence must not get two lengths.
    """
    out = []
    rounds = plan[0]

    def go(t, facts, sized, step, texts, lens):
        for step in range(step, 16):
            n = plan[1][min(len(sized), len(plan[1]) - 1)]
            its = iterables(t)
            if not its:
                t2 = Unroller(rounds).ex(t)
                if t2 is t:
                    break
                t = t2
                continue
            it = its[0]
            g = next((x for x in map(split_atom, its) if x is not None), None)
            if g is not None:
                done = False
                for v in (True, False):
                    if not fits(g, v, facts):
                        continue
                    t2 = assume(t, g, v)
                    if t2 is t or len(out) >= limit:
                        return False
                    if not go(t2, facts + (g if v else Not(g),), sized, step + 1, texts, lens):
                        return False
                return True
            seen = lens.get(it)
            if seen is not None:
                # met again in a later round
                n = seen
            elif it.op != 'range':
                lens = dict(lens)
                lens[it] = n
            if any(mentions(x, it) for x in sized):
                return False
            if it.op == 'range':
                N = it.args[0]
                f = eq(N, C(n))
                if f is FALSE:
                    return False
                t2 = assume(t, f, True)
                if any(x is it for x in walk(t2)):
                    return False
                t = t2
                facts = facts + sizing(N, n, f)
                sized = sized + (N,)
            elif kind(it) in ('str', 'bytes'):
                k = kind(it)
                chars = [mk('item', mk('text', it), C(i)) for i in range(n)]
                t = subst(t, {it: cat([tobytes(c, C(1), 'big') for c in chars] if k == 'bytes' else chars, k)})
                if seen is None:
                    texts = texts + ((it, n),)
                    sized = sized + (mk('done', C(len(sized))),)
            else:
                t = subst(t, {it: mk('list', *[mk('item', it, C(i)) for i in range(n)])})
                if seen is None:
                    sized = sized + (mk('done', C(len(sized))),)
            t = Unroller(rounds).ex(t)
        t = Unroller(rounds).ex(t)
        out.append(t.args + (facts + tuple(mk('eq', sub(mk('len', x), C(n)), C(0)) for x, n in texts),))
        return True

    if not go(mk('pair', a, b), (), (), 0, (), {}):
        return None
    return out


def past_end(t):
    """an element a sequence does not have"""
    if t.op != 'item' or t.args[0].op not in ('list', 'tuple'):
        return False
    e, i = elements(t.args[0]), poly_const(t.args[1])
    return e is not None and i is not None and not -len(e) <= i < len(e)


_hascut = {}


def has_cut(t):
    r = _hascut.get(t)
    if r is None:
        r = t is CUT or past_end(t) or any(has_cut(x) for x in subterms(t))
        _hascut[t] = r
    return r


def endless(t):
    return any(x is CUT for x in walk(t))


_clean = {}


def clean_atom(t):
    """like split_atom, but an atom that holds no value of a round left out"""
    if t in _clean:
        return _clean[t]
    r = None
    if t.op in ('ite', 'and', 'or', 'not', 'opt', 'kvopt'):
        for x in cond_atoms(t if t.op in ('and', 'or', 'not') else t.args[0]):
            x = innermost(x)
            if not has_cut(x):
                r = x
                break
    if r is None and t.op not in ('const', 'sym', 'ext', 'func', 'cls', 'elem', 'idx', 'cv'):
        for x in [t.args[0]] if t.op in BINDERS else subterms(t):
            r = clean_atom(x)
            if r is not None:
                break
    _clean[t] = r
    return r


class CutComparer(Comparer):
    def equiv(self, a, b, facts=()):
        if facts and any(has_cut(f) for f in facts[-1:]):
            return True
        if self.pages and a is not b and len(facts) < 9 and clean_atom(a) is None and clean_atom(b) is None and \
                endless(a) and not has_cut(b):
            # more rounds than conditions: they no longer change
            self.diffs.append(Diff(mk('endless'), b, facts))
            self.diffs[-1].shared = self.shared
            return False
        return Comparer.equiv(self, a, b, facts)

    pages = False

    def pick(self, a, b):
        for t in (a, b):
            at = clean_atom(t)
            if at is not None:
                return at
        return Comparer.pick(self, a, b)

    def struct(self, a, b, facts):
        if has_cut(a) or has_cut(b):
            return True
        return Comparer.struct(self, a, b, facts)


# (rounds of a while loop, lengths of the sequences in order of appearance)
PLANS = ((2, (1,)), (1, (0,)), (2, (1, 0)), (2, (1, 1, 0)), (3, (1, 1, 1, 0)), (3, (2, 1)), (3, (1, 2, 1)), (3, (1, 1, 2, 1)), (3, (2,)), (4, (3, 1)), (4, (3,)))
# further ones: pages that run out, and many pages
MORE = ((3, (1, 2, 0)), (3, (2, 0)), (3, (1, 2, 1, 0)), (4, (2, 1, 0)), (13, (1,)))


def loose(f):
    """f speaks of some element of an assembled list without saying which"""
    return any(x.op in ('elem', 'idx') and x.args[0].op == 'list' for x in frees(f))


def refute(pairs, sizes=PLANS + MORE):
    """a credible difference for some small size, or the sizes for which both agree"""
    agree = []
    for n in sizes:
        ok = True
        if n[0] > 4 and not any(x is FOREVER for p in pairs for t in p for x in walk(t)):
            continue
        for a, b in pairs:
            try:
                p = specialise(a, b, n)
            except Budget:
                p = None
            if p is None:
                ok = False
                continue
            c = CutComparer(budget=20000)
            c.pages = n[0] > 4 and all(any(x.op == 'ext' and x.args[0] == 'requests.get' for x in walk(t)) for t in (a, b))
            for q in p:
                try:
                    if c.equiv(*q):
                        continue
                except Budget:
                    ok = False
                    break
                ok = False
                d = c.diffs[-1]
                if not doubtful(d) and not any(loose(f) for f in d.facts):
                    d.facts = d.facts + (mk('entries', C(str(n[1]))),)
                    return d, agree
        if ok:
            agree.append(n)
    return None, agree
