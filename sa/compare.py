"""Equivalence of two outcome terms: gated case split over their own guards."""
import functools
from terms import *
from core import implied, conj
from ranges import Ranges

ATOM_OPS = BOOL_OPS - {'and', 'or', 'not'}
UNSURE = {'loopval', 'loopend', 'loopstop', 'upd', 'unknown', 'recfn', 'getattr', 'decorated', 'unbound', 'formatted',
          'pct', 'vars', 'copyof', 'ref', 'upto', 'minof', 'maxof', 'sumof', 'keyerror', 'badindex', 'dictget', 'cell',
          'kvnest', 'star', 'partial', 'clo', 'bound', 'method', 'plus', 'mul', 'rangelen', 'typeof', 'powmod', 'bytesof',
          'entered', 'memoised', 'kvspreadopt', 'translate', 'split', 'fmt', 'cv', 'loopsel', 'lstrip', 'rstrip', 'strip', 'replace', 'rjust', 'ljust', 'join'}


# terms which stand for a failure in some cases
FAILING = {'keyerror', 'unbound', 'badindex', 'dictget', 'unknown', 'getattr'}
ITER = {'each', 'eachsum', 'eachcat', 'exists', 'first', 'last', 'count', 'kveach', 'loopval', 'loopend'}
LOOPY = {'loopval', 'loopend', 'loopstop', 'recfn', 'loopsel', 'upto'}


class Diff:
    def __init__(self, code, spec, facts, doubt=None):
        self.code, self.spec, self.facts, self.doubt = code, spec, facts, doubt
        self.loop = False
        self.shared = lambda t: False

    def __repr__(self):
        return 'code: {}\n  spec: {}\n  when: {}'.format(show(self.code, 9), show(self.spec, 9),
                                                      show(And(list(self.facts)), 6))


class Budget(Exception):
    pass


def cond_atoms(t):
    """atoms of a boolean term, left to right"""
    out = []

    def go(x):
        if x.op in ('and', 'or', 'not'):
            for a in x.args:
                go(a)
        elif x.op == 'ite':
            for a in x.args:
                go(a)
        elif x not in (TRUE, FALSE):
            out.append(x)
    go(t)
    return out


_split_cache = {}


def split_atom(t):
    """an atom of a guard occurring outside binders, or None"""
    if t in _split_cache:
        return _split_cache[t]
    r = _split_atom(t)
    _split_cache[t] = r
    return r


def innermost(a):
    """the atom itself, or a guard inside it that has to be decided first"""
    for x in ([a.args[0]] if a.op in BINDERS else subterms(a)):
        b = split_atom(x)
        if b is not None:
            return b
    b = steady_guard(a)
    return a if b is None else b


_steady = {}


def steady_guard(t):
    """a guard inside a loop of t that does not change from round to round"""
    if t in _steady:
        return _steady[t]
    r = None
    for x in sorted((x for x in walk(t) if x.op in LOOPS), key=lambda x: x.dig):
        best = []
        for y in walk(x):
            if y.op in ('ite', 'opt', 'kvopt', 'and', 'or', 'not'):
                for c in cond_atoms(y if y.op in ('and', 'or', 'not') else y.args[0]):
                    if not frees(c) and not any(z.op in LOOPS for z in walk(c)) and c.op not in ('exists', 'raises'):
                        best.append(c)
        if best:
            r = min(best, key=lambda c: (sum(1 for _ in walk(c)), c.dig))
            break
    _steady[t] = r
    return r


def _split_atom(t):
    if t.op in ('ite', 'and', 'or', 'not', 'opt', 'kvopt'):
        a = cond_atoms(t if t.op in ('and', 'or', 'not') else t.args[0])
        if a:
            return innermost(a[0])
    if t.op in BINDERS:
        # only the iterated sequence is outside the binder
        return split_atom(t.args[0])
    if t.op in ('const', 'sym', 'ext', 'func', 'cls', 'elem', 'idx', 'cv'):
        return None
    for x in subterms(t):
        a = split_atom(x)
        if a is not None:
            return a
    return None


def all_atoms(t, limit=4000):
    seen = set()
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ATOM_OPS:
            out.append(x)
        stack.extend(subterms(x))
        if len(seen) > limit * 10:
            break
    return out


def assume(t, fact, value):
    """t simplified under the assumption that atom `fact` has truth `value`"""
    m = {fact: TRUE if value else FALSE}
    f = fact if value else Not(fact)
    for a in all_atoms(t):
        if a in m:
            continue
        v = implied(f, a)
        if v is not None:
            m[a] = TRUE if v else FALSE
    if value and fact.op == 'eq':
        x, y = fact.args
        if y.op == 'const' and x.op not in ('const', 'poly') and not isinstance(y.args[0], bool):
            m.setdefault(x, y)
        elif y is C(0) and x.op == 'poly':
            p = to_poly(x)
            ms = [k for k in p if k]
            if len(ms) == 1 and len(ms[0]) == 1 and p[ms[0]] in (1, -1):
                m.setdefault(ms[0][0], C(-p.get((), 0) / Fraction(p[ms[0]])))
    if not value:
        e = empty_of(fact, t)
        if e:
            m.update(e)
    return subst(t, m)


def empty_of(fact, t):
    """terms known to be empty when the atom is false"""
    if fact.op == 'truth':
        x = fact.args[0]
        k = kind(x)
        if k == 'bytes':
            return {x: C(b'')}
        if k == 'str':
            return {x: C('')}
        if k is None or k == 'list':
            if x.op == 'call' and x.args[0].op == 'recfn':
                return {x: mk('list')}
            out = {}
            for y in walk(t):
                if y.op in ('eachsum', 'eachcat', 'exists', 'count', 'len') and y.args[0] is x:
                    z = subst(y, {x: mk('list')})
                    if z.op == 'const':
                        out[y] = z
            return out
        return {}
    if fact.op == 'gt0':
        out = {}
        for x in walk(t):
            if x.op == 'repeat' and implied(Not(fact), gt0(x.args[1])) is False:
                out[x] = C(b'' if kind(x) == 'bytes' else '')
        return out
    if fact.op == 'exists' and fact.args[2].op == 'truth':
        it, k, g = fact.args
        b = g.args[0]
        out = {}
        for x in walk(t):
            if x.op == 'eachcat' and x.args[0] is it and x.args[1] == k and x.args[2] is b:
                out[x] = C(b'' if x.args[3] == 'bytes' else '')
        return out
    return {}


def fits(fact, value, facts):
    """False if the new literal contradicts the facts"""
    f = fact if value else Not(fact)
    for g in facts:
        v = implied(g, f)
        if v is False:
            return False
    if And(list(facts) + [f]) is FALSE:
        return False
    return True


def settled(facts):
    """the facts, each under what the others say; None if they cannot all hold"""
    out = list(facts)
    for i, f in enumerate(facts):
        v = f.op != 'not'
        at = f if v else f.args[0]
        if at.op not in ('truth', 'exists', 'isnone', 'haskey', 'in'):
            continue
        for j, g in enumerate(out):
            if j != i:
                m = {at: TRUE if v else FALSE}
                if not v:
                    m.update(empty_of(at, g))
                if g is not facts[j] or any(x in m for x in walk(g)):
                    g = subst(g, m)
                    if g is FALSE:
                        return None
                    out[j] = g
    if out != list(facts):
        for i, g in enumerate(out):
            if g is not TRUE and not fits(g, True, out[:i]):
                return None
    return tuple(g for g in out if g is not TRUE)


def plain_list(x):
    """the list of all elements of a list is that list (up to identity)"""
    if x.op == 'list' and len(x.args) == 1 and x.args[0].op == 'each':
        it, k, b = x.args[0].args
        if b == (mk('elem', it, k),) and (it.op in LOOPS and kind(it) == 'list' or it.op == 'call' and it.args[0].op == 'recfn'):
            return it
    return x


def copied(a, b):
    """one of the terms is a list with the elements of the other"""
    for x, y in ((a, b), (b, a)):
        if x.op == 'list' and len(x.args) == 1 and x.args[0].op == 'each' and x.args[0].args[0] is y:
            return x.args[0].args[2] == (mk('elem', y, x.args[0].args[1]),) and kind(y) not in ('str', 'bytes', 'dict')
    return False


class Comparer:
    def __init__(self, budget=6000, rename=None):
        self.budget = budget
        self.n = 0
        self.leaves = 0
        self.diffs = []
        self.memo = {}
        self.odd = {}
        self.ranges = {}
        self.used = 0
        self.depth = 0
        self.common = None

    def roots(self, a, b):
        wa, wb = set(walk(a)), set(walk(b))
        self.common = {t for t in wa & wb if t.op in UNSURE and t.op not in LOOPY}
        # powers modulo a number have a canonical form
        self.powers = all(any(t.op == 'powmod' for t in w) for w in (wa, wb))

    def equiv(self, a, b, facts=()):
        """True, or False with self.diffs filled"""
        a, b = plain_list(a), plain_list(b)
        if self.common is None:
            self.roots(a, b)
        if a is b or b is ANY or b.op == 'ret' and b.args[0] is ANY:
            # ANY: a case the reference leaves open (the value `...` in a specification)
            self.leaves += 1
            return True
        self.n += 1
        if self.n > self.budget:
            raise Budget()
        key = (a, b)
        m = self.memo.get(key)
        if m is not None and (m is True or facts in m):
            return True
        used = self.used
        at = self.pick(a, b)
        if at is None and kind(a) == 'bool' and kind(b) == 'bool':
            for t in (a, b):
                if t.op in ATOM_OPS and t.op not in BINDERS:
                    at = t
                    break
        if at is not None:
            if at.op == 'raises':
                # tolerated: extra try around a computation that cannot fail for other reasons
                pass
            u = unsure(at)
            for v in (True, False):
                if not fits(at, v, facts):
                    self.used += 1
                    continue
                f = at if v else Not(at)
                if u and f not in self.odd:
                    wa, wb = set(walk(a)), set(walk(b))
                    bad = sorted({t.op for t in u if (t not in wa or t not in wb) and not self.shared(t)})
                    if bad:
                        self.odd[f] = 'a case told by terms without a canonical form: ' + ', '.join(bad)
                if not self.equiv(assume(a, at, v), assume(b, at, v), facts + (f,)):
                    return False
            self.keep(key, facts, used)
            return True
        r = self.struct(a, b, facts)
        if r:
            self.keep(key, facts, used)
        return r

    def pick(self, a, b):
        at = split_atom(a)
        return at if at is not None else split_atom(b)

    def shared(self, t):
        """t, whatever its value, is used by both sides (as they are given)"""
        return t in self.common or t.op == 'powmod' and self.powers

    def keep(self, key, facts, used):
        """remember an agreement; one that rests on the facts of the case holds for those only"""
        if used == self.used:
            self.memo[key] = True
        elif self.memo.get(key) is not True:
            self.memo.setdefault(key, set()).add(facts)

    def fail(self, a, b, facts, doubt=None):
        r = self.narrow(a, b, facts)
        if r is not None:
            return r
        # a case described by terms without a canonical form known to one side only may not exist
        doubt = doubt or next((self.odd[f] for f in facts if f in self.odd), None)
        d = Diff(a, b, facts, doubt)
        d.shared = self.shared
        self.diffs.append(d)
        return False

    def narrow(self, a, b, facts):
        """decide the difference with the value ranges of the case: True if they agree or the case does not exist"""
        R = self.ranges.get(facts)
        if R is None:
            fs = settled(facts)
            R = self.ranges[facts] = Ranges(facts if fs is None else fs)
            R.empty = R.empty or fs is None
        self.used += 1
        if R.empty:
            return True
        x, y = R.simplify(a), R.simplify(b)
        if R.empty or x is y:
            return True
        if (x is not a or y is not b) and self.depth < 8:
            self.depth += 1
            try:
                return self.equiv(x, y, facts)
            finally:
                self.depth -= 1
        return None

    def differing(self, xs, ys, facts):
        """number of leaf components of two argument tuples that differ"""
        n = 0
        for x, y in zip(xs, ys):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y:
                    if x.op == 'var' and y.op == 'var':
                        n += self.differing(x.args, y.args, facts)
                    elif not self.equiv_q(x, y, facts):
                        n += 1
            elif isinstance(x, tuple) and isinstance(y, tuple):
                n += self.differing(x, y, facts) if len(x) == len(y) else 2
            elif x != y:
                n += 2
        return n

    def struct(self, a, b, facts):
        if a is b:
            return True
        if copied(a, b):
            return self.fail(a, b, facts, 'a sequence or a copy of it')
        if a.op in LOOPY or b.op in LOOPY:
            if a.op != b.op or len(a.args) != len(b.args) or self.differing(a.args, b.args, facts) > 1:
                return self.fail(a, b, facts, 'loops of different shape')
            r = self.args(a.args, b.args, a, b, facts)
            if not r:
                self.diffs[-1].loop = True
            return r
        if a.op == b.op and len(a.args) == len(b.args):
            if a.op in BINDERS:
                if a.args[0] is not b.args[0]:
                    if not self.equiv_q(a.args[0], b.args[0], facts):
                        return self.fail(a, b, facts)
                    b = subst(b, {b.args[0]: a.args[0]})
                    if b.op != a.op:
                        return self.fail(a, b, facts)
                if a.args[1] != b.args[1]:
                    return self.fail(a, b, facts)
                return self.args(a.args[2:], b.args[2:], a, b, facts)
            if a.op == 'poly' or a.op in ('const', 'sym', 'ext', 'func', 'cls'):
                return self.fail(a, b, facts)
            if a.op in ('dict', 'effects', 'events'):
                return self.dicts(a, b, facts)
            return self.args(a.args, b.args, a, b, facts)
        if a.op == b.op and a.op in ('effects', 'events'):
            return self.dicts(a, b, facts)
        if a.op == 'dict' and b.op == 'dict':
            return self.dicts(a, b, facts)
        return self.fail(a, b, facts)

    def dicts(self, a, b, facts):
        if all(e.op == 'kv' for e in a.args + b.args):
            da = {e.args[0]: e.args[1] for e in a.args}
            db = {e.args[0]: e.args[1] for e in b.args}
            if set(da) == set(db):
                return all(self.equiv(da[k], db[k], facts) for k in da)
        if len(a.args) == len(b.args):
            return self.args(a.args, b.args, a, b, facts)
        return self.fail(a, b, facts)

    def equiv_q(self, a, b, facts):
        n = len(self.diffs)
        r = self.equiv(a, b, facts)
        if not r:
            del self.diffs[n:]
        return r

    def args(self, xs, ys, a, b, facts):
        for x, y in zip(xs, ys):
            if isinstance(x, T) and isinstance(y, T):
                n = len(self.diffs)
                if not self.equiv(x, y, facts):
                    f = facts
                    if a.op == 'tobytes' and a.args[0] is b.args[0]:
                        # a negative number has no bytes: both refuse it
                        f = facts + (gt0(add(a.args[0], C(1))),)
                    if a.op in ('slice', 'frombytes', 'item', 'tobytes') and self.narrow(a, b, f):
                        del self.diffs[n:]
                        return True
                    if a.op in ('eq', 'gt0', 'poly') and not self.diffs[-1].doubt:
                        self.diffs.pop()
                        return self.fail(a, b, facts)
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return self.fail(a, b, facts)
                if not self.args(x, y, a, b, facts):
                    return False
            elif x != y:
                return self.fail(a, b, facts)
        return True


def unsure(t):
    """maximal subterms without a canonical form"""
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in UNSURE:
            out.add(x)
            continue
        stack.extend(subterms(x))
    return out


def numeric(t):
    """t with every `+` of values of unknown kind read as the addition of numbers"""
    while True:
        m = {x: functools.reduce(add, x.args) for x in walk(t) if x.op == 'plus' and not any(y.op == 'plus' for z in x.args for y in walk(z))}
        if not m:
            return t
        t = subst(t, m)


def doubtful(d):
    """reason why a difference is not evidence of different behaviour"""
    if d.doubt:
        return d.doubt
    if {d.code.op, d.spec.op} == {'raise', 'ret'}:
        # whatever is returned, it is not a refusal
        bad = {x.op for t in (d.code, d.spec) for x in walk(t)} & FAILING
        return 'terms that may fail: ' + ', '.join(sorted(bad)) if bad else None
    x, y = d.code, d.spec
    if any(t.op == 'plus' for t in walk(x)):
        # both sides add, or one of them does something else with numbers
        x, y = numeric(x), numeric(y)
        if x is y:
            return 'terms without a canonical form: plus'
    a, b = unsure(x), unsure(y)
    extra = {t for t in a - b if not d.shared(t)}
    if extra:
        return 'terms without a canonical form: ' + ', '.join(sorted({x.op for x in extra}))
    if b - a and any(x.op in ITER for x in walk(d.code)):
        return 'reference loop without a canonical form'
    return None

