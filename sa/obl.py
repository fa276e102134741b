"""Obligations: a repository function must denote the same function as its reference."""
import ctypes
import threading
import time
from drive import *
from compare import *
from unroll import refute, PLANS
from state import State as Persistent


class Ob:
    """code: qualified name in the repository; spec: reference function.

    kinds   parameter kinds by reference parameter name
    bounds  repository functions left uninterpreted on both sides (each is the
            subject of an obligation of its own)
    impure  bounds whose result may differ between calls
    props   properties read as plain attributes
    fix     values of attributes of parameters: the case the obligation is about
    """

    def __init__(self, code, spec, kinds=None, bounds=(), impure=(), props=(), ignore=(), note='', keep=(), events=(), memo=(), inv=None, const=None, key=None, fix=None):
        self.code, self.spec = code, spec
        self.kinds = kinds or {}
        self.bounds = frozenset(bounds)
        self.impure = frozenset(impure)
        self.props = frozenset(props)
        self.keep = frozenset(keep)
        self.events = tuple(events)
        self.memo = tuple(memo)
        self.inv = inv or {}
        self.note = note
        self.const = const or {}
        self.key = key
        self.fix = fix or {}

    @property
    def id(self):
        return self.key or self.code


class NoState:
    def __init__(self, e):
        self.unsound = {}


class Result:
    def __init__(self, ob, verdict, detail='', diff=None, stats=None):
        self.ob, self.verdict, self.detail, self.diff = ob, verdict, detail, diff
        self.stats = stats or {}
        self.asym = False

    def __repr__(self):
        return '{} {} {}'.format(self.verdict, self.ob.id, self.detail)


def summaries(src, ob, bounds, props):
    an = Analyzer(src, boundaries=bounds, opaque_props=props)
    an.impure_bounds = ob.impure
    cf = find_func(an, ob.code)
    while cf.op in ('memo', 'decorated'):
        cf = cf.args[-1]
    if cf not in an.funcs:
        raise AnchorMissing(ob.code)
    ci = an.funcs[cf]
    sf = find_func(an, ob.spec)
    si = an.funcs[sf]
    cpos, cva, cko, ckw = ci.params()
    spos, sva, sko, skw = si.params()
    sfix = [p for p in sko if p in ob.const]
    sko = [p for p in sko if p not in ob.const]
    if len(cpos) < len(spos) or bool(cva) != bool(sva) or bool(ckw) != bool(skw) or not set(sko) <= set(cko):
        raise Undecided('the signature of {} changed'.format(ob.code))
    kinds = {}
    for s, c in zip(spos, cpos):
        if s in ob.kinds:
            kinds[c] = ob.kinds[s]
    for s in sko:
        if s in ob.kinds:
            kinds[s] = ob.kinds[s]
    values = {}
    nd = len(ci.defaults)
    for i in range(len(spos), len(cpos)):
        j = i - (len(cpos) - nd)
        if j < 0:
            raise Undecided('new required parameter of ' + ob.code)
        values[cpos[i]] = ci.defaults[j]
    for k in set(cko) - set(sko):
        if k in ob.const:
            values[k] = C(ob.const[k])
            continue
        if k not in ci.kwdefaults:
            raise Undecided('new required parameter of ' + ob.code)
        values[k] = ci.kwdefaults[k]
    if ci.kind == 'classmethod':
        q = ob.code.rsplit('.', 1)[0]
        values[cpos[0]] = mk('cls', q)
    elif ci.cls and ci.kind in ('plain', 'property') and cpos and cpos[0] not in kinds:
        q = ob.code.rsplit('.', 1)[0]
        values[cpos[0]] = sym('self', 'inst:' + q)
    for s, c in zip(spos, cpos):
        if s in ob.const:
            values[c] = C(ob.const[s])
    a = summarise(an, ob.code, kinds=kinds, values=values)
    ev = an.events
    sval = dict(values)
    for s in sfix:
        sval[s] = C(ob.const[s])
    b = summarise(an, ob.spec, kinds=kinds, values=sval, names=cpos)
    # defaults agree
    dd = default_diff(an, ci, si)
    return an, a, b, ev, dd


def default_diff(an, ci, si):
    cpos, spos = ci.params()[0], si.params()[0]
    cd = dict(zip(cpos[len(cpos) - len(ci.defaults):], ci.defaults))
    sd = dict(zip(spos[len(spos) - len(si.defaults):], si.defaults))
    for c, s in zip(cpos, spos):
        x, y = cd.get(c), sd.get(s)
        if y is not None and x is not None and x is not y and \
                an.freeze(x, State({})) is not an.freeze(y, State({})):
            return Diff(x, y, (mk('default', c),))
        if y is not None and x is None:
            return Diff(mk('required', c), y, ())
    for k, y in si.kwdefaults.items():
        x = ci.kwdefaults.get(k)
        if x is not None and x is not y:
            return Diff(x, y, (mk('default', k),))
    return None


def levels_of(ob):
    own = frozenset([ob.code])
    levels = [(ob.bounds | own, ob.props)]
    low = (own | ob.keep, ob.props & {'address', 'segwit_address'})
    if low != levels[0]:
        levels.append(low)
    return levels


def decide(src, ob, limit=60, every=False):
    """Equal at one level: proved.  A difference counts at the modular level only if both
    sides use the same uninterpreted functions (otherwise one of them was merely bypassed
    and the inlined level decides)."""
    t0 = time.time()
    best = None
    got = []
    levels = levels_of(ob)
    for n, (bounds, props) in enumerate(levels):
        try:
            r = timed(lambda: one_level(src, ob, bounds, props, n), limit)
        except AnchorMissing as e:
            return Result(ob, 'missing', str(e))
        r.ob = ob
        got.append(r.verdict)
        if r.verdict == 'proved':
            best = r
            r.stats['level'] = n
            if not every:
                break
            continue
        if best is None:
            best = r
        elif best.verdict == 'proved':
            pass
        elif best.verdict == 'violation' and not best.asym:
            pass
        elif r.verdict == 'violation':
            best = r
        else:
            best = Result(ob, 'undecided', (best.detail or 'different helpers are used') + ' / inlined: ' + r.detail, best.diff, r.stats)
    if best.verdict == 'violation' and best.asym and len(levels) > 1 and best.stats['at'] == 0:
        best.verdict, best.detail = 'undecided', 'different helpers are used'
    if best.verdict != 'violation':
        why = remembers(src, ob, best)
        if why:
            best = Result(ob, 'violation', why, None, best.stats)
    best.stats['levels'] = got
    best.stats['s'] = round(time.time() - t0, 2)
    return best


def remembers(src, ob, r):
    """an analysed function answers from state that earlier calls leave behind"""
    st = getattr(src, 'state', None)
    if st is None:
        st = src.state = Persistent(src)
    for q in sorted(set(r.stats.get('functions', ())) | {ob.code}):
        if q in st.unsound:
            return 'the result depends on earlier calls: in {}, {}'.format(q, st.unsound[q])
    return None


def funcs_in(t):
    return {x.args[0] for x in walk(t) if x.op == 'func'}


def props_in(t, props):
    return {x.args[1] for x in walk(t) if x.op == 'attr' and x.args[1] in props}


def timed(f, limit):
    out = []

    def go():
        try:
            out.append(f())
        except BaseException as e:
            out.append(e)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(limit)
    if not out:
        for _ in range(100):
            # an abandoned analysis must not slow down the next one
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(SystemExit))
            t.join(0.1)
            if not t.is_alive():
                break
        return Result(None, 'undecided', 'time limit')
    if isinstance(out[0], AnchorMissing):
        raise out[0]
    if isinstance(out[0], BaseException):
        if isinstance(out[0], (Undecided, Budget, RecursionError)):
            return Result(None, 'undecided', '{}: {}'.format(type(out[0]).__name__, out[0]))
        raise out[0]
    return out[0]


def self_term(an, ob):
    q = ob.code.rsplit('.', 1)[0]
    return sym('self', 'inst:' + q)


def self_attr(an, ob, name):
    return mk('attr', self_term(an, ob), name)


def eff_name(k):
    """attribute written by an effect key, or None"""
    if k.op == 'eff' and k.args[0] in ('a', 'c', 'd', 'q') and isinstance(k.args[-1], str):
        return k.args[-1]
    return None


def balance_effects(an, ob, a, b):
    """An attribute written on one side only: private attributes are implementation
    details; a class attribute of the same name counts as its initial value."""
    fa = {x for x in walk(a) if x.op == 'effects'}
    fb = {x for x in walk(b) if x.op == 'effects'}
    ka = {e.args[0] for x in fa for e in x.args}
    kb = {e.args[0] for x in fb for e in x.args}
    drop = {k for k in ka ^ kb if (eff_name(k) or '').startswith('_')}
    # contents of what a local recursive function returned are not visible outside
    drop |= {k for k in ka ^ kb if k.args[0] == 'c' and k.args[1].op == 'call' and k.args[1].args[0].op == 'recfn'}
    me = self_term(an, ob)
    fill = {}
    for k in kb - ka:
        n = eff_name(k)
        if n and k.args[1] is me and k.args[0] == 'a':
            f, owner = an.find_in_class(ob.code.rsplit('.', 1)[0], n)
            if f is not None and f.op == 'const':
                fill[k] = f

    def fix(t, m, extra):
        out = {}
        for x in m:
            ents = [e for e in x.args if e.args[0] not in drop]
            have = {e.args[0] for e in ents}
            ents += [mk('kv', k, v) for k, v in extra.items() if k not in have]
            ents.sort(key=lambda e: e.args[0].dig)
            y = mk('effects', *ents)
            if y is not x:
                out[x] = y
        return subst(t, out) if out else t
    return fix(a, fa, fill), fix(b, fb, {})


def known(an, ob):
    """attributes with a known value: class invariants, and the case under which a parameter is looked at"""
    m = {self_attr(an, ob, k): C(v) for k, v in ob.inv.items()}
    if ob.inv and 'address' not in ob.memo:
        # an address is never an empty string
        m[truth(self_attr(an, ob, 'address'))] = TRUE
        m[isnone(self_attr(an, ob, 'address'))] = FALSE
    m.update({mk('attr', sym(p, ob.kinds.get(p)), k): C(v) for (p, k), v in ob.fix.items()})
    return m


def variants(an, ob, a, b):
    """outcome pairs to compare: class invariants and memo attributes instantiated"""
    m = known(an, ob)
    if m:
        a, b = subst(a, m), subst(b, m)
    a, b = balance_effects(an, ob, a, b)
    if not ob.memo:
        return [(a, b)]
    none = {self_attr(an, ob, k): NONE for k in ob.memo}
    out = [(subst(a, none), subst(b, none))]
    v = strip_ret(out[0][1])
    if v is not None and len(ob.memo) == 1:
        full = {self_attr(an, ob, ob.memo[0]): v}
        out.append(tuple(no_effects(subst(x, full)) for x in (a, b)))
        out[0] = tuple(drop_memo(x, ob) for x in out[0])
    return out


def strip_ret(t):
    if t.op == 'ret':
        return t.args[0]
    if t.op == 'ite':
        x, y = strip_ret(t.args[1]), strip_ret(t.args[2])
        if x is not None and y is not None:
            return ite(t.args[0], x, y)
    return None


def no_effects(t):
    return subst(t, {x: mk('effects') for x in walk(t) if x.op == 'effects'})


def drop_memo(t, ob):
    """on a fresh object the memo attribute may be left alone"""
    out = {}
    for x in walk(t):
        if x.op == 'effects':
            y = mk('effects', *[e for e in x.args if eff_name(e.args[0]) not in ob.memo])
            if y is not x:
                out[x] = y
    return subst(t, out)


def event_term(an, ob, events):
    """calls with outside effects: who is called with what, and when"""
    got = {}
    for e in events:
        q = callee_q(e.callee)
        if q is None or not any(q == p or p.endswith('*') and q.startswith(p[:-1]) for p in ob.events):
            continue
        key = mk('did', e.callee, tuple(e.args), tuple(sorted(e.kwargs.items())), len(e.loops))
        got.setdefault(key, []).append(e.guard)
    ents = [mk('kv', k, Or(g)) for k, g in got.items()]
    ents.sort(key=lambda e: e.args[0].dig)
    return mk('events', *ents)


def callee_q(f):
    if f.op in ('func', 'ext', 'cls'):
        return f.args[0]
    if f.op == 'attr':
        return '.' + f.args[1]
    return None


def one_level(src, ob, bounds, props, n):
    an, a, b, ev, dd = summaries(src, ob, bounds, props)
    stats = {'at': n, 'functions': sorted(an.analysed), 'events': len(ev)}
    if a.outcome is None or b.outcome is None:
        if a.outcome is b.outcome:
            return Result(ob, 'proved', stats=stats)
        return Result(ob, 'undecided', 'no outcome', stats=stats)
    if dd is not None:
        return Result(ob, 'violation', 'default value', dd, stats)
    c = Comparer()
    stats['terms'] = size(a.outcome)
    ok = True
    pairs = []
    for x, y in variants(an, ob, a.outcome, b.outcome):
        if ob.events:
            m = known(an, ob)
            x = mk('pair', x, subst(event_term(an, ob, a.events), m))
            y = mk('pair', y, subst(event_term(an, ob, b.events), m))
        pairs.append((x, y))
        try:
            ok = c.equiv(x, y)
        except Budget:
            ok = None
        if not ok:
            break
    stats['cases'] = c.leaves
    if ok:
        return Result(ob, 'proved', stats=stats)
    if ok is not True:
        d = recursive_part(pairs)
        if d is TRUE:
            return Result(ob, 'proved', stats=stats)
        if d is not None:
            return Result(ob, 'violation', '', d, stats)
    asym = funcs_in(a.outcome) != funcs_in(b.outcome) or props_in(a.outcome, props) != props_in(b.outcome, props)
    d = c.diffs[-1] if ok is False else Diff(*pairs[-1], (), 'too many cases')
    why = doubtful(d)
    if why or d.loop or binders_in(d):
        d2, agree = refute(pairs)
        stats['agree'] = agree
        if d2 is not None:
            d, why = d2, None
        elif not why and set(PLANS) <= set(agree) and not beyond(d):
            why = 'loops that agree for short sequences'
    if why and trims(pairs):
        why = None
    if why:
        return Result(ob, 'undecided', why, d, stats)
    r = Result(ob, 'violation', '', d, stats)
    r.asym = asym and not less_work(pairs)
    return r


def beyond(d):
    """the case needs a sequence longer than the instances tried"""
    for f in d.facts:
        for n in {x for x in walk(f) if x.op == 'len' and not frees(x)}:
            if all(subst(f, {n: C(i)}) is FALSE for i in range(6)):
                return True
    return False


TRIM = {'strip', 'lstrip', 'rstrip', 'replace', 'translate'}


def trims(pairs):
    """The sides agree once the characters one of them removes (or replaces) are left in place:
    they differ for every text or bytes that has such characters."""
    ops = [{x for x in walk(p[i]) if x.op in TRIM} for p in pairs for i in (0, 1)]
    extra = set().union(*ops[::2]) ^ set().union(*ops[1::2])
    if not extra or any(ascii_only(x.args[0]) for x in extra):
        return False

    def plain(t):
        while True:
            m = {x: x.args[0] for x in walk(t) if x in extra and not any(y in extra for y in walk(x.args[0]))}
            if not m:
                return t
            t = subst(t, m)
    try:
        return all(Comparer().equiv(plain(x), plain(y)) for x, y in pairs)
    except Budget:
        return False


def less_work(pairs):
    """the code computes nothing the reference does not compute: a helper it does not use is not replaced either"""
    ctl = {'ret', 'raise', 'ite', 'and', 'or', 'not', 'pair', 'effects', 'events', 'const'}
    return all(x.op in ctl or x in b for a, b in ((walk(x), set(walk(y))) for x, y in pairs) for x in a)


def heads(t):
    return {x for x in walk(t) if x.op == 'recfn' and isinstance(x.args[0], int)}


def recursive_part(pairs):
    """Both sides use one local recursive function, in the same way: TRUE if these agree,
    a credible difference between one round of the two, or None."""
    ha, hb = (set().union(*[heads(p[i]) for p in pairs]) for i in (0, 1))
    if len(ha) != 1 or len(hb) != 1 or ha == hb:
        return None
    f, g = ha.pop(), hb.pop()
    if f.args[0] != g.args[0] or len(f.args[2]) != len(g.args[2]):
        return None
    try:
        if not all(Comparer().equiv(x, subst(y, {g: f})) for x, y in pairs):
            return None
        for x, y in zip((f.args[1],) + f.args[2], (g.args[1],) + g.args[2]):
            c = Comparer()
            if not c.equiv(x, y):
                d = c.diffs[-1]
                return None if doubtful(d) or d.loop or any(x.op in BINDERS for t in (d.code, d.spec) for x in walk(t)) else d
    except Budget:
        return None
    return TRUE


def binders_in(d):
    return any(x.op in BINDERS for t in d.facts + (d.code, d.spec) for x in walk(t))


def size(t):
    return sum(1 for _ in walk(t))
