"""Summarise a function: outcome term over its parameters."""
from engine import *


class Summary:
    pass


def find_func(an, qual):
    """('bit.utils.bytes_to_hex') or ('bit.wallet.PrivateKey.address') -> (term, FuncInfo)"""
    parts = qual.split('.')
    for i in range(len(parts) - 1, 0, -1):
        mod = '.'.join(parts[:i])
        if an.src.has(mod):
            an.load(mod)
            rest = parts[i:]
            v = an.modvar(mod, rest[0], None)
            if v is None:
                raise AnchorMissing(qual)
            if len(rest) == 1:
                return v
            if v.op == 'cls' and len(rest) == 2:
                f, owner = an.find_in_class(v.args[0], rest[1])
                if f is None:
                    raise AnchorMissing(qual)
                return f
            raise AnchorMissing(qual)
    raise AnchorMissing(qual)


def summarise(an, qual, kinds=None, values=None, names=None):
    """names: parameter names (positional order) used for the symbols"""
    kinds = kinds or {}
    values = values or {}
    f = find_func(an, qual)
    st = State({})
    fr = Frame('TOP%d' % an.uid(), (), 'bit')
    while f.op in ('memo', 'decorated'):
        f = f.args[-1]
    fi = an.funcs[f]
    pos, va, ko, kw = fi.params()
    b = {}
    allp = pos + ([va] if va else []) + ko + ([kw] if kw else [])
    names = names or pos
    for i, p in enumerate(pos):
        nm = p if p in names or i >= len(names) else names[i]
        if nm in values:
            b[p] = values[nm](an, st) if callable(values[nm]) else values[nm]
        elif i == 0 and fi.kind == 'classmethod':
            b[p] = mk('cls', fi.cls)
        elif i == 0 and fi.cls and fi.kind in ('plain', 'property') and nm not in kinds:
            b[p] = sym('self', 'inst:' + an.spec_of.get(fi.cls, fi.cls))
        else:
            b[p] = sym(nm, kinds.get(nm))
    for p in ko:
        b[p] = values.get(p, sym(p, kinds.get(p)))
    if va:
        b[va] = values.get(va, sym(va, 'tuple'))
    if kw:
        b[kw] = values.get(kw, sym(kw, 'dict'))
    an.events = []
    v = an.inline(fi, b, st, fr, fi.node)
    r = Summary()
    r.events = an.events
    r.fi = fi
    r.state = st
    r.exits = fr.exits
    r.value = v
    r.outcome = outcome(an, v, st, fr.exits)
    return r


def effects(an, st):
    out = []
    for k, v in st.store.items():
        if k[0] in ('a', 'c', 'd', 'q'):
            key = mk('eff', k[0], k[1], *(k[2:]))
        elif k[0] == 'g':
            key = mk('eff', 'g', k[1])
        elif k[0] == 'ca':
            key = mk('eff', 'ca', an.spec_of.get(k[1], k[1]), k[2])
        else:
            continue
        d = an.default(k)
        val = an.freeze(v, st)
        if d is not None and val is an.freeze(d, State({})):
            continue
        out.append((key, val))
    out.sort(key=lambda p: p[0].dig)
    return mk('effects', *[mk('kv', k, v) for k, v in out])


def outcome(an, v, st, exits):
    parts = []
    if not st.dead:
        res = mk('ret', an.freeze(v, st), effects(an, st))
    else:
        res = None
    for k, x, s, t in exits:
        if k != 'raise':
            continue
        parts.append((s.guard, exc_term(an, x)))
    for g, e in parts:
        if res is None:
            res = e
        else:
            res = ite(g, e, res)
    return res


def exc_term(an, x):
    if x.op == 'ite':
        return ite(x.args[0], exc_term(an, x.args[1]), exc_term(an, x.args[2]))
    if x.op == 'exc':
        return mk('raise', an.spec_of.get(x.args[0], x.args[0]) if isinstance(x.args[0], str) else '?')
    return mk('raise', x)
