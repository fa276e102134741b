"""Rules over the analysed program that are not reference comparisons.

A rule returns (sites, findings): what it looked at, and what is wrong there.
"""
import ast
from drive import *
from program import EXC_PARENTS, exc_name

SVC = 'bit.network.services'
RATES = 'bit.network.rates'
NET_METHODS = ('get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx')


class Finding:
    def __init__(self, where, what, sure=True):
        self.where, self.what, self.sure = where, what, sure

    def __repr__(self):
        return '{}: {}'.format(self.where, self.what)


def line_of(src, mod, pred):
    for n in ast.walk(src.tree(mod)):
        if pred(n):
            return '{}:{}'.format(src.paths[mod], n.lineno)
    return src.path(mod) or mod


def target_is(name):
    return lambda n: isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)


def load(src, *mods):
    an = Analyzer(src)
    for m in mods:
        an.load(m)
    return an


def class_value(an, cls, name):
    f, owner = an.find_in_class(cls, name)
    if f is None:
        return None
    return an.freeze(f, State({}))


def entry_name(t):
    """a service method in a list: (class, function name) or None"""
    if t.op == 'bound' and t.args[0].op == 'cls' and t.args[1].op == 'func':
        return t.args[0].args[0], t.args[1].args[0].rsplit('.', 1)[1]
    if t.op == 'func' and t.args[0].count('.') >= 4:
        return tuple(t.args[0].rsplit('.', 1))
    return None


def service_lists(src, nets=('MAIN', 'TEST'), methods=NET_METHODS):
    """every service list holds calls of its own kind and network"""
    an = load(src, SVC)
    sites, bad = [], []
    for m in methods:
        for net in nets:
            name = '{}_{}'.format(m.upper(), net)
            t = class_value(an, SVC + '.NetworkAPI', name)
            where = line_of(src, SVC, target_is(name)) + ' NetworkAPI.' + name
            if t is None or t.op not in ('list', 'tuple'):
                bad.append(Finding(where, 'the service list is not a literal sequence', False))
                continue
            if not t.args:
                bad.append(Finding(where, 'no service left to ask'))
            want = m + ('' if net == 'MAIN' else '_testnet')
            for e in t.args:
                n = entry_name(e)
                sites.append((name, n or '?'))
                if n is None:
                    bad.append(Finding(where, 'entry {} is not a service method'.format(repr(e)[:80]), False))
                elif n[1] != want:
                    bad.append(Finding(where, 'entry {}.{} where a {} call is needed'.format(n[0], n[1], want)))
    return sites, bad


def caught(t):
    out = set()
    for e in t.args:
        if e.op in ('ext', 'exc', 'cls'):
            out.add(exc_name(e.args[0]))
        else:
            return None
    return out


def ancestors(n):
    out, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(EXC_PARENTS.get(x, ('Exception',) if x.startswith('bit.') else ()))
    return out


def ignored_errors(src, cls=SVC + '.NetworkAPI', must=None, never=('ValueError', 'TypeError', 'KeyError',
                                                                   'bit.exceptions.BitcoinNodeException')):
    """transport failures are skipped over; programming and node errors are not"""
    an = load(src, SVC, RATES, 'bit.exceptions')
    must = must or ('ConnectionError', 'requests.exceptions.ConnectionError', 'requests.exceptions.Timeout',
                    'requests.exceptions.ReadTimeout', 'requests.exceptions.ConnectTimeout',
                    'requests.exceptions.SSLError', 'requests.exceptions.ProxyError', 'bit.exceptions.ExcessiveAddress')
    mod = cls.rsplit('.', 1)[0]
    t = class_value(an, cls, 'IGNORED_ERRORS')
    where = line_of(src, mod, target_is('IGNORED_ERRORS')) + ' ' + cls + '.IGNORED_ERRORS'
    if t is None or t.op not in ('tuple', 'list') or caught(t) is None:
        return [], [Finding(where, 'the set of ignored errors is not a literal tuple', False)]
    got = caught(t)
    bad = []
    for e in must:
        if not ancestors(e) & got:
            bad.append(Finding(where, 'a service failing with {} ends the whole request'.format(e)))
    for e in never:
        if ancestors(e) & got:
            bad.append(Finding(where, '{} is swallowed'.format(e)))
    return [(cls, e) for e in must + tuple(never)], bad


def rate_ignored(src):
    return ignored_errors(src, RATES + '.RatesAPI',
                          must=('requests.exceptions.ConnectionError', 'requests.exceptions.Timeout',
                                'requests.exceptions.HTTPError', 'requests.exceptions.ReadTimeout',
                                'requests.exceptions.ConnectTimeout'))


def rate_lists(src):
    """every fiat rate list asks for its own currency; the three tables list the same currencies"""
    an = load(src, RATES)
    sites, bad = [], []
    ci = an.classes[RATES + '.RatesAPI']
    names = [n for n in ci.ns if n.endswith('_RATES')]
    for name in sorted(names):
        t = class_value(an, RATES + '.RatesAPI', name)
        where = line_of(src, RATES, target_is(name)) + ' RatesAPI.' + name
        if t is None or t.op not in ('list', 'tuple'):
            bad.append(Finding(where, 'not a literal sequence', False))
            continue
        if not t.args:
            bad.append(Finding(where, 'no rate service'))
        for e in t.args:
            n = entry_name(e)
            sites.append((name, n or '?'))
            if n is None:
                bad.append(Finding(where, 'entry {} is not a rate method'.format(repr(e)[:80]), False))
            elif n[1] != name[:-6].lower() + '_to_satoshi':
                bad.append(Finding(where, 'entry {}.{} is another currency'.format(*n)))
    tabs = {}
    for name in ('SUPPORTED_CURRENCIES', 'EXCHANGE_RATES', 'CURRENCY_PRECISION'):
        v = an.modvar(RATES, name, None)
        v = an.freeze(v, State({})) if v is not None else None
        where = line_of(src, RATES, target_is(name)) + ' ' + name
        if v is None or v.op != 'dict' or not all(e.op == 'kv' and e.args[0].op == 'const' for e in v.args):
            bad.append(Finding(where, 'not a literal table', False))
            continue
        tabs[name] = ({e.args[0].args[0] for e in v.args}, where)
        sites.extend((name, k) for k in sorted(tabs[name][0]))
    every = set().union(*[k for k, _ in tabs.values()]) if tabs else set()
    for name, (keys, where) in tabs.items():
        for k in sorted(every - keys):
            bad.append(Finding(where, 'currency {} is missing here but present in another table'.format(k)))
    return sites, bad


# ---------------------------------------------------------------- all calls --
def functions(src, mods=None):
    """qualified names of all functions and methods of the repository"""
    for m in src.all_modules('bit'):
        if mods and m not in mods:
            continue
        for n in src.tree(m).body:
            if isinstance(n, ast.FunctionDef):
                yield m, m + '.' + n.name, n
            elif isinstance(n, ast.ClassDef):
                for k in n.body:
                    if isinstance(k, ast.FunctionDef):
                        yield m, '{}.{}.{}'.format(m, n.name, k.name), k


def summary(src, qual, keep, kinds=None):
    an = Analyzer(src, boundaries=frozenset(keep) | {qual}, opaque_props=frozenset())
    f = find_func(an, qual)
    while f.op in ('memo', 'decorated'):
        f = f.args[-1]
    if f not in an.funcs:
        return None, None
    fi = an.funcs[f]
    values = {}
    pos = fi.params()[0]
    if fi.kind == 'classmethod':
        values[pos[0]] = mk('cls', qual.rsplit('.', 1)[0])
    elif fi.cls and fi.kind in ('plain', 'property'):
        values[pos[0]] = sym('self', 'inst:' + qual.rsplit('.', 1)[0])
    return an, summarise(an, qual, kinds=kinds or {}, values=values)


def try_summary(src, qual, keep, kinds=None):
    from obl import timed, Result
    try:
        r = timed(lambda: summary(src, qual, keep, kinds), 60)
    except AnchorMissing:
        return None
    if isinstance(r, Result):
        return None
    return r


def explorers(src):
    """classes with the service interface that talk HTTP themselves"""
    out = []
    for n in src.tree(SVC).body:
        if isinstance(n, ast.ClassDef) and n.name not in ('NetworkAPI', 'RPCHost', 'RPCMethod'):
            out.append(n.name)
    return out


def timeouts(src):
    """every request of an explorer client carries the timeout in force when it is made"""
    sites, bad = [], []
    names = set(explorers(src))
    for m, q, node in functions(src, (SVC,)):
        if q.split('.')[-2] not in names:
            continue
        r = try_summary(src, q, ('bit.network.rates.currency_to_satoshi', 'bit.transaction.address_to_scriptpubkey'))
        if r is None or r[0] is None:
            bad.append(Finding(q, 'not analysed', False))
            continue
        for e in r[1].events:
            if e.callee.op != 'ext' or not e.callee.args[0].startswith('requests.'):
                continue
            if e.callee.args[0].rsplit('.', 1)[1] not in ('get', 'post', 'put', 'request', 'head', 'delete', 'patch'):
                continue
            where = '{}:{} {}'.format(src.paths[SVC], e.line, e.where)
            sites.append(where)
            t = e.kwargs.get('timeout')
            if t is None:
                bad.append(Finding(where, 'request without a timeout'))
            elif t.op == 'const' or not [x for x in walk(t) if x.op in ('sym', 'glob', 'gvar')] and t.op == 'const':
                bad.append(Finding(where, 'the timeout is fixed at {} instead of the configured value'.format(t)))
    return sites, bad


# ------------------------------------------------------------------ secrets --
SECRET_ATTR = ('secret', '_pk')
SECRET_CALL = ('bit.format.bytes_to_wif', 'bit.format.wif_to_bytes')
SECRET_METH = ('to_hex', 'to_der', 'to_pem', 'to_int', 'to_wif', 'to_bytes')
CLEAN_METH = ('sign', 'sign_recoverable', 'verify', 'format')


def tainted(t, memo):
    """does the value reveal key material?  Public keys and signatures do not."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return any(tainted(x, memo) for x in t)
        return False
    if t in memo:
        return memo[t]
    memo[t] = False
    r = False
    if t.op == 'attr' and t.args[1] in ('public_key', 'address', 'segwit_address', 'public_point'):
        r = False
    elif t.op == 'attr' and t.args[1] in SECRET_ATTR:
        r = True
    elif t.op == 'sym' and t.args[0] in ('wif', 'private_key', 'secret'):
        r = True
    elif t.op == 'call':
        f = t.args[0]
        if f.op == 'attr' and f.args[1] in CLEAN_METH:
            r = False
        elif f.op == 'attr' and f.args[1] in SECRET_METH and kind_is_key(f.args[0]):
            r = True
        elif f.op in ('func', 'ext') and f.args[0] in SECRET_CALL:
            r = True
        elif f.op == 'func' and 'public_key' in f.args[0]:
            r = any(tainted(x, memo) for x in t.args[1])
        else:
            r = any(tainted(x, memo) for x in t.args)
    else:
        r = any(tainted(x, memo) for x in t.args)
    memo[t] = r
    return r


def kind_is_key(t):
    return any(x.op == 'attr' and x.args[1] == '_pk' for x in walk(t))


SINKS = ('logging.', 'warnings.', 'requests.', 'print', 'open', 'sys.stdout.', 'sys.stderr.', 'click.', 'json.dump',
         'pickle.', 'subprocess.', 'os.system', 'os.environ')


def is_sink(f):
    if f.op == 'ext':
        return any(f.args[0] == p or f.args[0].startswith(p) for p in SINKS)
    if f.op == 'func':
        return f.args[0].startswith((SVC, RATES, 'bit.network.fees'))
    if f.op == 'attr':
        return any(x.op == 'ext' and x.args[0].startswith(('logging.', 'open', 'sys.std', 'requests.')) for x in walk(f.args[0]))
    return False


def secrets_stay(src, keep):
    """no key material reaches a log record, the terminal, a request, a file or a textual form"""
    sites, bad = [], []
    for m, q, node in functions(src):
        if m in ('bit.keygen', 'bit.cli'):
            continue                       # printing the key found is their purpose
        if q.startswith(SVC) or q.startswith(RATES):
            continue                       # no key is in scope there
        r = try_summary(src, q, keep)
        if r is None or r[0] is None:
            bad.append(Finding(q, 'not analysed', False))
            continue
        an, s = r
        memo = {}
        for e in s.events:
            f = e.callee
            if not is_sink(f):
                continue
            where = '{}:{} {}'.format(src.paths.get(m, m), e.line, e.where)
            sites.append(where + ' -> ' + repr(f)[:80])
            if tainted(tuple(e.args), memo) or tainted(tuple(e.kwargs.values()), memo):
                bad.append(Finding(where, 'key material reaches {}'.format(repr(f)[:80])))
        last = q.rsplit('.', 1)[1]
        if last in ('__repr__', '__str__', '__format__', 'prepare_transaction', 'address', 'segwit_address', 'to_dict',
                    'pub_to_hex', 'public_key', 'scriptcode', 'segwit_scriptcode', '__getstate__', '__reduce__'):
            sites.append(q)
            if s.outcome is not None and s.value is not None and tainted(an.freeze(s.value, s.state), memo):
                bad.append(Finding(q, 'key material is part of the result'))
    return sites, bad


WEAK = ('random.', 'time.', 'uuid.', 'os.getpid', 'hash', 'id', 'datetime.')


def strong_keys(src, keep):
    """no private key is made from a guessable value"""
    sites, bad = [], []
    for m, q, node in functions(src, ('bit.wallet', 'bit.keygen', 'bit.format', 'bit.crypto')):
        r = try_summary(src, q, keep)
        if r is None or r[0] is None:
            bad.append(Finding(q, 'not analysed', False))
            continue
        for e in r[1].events:
            f = e.callee
            root = f
            while root.op == 'attr':
                root = root.args[0]
            if root.op != 'ext' or not root.args[0].startswith('coincurve.') or 'PrivateKey' not in root.args[0]:
                continue
            where = '{}:{} {}'.format(src.paths.get(m, m), e.line, e.where)
            sites.append(where)
            for t in tuple(e.args) + tuple(e.kwargs.values()):
                for x in walk(t):
                    if x.op == 'ext' and any(x.args[0] == w or w.endswith('.') and x.args[0].startswith(w) for w in WEAK):
                        bad.append(Finding(where, 'a private key is derived from {}'.format(x.args[0])))
                    if x.op == 'const' and isinstance(x.args[0], (bytes, int)) and not isinstance(x.args[0], bool) and t is x:
                        bad.append(Finding(where, 'a private key is a constant'))
    return sites, bad


def json_ready(src, keep):
    """what prepare_transaction hands to the JSON encoder can be encoded"""
    sites, bad = [], []
    keep = set(keep) | {'bit.transaction.sanitize_tx_data'}
    r = try_summary(src, 'bit.transaction.sanitize_tx_data', keep - {'bit.utils.chunk_data'}, {'message': 'str', 'outputs': 'list'})
    raw = False
    if r and r[0]:
        v = r[0].freeze(r[1].value, r[1].state)
        raw = any(x.op == 'tuple' and len(x.args) == 2 and kind(x.args[0]) == 'bytes' and x.args[1] is C(0) for x in walk(v))
    for c in ('PrivateKey', 'PrivateKeyTestnet', 'MultiSig', 'MultiSigTestnet'):
        q = 'bit.wallet.{}.prepare_transaction'.format(c)
        r = try_summary(src, q, keep)
        if not r or not r[0]:
            bad.append(Finding(q, 'not analysed', False))
            continue
        for e in r[1].events:
            if e.callee.op == 'ext' and e.callee.args[0] == 'json.dumps':
                sites.append(q)
                if raw and any(x.op == 'call' and x.args[0].op == 'func' and
                               x.args[0].args[0] == 'bit.transaction.sanitize_tx_data' for t in e.args for x in walk(t)):
                    bad.append(Finding(q, 'a message becomes a bytes output, which the JSON encoder rejects with TypeError'))
    return sites, bad
