"""The table of obligations."""
from obl import Ob

U = 'bit.utils.'
LOW = ['bit.utils.int_to_unknown_bytes', 'bit.utils.bytes_to_hex', 'bit.utils.hex_to_bytes', 'bit.utils.int_to_varint',
       'bit.utils.script_push', 'bit.utils.read_var_int', 'bit.utils.read_bytes', 'bit.crypto.double_sha256_checksum',
       'bit.crypto.ripemd160_sha256', 'bit.crypto.sha256', 'bit.crypto.double_sha256', 'bit.base58.b58encode', 'bit.base58.b58decode',
       'bit.base58.b58encode_check', 'bit.base58.b58decode_check', 'bit.base32.bech32_polymod',
       'bit.base32.bech32_hrp_expand', 'bit.base32.bech32_verify_checksum', 'bit.base32.bech32_create_checksum',
       'bit.base32.bech32_encode', 'bit.base32.bech32_decode', 'bit.base32.convertbits', 'bit.base32.decode',
       'bit.curve.x_to_y', 'bit.format.get_version', 'bit.format.multisig_to_redeemscript',
       'bit.format.coords_to_public_key']
OBS = {}


def ob(code, spec, bounds=(), **kw):
    o = Ob(code, spec, bounds=[b for b in bounds if b != code], **kw)
    OBS[o.id] = o
    return o


def low(mod, specmod, table):
    for name, kinds in table.items():
        s = name
        if isinstance(kinds, tuple):
            s, kinds = kinds
        ob(mod + '.' + name, specmod + '.' + s, LOW, kinds=kinds)


by, st, it = 'bytes', 'str', 'int'
low('bit.utils', 'spec.codec', {
    'chunk_data': {'data': by, 'size': it}, 'int_to_unknown_bytes': {'num': it}, 'bytes_to_hex': {'bytestr': by},
    'hex_to_bytes': {'hexed': st}, 'int_to_hex': {'num': it}, 'hex_to_int': {'hexed': st},
    'flip_hex_byte_order': {'string': st}, 'int_to_varint': {'val': it}, 'script_push': {'val': it},
    'read_bytes': {'stream': by, 'count': it}, 'read_var_string': {'stream': by}, 'read_var_int': {'stream': by},
    'read_as_int': {'stream': by, 'count': it}, 'read_segwit_string': {'stream': by},
    'get_signatures_from_script': {'script': by}})
low('bit.crypto', 'spec.codec', {n: {'bytestr': by} for n in
                                 ('sha256', 'double_sha256', 'double_sha256_checksum', 'ripemd160_sha256')})
low('bit.base58', 'spec.codec', {'b58encode': {'bytestr': by}, 'b58encode_check': {'bytestr': by},
                                 'b58decode': {'string': st}, 'b58decode_check': {'string': st}})
low('bit.curve', 'spec.codec', {'parity': {'num': it}, 'x_to_y': {'x': it, 'y_parity': it}})
low('bit.base32', 'spec.codec2', {
    'bech32_polymod': {'values': 'list:int'}, 'bech32_hrp_expand': {'hrp': st},
    'bech32_verify_checksum': {'hrp': st, 'data': 'list:int'}, 'bech32_create_checksum': {'hrp': st, 'data': 'list:int'},
    'bech32_encode': {'hrp': st, 'data': 'list:int'}, 'bech32_decode': {'bech': st}, 'convertbits': {},
    'decode': ('segwit_decode', {'addr': st}), 'encode': ('segwit_encode', {'hrp': st, 'witver': it})})
low('bit.format', 'spec.codec2', {
    'verify_sig': {}, 'get_version': {'address': st}, 'address_to_public_key_hash': {'address': st},
    'bytes_to_wif': {'private_key': by}, 'wif_to_bytes': {'wif': st}, 'wif_checksum_check': {'wif': st},
    'public_key_to_address': {'public_key': by}, 'public_key_to_segwit_address': {'public_key': by},
    'multisig_to_redeemscript': {'public_keys': 'list:bytes', 'm': it}, 'multisig_to_address': {'public_keys': 'list:bytes', 'm': it},
    'multisig_to_segwit_address': {'public_keys': 'list:bytes', 'm': it},
    'segwit_scriptpubkey': {'witver': it, 'witprog': 'list:int'}, 'public_key_to_coords': {'public_key': by},
    'coords_to_public_key': {'x': it, 'y': it}, 'point_to_public_key': {}})

# -------------------------------------------------------------- transaction --
T = 'bit.transaction.'
MID = LOW + ['bit.utils.read_var_string', 'bit.utils.read_segwit_string', 'bit.utils.chunk_data',
             'bit.utils.get_signatures_from_script', 'bit.format.verify_sig', 'bit.format.segwit_scriptpubkey',
             'bit.format.address_to_public_key_hash', T + 'address_to_scriptpubkey', T + 'select_coins',
             T + 'estimate_tx_fee', T + 'deserialize', T + 'calculate_preimages', T + 'sign_tx', T + 'construct_outputs',
             'bit.network.rates.currency_to_satoshi_cached']
TXIN, TXOUT, TXOBJ = 'inst:bit.transaction.TxIn', 'inst:bit.transaction.TxOut', 'inst:bit.transaction.TxObj'
UNSP = 'inst:bit.network.meta.Unspent'


KEEP = ['bit.utils.int_to_varint', 'bit.utils.script_push', 'bit.utils.read_var_int', 'bit.utils.read_var_string',
        'bit.utils.read_segwit_string', 'bit.utils.get_signatures_from_script', 'bit.base58.b58encode', 'bit.base58.b58decode',
        'bit.base58.b58decode_check', 'bit.base58.b58encode_check', 'bit.base32.decode', 'bit.base32.bech32_encode',
        'bit.base32.bech32_decode', 'bit.base32.convertbits', 'bit.base32.bech32_create_checksum', 'bit.utils.chunk_data',
        'bit.curve.x_to_y', 'bit.network.rates.currency_to_satoshi_cached', T + 'TxObj', T + 'select_coins', T + 'sign_tx']


def tx(name, spec=None, kinds=None, drop=(), add=(), **kw):
    ob(T + name, 'spec.tx.' + (spec or name), [b for b in MID if b not in drop] + list(add), kinds=kinds or {}, keep=KEEP, **kw)


tx('TxIn.__init__', 'txin_init', {'script_sig': by, 'txid': by, 'txindex': by})
tx('TxIn.__bytes__', 'txin_bytes')
tx('TxIn.is_segwit', 'txin_is_segwit')
tx('TxIn.__eq__', 'txin_eq', {'other': TXIN})
tx('TxOut.__init__', 'txout_init', {'script_pubkey': by})
tx('TxOut.__bytes__', 'txout_bytes')
tx('TxOut.__eq__', 'txout_eq', {'other': TXOUT})
tx('TxObj.__init__', 'txobj_init', {'TxIn': 'list:' + TXIN, 'TxOut': 'list:' + TXOUT})
tx('TxObj.__bytes__', 'txobj_bytes')
tx('TxObj.__eq__', 'txobj_eq', {'other': TXOBJ})
tx('TxObj.legacy_repr', 'txobj_legacy')
tx('TxObj.to_hex', 'txobj_hex')
tx('TxObj.is_segwit', 'txobj_is_segwit')
tx('calc_txid', kinds={'tx_hex': st})
tx('deserialize', add=[T + 'TxObj'])
tx('estimate_tx_fee', kinds={'in_size': 'num', 'n_in': it, 'out_size': it, 'n_out': it, 'satoshis': it})
tx('select_coins', kinds={'target': it, 'fee': it, 'output_size': 'list:int', 'min_change': it, 'unspents': 'list:' + UNSP})
tx('sanitize_tx_data', kinds={'unspents': 'list:' + UNSP, 'outputs': 'list', 'fee': it, 'leftover': st, 'message': by})
tx('address_to_scriptpubkey', kinds={'address': st})
tx('construct_outputs', kinds={'outputs': 'list'})


def sign(name, kinds=None, add=(), drop=(), **kw):
    ob(T + name, 'spec.sign.' + name, [b for b in MID if b not in drop] + list(add), kinds=kinds or {}, keep=KEEP, **kw)


sign('calculate_preimages', {'tx_obj': TXOBJ, 'inputs_parameters': 'list'})
for _c in ('PrivateKey', 'PrivateKeyTestnet', 'MultiSig', 'MultiSigTestnet'):
    sign('sign_tx', {'tx': TXOBJ, 'unspents': 'list:' + UNSP}, drop=[T + 'calculate_preimages'],
         key=T + 'sign_tx[' + _c + ']', fix={('private_key', 'instance'): _c})
sign('create_new_transaction', {'unspents': 'list:' + UNSP, 'outputs': 'list'}, add=[T + 'TxObj'])


# ------------------------------------------------------------------- wallet --
W = 'bit.wallet.'
N = 'bit.network.services.NetworkAPI.'
APIS = [N + m + t for m in ('get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx',
                            'get_tx_amount') for t in ('', '_testnet')]
FMT = ['bit.format.' + n for n in (
    'bytes_to_wif', 'wif_to_bytes', 'public_key_to_address', 'public_key_to_segwit_address', 'multisig_to_address',
    'multisig_to_segwit_address', 'public_key_to_coords', 'multisig_to_redeemscript')]
HIGH = [b for b in MID if b != T + 'calculate_preimages'] + FMT + APIS + [
    'bit.network.fees.get_fee_cached', 'bit.network.rates.satoshi_to_currency_cached', T + 'sanitize_tx_data',
    T + 'create_new_transaction', T + 'calc_txid']
WKEEP = sorted(set(KEEP) | set(APIS) | set(FMT) | {
    'bit.network.fees.get_fee_cached', 'bit.network.rates.satoshi_to_currency_cached', T + 'sanitize_tx_data',
    T + 'create_new_transaction', T + 'calc_txid', T + 'address_to_scriptpubkey', T + 'deserialize'})
IMPURE = APIS + ['bit.network.fees.get_fee_cached', 'bit.network.rates.satoshi_to_currency_cached']
PROPS = ['address', 'segwit_address', 'scriptcode', 'segwit_scriptcode', 'public_point']
META = 'bit.network.meta.Unspent.'


def wal(code, spec, kinds=None, **kw):
    kw.setdefault('props', PROPS)
    ob(code, spec, HIGH, kinds=kinds or {}, keep=WKEEP, impure=IMPURE, **kw)


wal(META + '__init__', 'spec.wallet.unspent_init', {'type': st})
wal(META + 'set_type', 'spec.wallet.unspent_set_type', {'type': st})
wal(META + 'to_dict', 'spec.wallet.unspent_to_dict')
wal(META + 'from_dict', 'spec.wallet.unspent_from_dict', {'d': 'dict'})
wal(META + '__eq__', 'spec.wallet.unspent_eq', {'other': UNSP})
wal(META + 'opt_in_for_RBF', 'spec.wallet.unspent_rbf')
for _m in ('__init__', 'public_key', 'sign', 'verify', 'pub_to_hex', 'to_hex', 'to_bytes', 'to_der', 'to_pem', 'to_int',
           'is_compressed', '__eq__'):
    wal(W + 'BaseKey.' + _m, 'spec.wallet.basekey_' + _m.strip('_'), {'other': 'inst:bit.wallet.BaseKey'})
wal(W + 'BaseKey.public_point', 'spec.wallet.basekey_public_point', memo=['_public_point'], props=[])
wal(W + 'wif_to_key', 'spec.wallet.wif_to_key', {'wif': st})

for _net, _sfx in (('main', ''), ('test', 'Testnet')):
    _k, _ms = W + 'PrivateKey' + _sfx, W + 'MultiSig' + _sfx
    _ki, _mi = ({'version': _net, 'instance': 'PrivateKey' + _sfx}, {'version': _net, 'instance': 'MultiSig' + _sfx})
    wal(_k + '.__init__', 'spec.wallet.key_init_' + _net)
    wal(_ms + '.__init__', 'spec.wallet2.multisig_init_' + _net,
        {'public_keys': 'list', 'm': it, 'private_key': 'inst:' + _k})
    for _kind in ('set',):
        wal(_ms + '.__init__', 'spec.wallet2.multisig_init_' + _net, {'public_keys': _kind, 'm': it, 'private_key': 'inst:' + _k},
            key=_ms + '.__init__[' + _kind + ']')
    for _c, _i, _p, _mod in ((_k, _ki, 'key', 'spec.wallet.'), (_ms, _mi, 'multisig', 'spec.wallet2.')):
        wal(_c + '.address', _mod + _p + '_address', inv=_i, memo=['_address'], props=[])
        wal(_c + '.segwit_address', _mod + _p + '_segwit_address', inv=_i, memo=['_segwit_address'], props=[])
        wal(_c + '.scriptcode', _mod + _p + '_scriptcode', inv=_i, props=['address', 'segwit_address'])
        wal(_c + '.segwit_scriptcode', _mod + _p + '_segwit_scriptcode', inv=_i, props=['address', 'segwit_address'])
        wal(_c + '.can_sign_unspent', 'spec.wallet.can_sign_unspent', {'unspent': UNSP}, inv=_i)
        wal(_c + '.balance_as', 'spec.wallet.balance_as', inv=_i)
        wal(_c + '.get_balance', 'spec.wallet.get_balance', inv=_i)
        wal(_c + '.get_unspents', _mod + _p + '_get_unspents_' + _net, inv=_i)
        wal(_c + '.get_transactions', 'spec.wallet.get_transactions_' + _net, inv=_i)
        wal(_c + '.create_transaction', 'spec.wallet2.create_transaction', {'unspents': 'list:' + UNSP}, inv=_i)
        wal(_c + '.prepare_transaction', 'spec.wallet2.prepare_' + _net, {'unspents': 'list:' + UNSP})
        wal(_c + '.sign_transaction', 'spec.wallet2.sign_transaction', {'unspents': 'list:' + UNSP}, inv=_i)
    wal(_k + '.to_wif', 'spec.wallet.key_to_wif', inv=_ki)
    wal(_ms + '.sign', 'spec.wallet2.multisig_sign', inv=_mi)
    wal(_k + '.send', 'spec.wallet2.send_' + _net, inv=_ki, events=[N + '*'])
    for _f in ('hex', 'bytes', 'der', 'pem', 'int'):
        wal(_k + '.from_' + _f, 'spec.wallet2.from_{}_{}'.format(_f, _net))


# ----------------------------------------------------------------- services --
S = 'bit.network.services.'
SVC = ['bit.network.rates.currency_to_satoshi', T + 'address_to_scriptpubkey', 'bit.utils.bytes_to_hex']
PROVIDERS = {
    'BlockchairAPI': 'spec.services.blockchair_', 'BlockstreamAPI': 'spec.services.blockstream_',
    'BitcoreAPI': 'spec.services2.bitcore_', 'BlockchainAPI': 'spec.services2.blockchain_',
    'SmartbitAPI': 'spec.services2.smartbit_',
}
METHODS = {
    'BlockchairAPI': ['get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx'],
    'BlockstreamAPI': ['get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx'],
    'BitcoreAPI': ['get_balance', 'get_unspent', 'broadcast_tx'],
    'BlockchainAPI': ['get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx'],
    'SmartbitAPI': ['get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx'],
}
for _c, _ms in METHODS.items():
    for _m in _ms:
        for _t in ('', '_testnet'):
            if _c == 'BlockchainAPI' and _t:
                continue
            ob(S + _c + '.' + _m + _t, PROVIDERS[_c] + _m + _t, SVC, kinds={'address': st, 'txid': st, 'tx_hex': st},
               keep=SVC)
for _m in ('get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx'):
    ob(S + 'InsightAPI.' + _m, 'spec.services2.insight_' + _m, SVC, kinds={'address': st, 'txid': st, 'tx_hex': st}, keep=SVC)
ob(S + 'set_service_timeout', 'spec.services.set_service_timeout')
for _m in ('get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx'):
    for _t in ('', '_testnet'):
        ob(N + _m + _t, 'spec.netapi.' + _m + _t)
        ob(S + 'RPCHost.' + _m + _t, 'spec.netapi.rpchost_' + _m, SVC, keep=SVC)
ob(N + 'connect_to_node', 'spec.netapi.connect_to_node', [S + 'RPCHost'])
for _c in ('RPCHost', 'RPCMethod'):
    ob(S + _c + '.__init__', 'spec.netapi.{}_init'.format(_c.lower()))
    ob(S + _c + '.__getattr__', 'spec.netapi.{}_getattr'.format(_c.lower()))
ob(S + 'RPCMethod.__call__', 'spec.netapi.rpcmethod_call')


# -------------------------------------------------------------------- rates --
R = 'bit.network.rates.'
FIAT = ['usd', 'eur', 'gbp', 'jpy', 'cny', 'hkd', 'cad', 'aud', 'nzd', 'rub', 'brl', 'chf', 'sek', 'dkk', 'isk', 'pln',
        'krw', 'clp', 'sgd', 'thb', 'twd']
COINS = ['satoshi', 'ubtc', 'mbtc', 'btc']
PREC = dict({c: 2 for c in FIAT}, jpy=0, krw=0, clp=0, satoshi=0, ubtc=2, mbtc=5, btc=8)
UNIT = {'satoshi': 1, 'ubtc': 100, 'mbtc': 100000, 'btc': 100000000}
RAPI = [R + 'RatesAPI.{}_to_satoshi'.format(c) for c in FIAT]
for _c in FIAT:
    _n = _c + '_to_satoshi'
    ob(R + 'BitpayRates.' + _n, 'spec.rates.bitpay', const={'code': _c})
    ob(R + 'BlockchainRates.' + _n, 'spec.rates.blockchain', const={'code': _c.upper()})
    ob(R + 'RatesAPI.' + _n, 'spec.rates.ratesapi', [R + k + _n for k in ('BitpayRates.', 'BlockchainRates.')],
       impure=[R + k + _n for k in ('BitpayRates.', 'BlockchainRates.')],
       keep=[R + k + _n for k in ('BitpayRates.', 'BlockchainRates.')], const={'name': _c.upper() + '_RATES'})
for _c in COINS:
    ob(R + _c + '_to_satoshi', 'spec.rates.unit', const={'value': UNIT[_c]})
for _c in FIAT + COINS:
    _k = dict(bounds=RAPI + [R + 'currency_to_satoshi_cached'], impure=RAPI + [R + 'currency_to_satoshi_cached'], keep=RAPI)
    for _f in ('currency_to_satoshi', 'satoshi_to_currency'):
        ob(R + _f, 'spec.rates.{}_{}'.format(_f, 'fiat' if _c in FIAT else 'coin'), key=R + _f + '[' + _c + ']',
           const={'currency': _c, 'name': _c + '_to_satoshi', 'value': UNIT.get(_c), 'digits': PREC[_c]}, kinds={'num': it},
           bounds=RAPI, impure=RAPI)
    _b = [R + 'currency_to_satoshi_cached']
    ob(R + 'satoshi_to_currency_cached', 'spec.rates.satoshi_to_currency_cached', key=R + 'satoshi_to_currency_cached[' + _c + ']',
       const={'currency': _c, 'digits': PREC[_c]}, kinds={'num': it}, bounds=_b, impure=_b)
ob(R + 'set_rate_cache_time', 'spec.rates.set_rate_cache_time')
ob('bit.network.fees.set_fee_cache_time', 'spec.rates.set_fee_cache_time')
ob('bit.network.fees.get_fee', 'spec.rates.get_fee')


def _hist(kind, names, i, **kw):
    c = dict(zip('abc', names))
    OBS['{}-cache{}'.format(kind, list(names))] = Ob('spec.history.{}_code'.format(kind), 'spec.history.{}_model'.format(kind), const=c,
                                            key='{}-cache{}'.format(kind, list(names)), **kw)


for _i, _c in enumerate(FIAT + COINS):
    _d = (COINS + FIAT)[_i]
    for _h in ((_c, _c, _c), (_c, _d, _c)):
        _hist('rate', _h, _i, bounds=RAPI, impure=RAPI)
for _i in range(8):
    _hist('fee', (bool(_i & 4), bool(_i & 2), bool(_i & 1)), _i)
OBS['fee-cache-default'] = Ob('spec.history.fee_default_code', 'spec.history.fee_default_model', key='fee-cache-default')

# ------------------------------------------------------------------- keygen --
G = 'bit.keygen.'
KG = ['bit.format.bytes_to_wif', 'bit.format.public_key_to_address', 'bit.base58.b58encode_check', 'bit.crypto.ripemd160_sha256']
ob(G + 'generate_key_address_pair', 'spec.keygen.pair', KG, keep=['bit.base58.b58encode_check', 'bit.format.bytes_to_wif'])
ob(G + 'generate_key_address_pairs', 'spec.keygen.search', KG, keep=['bit.base58.b58encode_check', 'bit.format.bytes_to_wif'],
   kinds={'prefix': st}, events=['.put_nowait', '.put', '.set'])
ob(G + 'generate_matching_address', 'spec.keygen.matching', KG + [G + 'generate_key_address_pair', G + 'generate_key_address_pairs'],
   keep=['bit.base58.b58encode_check', 'bit.format.bytes_to_wif', G + 'generate_key_address_pairs'],
   kinds={'prefix': st}, events=['print', 'multiprocessing.Process', '.start'])
