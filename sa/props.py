"""Which obligations and rules decide which property."""
import fnmatch
import rules
import table
from table import S, N, W, T, R, G, META

KEYC = ['PrivateKey', 'PrivateKeyTestnet']
ALLC = KEYC + ['MultiSig', 'MultiSigTestnet']
SECRET_KEEP = frozenset(table.WKEEP) | {'bit.format.bytes_to_wif'}


def wal(*methods, cls=ALLC):
    return [W + c + '.' + m for c in cls for m in methods]


EXPL = [S + c + '.*' for c in list(table.PROVIDERS) + ['InsightAPI']]
EXPL_GET = [S + c + '.get_*' for c in list(table.PROVIDERS) + ['InsightAPI']]
EXPL_PUSH = [S + c + '.broadcast_tx*' for c in list(table.PROVIDERS) + ['InsightAPI']]
NODE = [S + 'RPCHost.*', S + 'RPCMethod.*']
HASHES = ['bit.crypto.*']
B58 = ['bit.base58.*']
BECH = ['bit.base32.*']
VARINT = ['bit.utils.int_to_varint', 'bit.utils.script_push', 'bit.utils.read_*', 'bit.utils.int_to_unknown_bytes',
          'bit.utils.bytes_to_hex', 'bit.utils.hex_to_bytes', 'bit.utils.chunk_data', 'bit.utils.get_signatures_from_script']
TXCLS = [T + 'TxIn.*', T + 'TxOut.*', T + 'TxObj.*']
ADDR = ['bit.format.address_to_public_key_hash', 'bit.format.get_version', 'bit.format.public_key_to_*address',
        'bit.format.multisig_to_*', 'bit.format.segwit_scriptpubkey', T + 'address_to_scriptpubkey']
BUILD = [T + 'sanitize_tx_data', T + 'select_coins', T + 'estimate_tx_fee', T + 'construct_outputs', T + 'create_new_transaction']
SIGN = [T + 'sign_tx', T + 'calculate_preimages']


class Prop:
    def __init__(self, obs=(), rules=()):
        self.obs, self.rules = list(obs), list(rules)

    def keys(self):
        out = []
        for p in self.obs:
            hit = [k for k in table.OBS if k == p or k.startswith(p + '[') or ('*' in p and fnmatch.fnmatchcase(k, p))]
            if not hit:
                raise SystemExit('no obligation matches ' + p)
            out.extend(h for h in hit if h not in out)
        return out


def rule(f, *a, **k):
    def g(src):
        return f(src, *a, **k)
    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    return g


READ = ('get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent')
SECRETS = rule(rules.secrets_stay, SECRET_KEEP)
STRONG = rule(rules.strong_keys, SECRET_KEEP)
JSONR = rule(rules.json_ready, frozenset(table.WKEEP))
LISTS = rule(rules.service_lists)
READ_LISTS = rule(rules.service_lists, methods=READ)
PUSH_LISTS = rule(rules.service_lists, methods=('broadcast_tx',))
IGN = rule(rules.ignored_errors)

PROPS = {
    'C01': Prop(EXPL + [N + '*'] + wal('get_balance', 'get_unspents', 'get_transactions', '__init__') +
                wal('send', cls=KEYC) + NODE, [LISTS]),
    'C02': Prop([N + 'get_*'], [READ_LISTS, IGN]),
    'C03': Prop([N + 'broadcast_tx*'] + EXPL_PUSH + [S + 'RPCHost.broadcast_tx*', S + 'RPCMethod.*'] +
                wal('send', cls=KEYC) + [T + 'calc_txid'], [PUSH_LISTS, IGN]),
    'C04': Prop(EXPL + NODE + [R + 'BitpayRates.*', R + 'BlockchainRates.*', 'fee-cache*', 'bit.network.fees.get_fee'], [IGN]),
    'C05': Prop(EXPL + [S + 'set_service_timeout'], [rule(rules.timeouts)]),
    'C06': Prop([S + c + '.get_' + m + '*' for c in table.PROVIDERS for m in ('transactions', 'unspent')
                 if not (c == 'BitcoreAPI' and m == 'transactions')]),
    'C07': Prop(EXPL_GET + [S + 'RPCHost.get_unspent*', S + 'RPCHost.get_balance*', META + '__init__', META + 'set_type',
                            T + 'address_to_scriptpubkey', R + 'currency_to_satoshi[btc]']),
    'C08': Prop([R + 'currency_to_satoshi', R + 'satoshi_to_currency', R + 'satoshi_to_currency_cached', R + 'RatesAPI.*',
                 R + 'BitpayRates.*', R + 'BlockchainRates.*'] + [R + c + '_to_satoshi' for c in table.COINS] + ['rate-cache*'],
                [rule(rules.rate_lists)]),
    'C09': Prop(['rate-cache*', 'fee-cache*', R + 'set_rate_cache_time', 'bit.network.fees.*'], []),
    'C10': Prop([R + 'currency_to_satoshi', R + 'satoshi_to_currency', R + 'satoshi_to_currency_cached', 'rate-cache*',
                 R + 'BitpayRates.*', R + 'BlockchainRates.*', S + 'RPCHost.get_balance*', S + 'RPCHost.get_unspent*',
                 S + 'BitcoreAPI.get_unspent*', S + 'InsightAPI.get_unspent'] + [R + c + '_to_satoshi' for c in table.COINS] +
                wal('balance_as', 'get_balance') + [S + 'SmartbitAPI.get_*']),
    'C11': Prop(B58 + BECH + HASHES + ADDR + wal('address', 'segwit_address')),
    'C12': Prop(['bit.format.bytes_to_wif', 'bit.format.wif_to_bytes', 'bit.format.wif_checksum_check', W + 'wif_to_key',
                 W + 'BaseKey.*'] + wal('__init__', 'to_wif', 'from_*', cls=KEYC) + B58 +
                ['bit.utils.int_to_unknown_bytes', 'bit.utils.hex_to_bytes', 'bit.utils.bytes_to_hex', 'bit.utils.int_to_hex',
                 'bit.utils.hex_to_int', 'bit.crypto.*']),
    'C13': Prop(TXCLS + [T + 'deserialize'] + VARINT),
    'C14': Prop([T + 'calc_txid', T + 'TxObj.*', T + 'TxIn.*', T + 'TxOut.*', T + 'deserialize', 'bit.crypto.*'] + VARINT +
                wal('send', cls=KEYC)),
    'C15': Prop([T + 'calculate_preimages', T + 'sign_tx', META + '*'] + TXCLS + VARINT + HASHES + wal('scriptcode', 'segwit_scriptcode')),
    'C16': Prop(SIGN + wal('can_sign_unspent', 'scriptcode', 'segwit_scriptcode', 'create_transaction', 'sign_transaction') +
                [META + '*'] + [T + 'address_to_scriptpubkey', T + 'create_new_transaction'] + wal('sign', cls=['MultiSig', 'MultiSigTestnet'])),
    'C17': Prop([W + 'MultiSig.*', W + 'MultiSigTestnet.*', 'bit.format.multisig_to_*', T + 'sign_tx', T + 'calculate_preimages',
                 'bit.utils.get_signatures_from_script', 'bit.format.verify_sig', 'bit.utils.script_push']),
    'C18': Prop(BUILD + wal('create_transaction', 'prepare_transaction') + [R + 'currency_to_satoshi[*', 'rate-cache*']),
    'C19': Prop([T + 'sanitize_tx_data', T + 'construct_outputs', T + 'address_to_scriptpubkey', T + 'create_new_transaction',
                 T + 'TxOut.*', T + 'TxObj.*', 'bit.format.address_to_public_key_hash', 'bit.format.segwit_scriptpubkey',
                 'bit.utils.script_push', 'bit.utils.int_to_varint', 'bit.utils.chunk_data'] + BECH + B58 +
                wal('create_transaction', 'prepare_transaction', 'sign_transaction')),
    'C20': Prop([T + 'sanitize_tx_data', 'bit.format.get_version'] + BECH + B58 + wal('create_transaction', 'prepare_transaction', '__init__')),
    'C21': Prop(wal('create_transaction', 'prepare_transaction', 'sign_transaction') + wal('send', cls=KEYC) +
                [T + 'sanitize_tx_data']),
    'C22': Prop([W + 'BaseKey.*'] + wal('__init__', 'from_*', cls=KEYC) + [G + '*'] + wal('prepare_transaction'), [SECRETS, STRONG]),
    'C23': Prop(NODE + [N + 'connect_to_node']),
    'C24': Prop(wal('prepare_transaction', 'sign_transaction') + [META + '*', T + 'sanitize_tx_data', T + 'create_new_transaction',
                                                                  T + 'construct_outputs'], [JSONR]),
    'C25': Prop(wal('get_unspents', 'get_balance', 'balance_as', 'get_transactions', '__init__') + [META + '*']),
    'C26': Prop([T + 'estimate_tx_fee', T + 'select_coins', T + 'sanitize_tx_data'] + wal('create_transaction', 'prepare_transaction') +
                wal('send', cls=KEYC) + [META + '__init__', META + 'set_type'] + ['fee-cache*']),
    'C27': Prop([T + 'sanitize_tx_data', T + 'construct_outputs', 'bit.utils.chunk_data', 'bit.utils.script_push',
                 'bit.utils.hex_to_bytes'] + wal('create_transaction', 'prepare_transaction')),
    'C28': Prop(['bit.format.public_key_to_coords', 'bit.format.coords_to_public_key', 'bit.format.point_to_public_key',
                 'bit.curve.*', W + 'BaseKey.public_point', W + 'BaseKey.public_key', W + 'BaseKey.pub_to_hex',
                 W + 'BaseKey.is_compressed', 'bit.utils.int_to_unknown_bytes']),
    'C29': Prop([G + '*', 'bit.format.bytes_to_wif', 'bit.format.public_key_to_address'] + B58 + HASHES, [STRONG]),
    'C30': Prop([META + '*', T + 'sanitize_tx_data', T + 'sign_tx', T + 'create_new_transaction', T + 'TxIn.*', T + 'calculate_preimages'] +
                wal('create_transaction', 'prepare_transaction', 'sign_transaction') + wal('send', cls=KEYC)),
}
