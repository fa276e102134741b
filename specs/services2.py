"""Reference semantics: remaining block explorer clients."""
import requests

import bit.network.services as services
from bit.exceptions import ExcessiveAddress
from bit.network.meta import Unspent
from bit.network.rates import currency_to_satoshi as bit_to_satoshi


def _ok(r):
    if r.status_code != 200:
        raise ConnectionError


def _pushed(r):
    return r.status_code == 200


# ----------------------------------------------------------------- Bitcore --
def _bitcore_balance(url, address):
    r = requests.get(url.format(address), timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    return r.json()['balance']


def bitcore_get_balance(cls, address):
    return _bitcore_balance('https://api.bitcore.io/api/BTC/mainnet/address/{}/balance', address)


def bitcore_get_balance_testnet(cls, address):
    return _bitcore_balance('https://api.bitcore.io/api/BTC/testnet/address/{}/balance', address)


def _bitcore_unspent(url, address):
    res = []
    r = requests.get(url.format(address), timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    page = r.json()
    while len(page) > 0:
        res.extend(
            Unspent(bit_to_satoshi(tx['value'], 'satoshi'), tx['confirmations'], tx['script'], tx['mintTxid'],
                    tx['mintIndex'])
            for tx in page)
        r = requests.get(url.format(address) + '&since={}'.format(page[-1]['_id']), timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()
    return res


def bitcore_get_unspent(cls, address):
    return _bitcore_unspent('https://api.bitcore.io/api/BTC/mainnet/address/{}/?unspent=true&limit=100', address)


def bitcore_get_unspent_testnet(cls, address):
    return _bitcore_unspent('https://api.bitcore.io/api/BTC/testnet/address/{}/?unspent=true&limit=100', address)


def bitcore_broadcast_tx(cls, tx_hex):
    return _pushed(requests.post('https://api.bitcore.io/api/BTC/mainnet/tx/send', data={'rawTx': tx_hex},
                                 timeout=services.DEFAULT_TIMEOUT))


def bitcore_broadcast_tx_testnet(cls, tx_hex):
    return _pushed(requests.post('https://api.bitcore.io/api/BTC/testnet/tx/send',
                                 json={'rawTx': tx_hex, 'network': 'testnet', 'coin': 'BCH'},
                                 timeout=services.DEFAULT_TIMEOUT))


# -------------------------------------------------------------- Blockchain --
def blockchain_get_balance(cls, address):
    r = requests.get('https://blockchain.info/address/{}?format=json&limit=0'.format(address),
                     timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    return r.json()['final_balance']


def blockchain_get_transactions(cls, address):
    url = 'https://blockchain.info/address/{}?format=json'.format(address)
    res = []
    offset = 0
    payload = {'offset': str(offset)}
    r = requests.get(url, params=payload, timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    page = r.json()
    left = page['n_tx']
    while left > 0:
        res.extend(tx['hash'] for tx in page['txs'])
        left -= 50
        offset += 50
        payload['offset'] = str(offset)
        r = requests.get(url, params=payload, timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()
    return res


def blockchain_get_transaction_by_id(cls, txid):
    r = requests.get('https://blockchain.info/rawtx/' + txid + '?limit=0&format=hex', timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 500 and r.text == 'Transaction not found':
        return None
    _ok(r)
    return r.text


def blockchain_get_unspent(cls, address):
    r = requests.get('https://blockchain.info/unspent',
                     params={'active': address, 'offset': str(0), 'limit': str(1000)},
                     timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 500:
        return []
    _ok(r)
    res = [Unspent(tx['value'], tx['confirmations'], tx['script'], tx['tx_hash_big_endian'], tx['tx_output_n'])
           for tx in r.json()['unspent_outputs']]
    if len(res) == 1000:
        raise ExcessiveAddress
    return res[::-1]


def blockchain_broadcast_tx(cls, tx_hex):
    return _pushed(requests.post('https://blockchain.info/pushtx', data={'tx': tx_hex},
                                 timeout=services.DEFAULT_TIMEOUT))


# ---------------------------------------------------------------- Smartbit --
def _smartbit_balance(url, address):
    r = requests.get(url.format(address), params={'limit': '1'}, timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    return r.json()['address']['total']['balance_int']


def smartbit_get_balance(cls, address):
    return _smartbit_balance('https://api.smartbit.com.au/v1/blockchain/address/{}', address)


def smartbit_get_balance_testnet(cls, address):
    return _smartbit_balance('https://testnet-api.smartbit.com.au/v1/blockchain/address/{}', address)


def smartbit_get_transactions(cls, address):
    r = requests.get('https://api.smartbit.com.au/v1/blockchain/address/{}'.format(address),
                     params={'limit': str(1000)}, timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    page = r.json()['address']
    res = []
    more = None
    if 'transactions' in page:
        res.extend(t['txid'] for t in page['transactions'])
        more = page['transaction_paging']['next_link']
    while more:
        r = requests.get(more, timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()['address']
        res.extend(t['txid'] for t in page['transactions'])
        more = page['transaction_paging']['next_link']
    return res


def smartbit_get_transactions_testnet(cls, address):
    payload = {'limit': str(1000)}
    r = requests.get('https://testnet-api.smartbit.com.au/v1/blockchain/address/{}'.format(address), params=payload,
                     timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    page = r.json()['address']
    res = []
    more = None
    if 'transactions' in page:
        res.extend(t['txid'] for t in page['transactions'])
        more = page['transaction_paging']['next_link']
    while more:
        r = requests.get(more, params=payload, timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()['address']
        res.extend(t['txid'] for t in page['transactions'])
        more = page['transaction_paging']['next_link']
    return res


def _smartbit_tx(url, txid):
    r = requests.get(url.format(txid), timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 400:
        return None
    _ok(r)
    return r.json()['hex'][0]['hex']


def smartbit_get_transaction_by_id(cls, txid):
    return _smartbit_tx('https://api.smartbit.com.au/v1/blockchain/tx/{}/hex?limit=1000', txid)


def smartbit_get_transaction_by_id_testnet(cls, txid):
    return _smartbit_tx('https://testnet-api.smartbit.com.au/v1/blockchain/tx/{}/hex?limit=1000', txid)


def _smartbit_utxo(tx):
    return Unspent(bit_to_satoshi(tx['value'], 'btc'), tx['confirmations'], tx['script_pub_key']['hex'], tx['txid'],
                   tx['n'])


def _smartbit_unspent(url, address):
    payload = {'limit': str(1000)}
    r = requests.get(url.format(address), params=payload, timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    page = r.json()
    res = []
    more = None
    if 'unspent' in page:
        res.extend(_smartbit_utxo(tx) for tx in page['unspent'])
        more = page['paging']['next_link']
    while more:
        r = requests.get(more, params=payload, timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()
        res.extend(_smartbit_utxo(tx) for tx in page['unspent'])
        more = page['paging']['next_link']
    return res


def smartbit_get_unspent(cls, address):
    return _smartbit_unspent('https://api.smartbit.com.au/v1/blockchain/address/{}/unspent', address)


def smartbit_get_unspent_testnet(cls, address):
    return _smartbit_unspent('https://testnet-api.smartbit.com.au/v1/blockchain/address/{}/unspent', address)


def smartbit_broadcast_tx(cls, tx_hex):
    return _pushed(requests.post('https://api.smartbit.com.au/v1/blockchain/pushtx', json={'hex': tx_hex},
                                 timeout=services.DEFAULT_TIMEOUT))


def smartbit_broadcast_tx_testnet(cls, tx_hex):
    return _pushed(requests.post('https://testnet-api.smartbit.com.au/v1/blockchain/pushtx', json={'hex': tx_hex},
                                 timeout=services.DEFAULT_TIMEOUT))


# ----------------------------------------------------------------- Insight --
def insight_get_balance(cls, address):
    r = requests.get(cls.MAIN_BALANCE_API.format(address), timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    return r.json()


def insight_get_transactions(cls, address):
    r = requests.get(cls.MAIN_ADDRESS_API + address, timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    return r.json()['transactions']


def insight_get_transaction_by_id(cls, txid):
    r = requests.get(cls.MAIN_TX_API + txid, timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 404:
        return None
    _ok(r)
    return r.json()['rawtx']


def insight_get_unspent(cls, address):
    r = requests.get(cls.MAIN_UNSPENT_API.format(address), timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    return [Unspent(bit_to_satoshi(tx['amount'], 'btc'), tx['confirmations'], tx['scriptPubKey'], tx['txid'], tx['vout'])
            for tx in r.json()]


def insight_broadcast_tx(cls, tx_hex):
    return _pushed(requests.post(cls.MAIN_TX_PUSH_API, data={cls.TX_PUSH_PARAM: tx_hex}, timeout=services.DEFAULT_TIMEOUT))
