"""Reference semantics: block explorer clients and the node client."""
import json
import logging

import requests

import bit.network.services as services
from bit.exceptions import BitcoinNodeException, ExcessiveAddress
from bit.network.meta import Unspent
from bit.network.rates import currency_to_satoshi as bit_to_satoshi
from bit.network.services import RPCMethod
from bit.transaction import address_to_scriptpubkey as bit_spk
from bit.utils import bytes_to_hex as bit_hex


def set_service_timeout(seconds):
    services.DEFAULT_TIMEOUT = seconds


def _ok(r):
    if r.status_code != 200:
        raise ConnectionError


def _json(url):
    r = requests.get(url, timeout=services.DEFAULT_TIMEOUT)
    _ok(r)
    return r.json()


def _pushed(r):
    return r.status_code == 200


# -------------------------------------------------------------- Blockchair --
def _blockchair_balance(url, address):
    return _json(url.format(address))['data'][address]['address']['balance']


def blockchair_get_balance(cls, address):
    return _blockchair_balance('https://api.blockchair.com/bitcoin/dashboards/address/{}', address)


def blockchair_get_balance_testnet(cls, address):
    return _blockchair_balance('https://api.blockchair.com/bitcoin/testnet/dashboards/address/{}', address)


def _blockchair_transactions(url, address):
    res = []
    offset = 0
    payload = {'offset': str(offset), 'limit': str(1000)}
    r = requests.get(url.format(address), params=payload, timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 404:
        return []
    _ok(r)
    page = r.json()['data'][address]
    left = page['address']['transaction_count']
    while left > 0:
        res.extend(tx for tx in page['transactions'])
        left -= 1000
        offset += 1000
        payload['offset'] = str(offset)
        r = requests.get(url.format(address), params=payload, timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()['data'][address]
    return res


def blockchair_get_transactions(cls, address):
    return _blockchair_transactions('https://api.blockchair.com/bitcoin/dashboards/address/{}', address)


def blockchair_get_transactions_testnet(cls, address):
    return _blockchair_transactions('https://api.blockchair.com/bitcoin/testnet/dashboards/address/{}', address)


def _blockchair_tx(url, txid):
    r = requests.get(url.format(txid), timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 404:
        return None
    _ok(r)
    data = r.json()['data']
    if data:
        return data[txid]['raw_transaction']
    return None


def blockchair_get_transaction_by_id(cls, txid):
    return _blockchair_tx('https://api.blockchair.com/bitcoin/raw/transaction/{}', txid)


def blockchair_get_transaction_by_id_testnet(cls, txid):
    return _blockchair_tx('https://api.blockchair.com/bitcoin/testnet/raw/transaction/{}', txid)


def _blockchair_unspent(url, address, limit):
    res = []
    offset = 0
    payload = {'offset': str(offset), 'limit': limit}
    r = requests.get(url.format(address), params=payload, timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 404:
        return []
    _ok(r)
    first = r.json()
    height = first['context']['state']
    page = first['data'][address]
    script = page['address']['script_hex']
    left = page['address']['unspent_output_count']
    while left > 0:
        res.extend(
            Unspent(u['value'], height - u['block_id'] + 1 if u['block_id'] != -1 else 0, script,
                    u['transaction_hash'], u['index'])
            for u in page['utxo'])
        left -= 1000
        offset += 1000
        payload['offset'] = str(offset)
        r = requests.get(url.format(address), params=payload, timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()['data'][address]
    return res


def blockchair_get_unspent(cls, address):
    return _blockchair_unspent('https://api.blockchair.com/bitcoin/dashboards/address/{}', address, str(1000))


def blockchair_get_unspent_testnet(cls, address):
    return _blockchair_unspent('https://api.blockchair.com/bitcoin/testnet/dashboards/address/{}', address, 1000)


def blockchair_broadcast_tx(cls, tx_hex):
    return _pushed(requests.post('https://api.blockchair.com/bitcoin/push/transaction', data={'data': tx_hex},
                                 timeout=services.DEFAULT_TIMEOUT))


def blockchair_broadcast_tx_testnet(cls, tx_hex):
    return _pushed(requests.post('https://api.blockchair.com/bitcoin/testnet/push/transaction', data={'data': tx_hex},
                                 timeout=services.DEFAULT_TIMEOUT))


# ------------------------------------------------------------- Blockstream --
def _blockstream_balance(url, address):
    d = _json(url.format(address))
    c, m = d['chain_stats'], d['mempool_stats']
    return c['funded_txo_sum'] + m['funded_txo_sum'] - c['spent_txo_sum'] - m['spent_txo_sum']


def blockstream_get_balance(cls, address):
    return _blockstream_balance('https://blockstream.info/api/address/{}', address)


def blockstream_get_balance_testnet(cls, address):
    return _blockstream_balance('https://blockstream.info/testnet/api/address/{}', address)


def blockstream_get_transactions(cls, address):
    res = []
    r = requests.get('https://blockstream.info/api/address/{}/txs/mempool'.format(address),
                     timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 400:
        return []
    _ok(r)
    pending = [tx['txid'] for tx in r.json()]
    if len(pending) == 50:
        raise ExcessiveAddress
    r = requests.get('https://blockstream.info/api/address/{}/txs/chain/{}'.format(address, ''),
                     timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 400:
        return []
    _ok(r)
    page = r.json()
    left = len(page)
    while left > 0:
        res.extend(tx['txid'] for tx in page)
        r = requests.get('https://blockstream.info/api/address/{}/txs/chain/{}'.format(address, res[-1]),
                         timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()
        left = len(page)
    res.extend(pending)
    return res


def blockstream_get_transactions_testnet(cls, address):
    res = []
    r = requests.get('https://blockstream.info/testnet/api/address/{}/txs/chain/{}'.format(address, ''),
                     timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 400:
        return []
    _ok(r)
    page = r.json()
    left = len(page)
    while left > 0:
        res.extend(tx['txid'] for tx in page)
        r = requests.get('https://blockstream.info/testnet/api/address/{}/txs/chain/{}'.format(address, res[-1]),
                         timeout=services.DEFAULT_TIMEOUT)
        _ok(r)
        page = r.json()
        left = len(page)
    return res


def _blockstream_tx(url, txid):
    r = requests.get(url.format(txid), timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 404:
        return None
    _ok(r)
    return r.text


def blockstream_get_transaction_by_id(cls, txid):
    return _blockstream_tx('https://blockstream.info/api/tx/{}/hex', txid)


def blockstream_get_transaction_by_id_testnet(cls, txid):
    return _blockstream_tx('https://blockstream.info/testnet/api/tx/{}/hex', txid)


def _blockstream_utxo(tx, height, script):
    depth = height - tx['status']['block_height'] + 1 if tx['status']['confirmed'] else 0
    return Unspent(tx['value'], depth, script, tx['txid'], tx['vout'])


def blockstream_get_unspent(cls, address):
    tip = requests.get('https://blockstream.info/api/blocks/tip/height', timeout=services.DEFAULT_TIMEOUT)
    _ok(tip)
    height = int(tip.text)
    r = requests.get('https://blockstream.info/api/address/{}/utxo'.format(address), timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 400 and r.text == 'Too many history entries':
        raise ExcessiveAddress
    _ok(r)
    script = bit_hex(bit_spk(address))
    return sorted([_blockstream_utxo(tx, height, script) for tx in r.json()], key=lambda u: u.confirmations)


def blockstream_get_unspent_testnet(cls, address):
    tip = requests.get('https://blockstream.info/testnet/api/blocks/tip/height', timeout=services.DEFAULT_TIMEOUT)
    _ok(tip)
    height = int(tip.text)
    r = requests.get('https://blockstream.info/testnet/api/address/{}/utxo'.format(address),
                     timeout=services.DEFAULT_TIMEOUT)
    if r.status_code == 400:
        return []
    _ok(r)
    script = bit_hex(bit_spk(address))
    return [_blockstream_utxo(tx, height, script) for tx in r.json()]


def blockstream_broadcast_tx(cls, tx_hex):
    return _pushed(requests.post('https://blockstream.info/api/tx', data={'data': tx_hex},
                                 timeout=services.DEFAULT_TIMEOUT))


def blockstream_broadcast_tx_testnet(cls, tx_hex):
    return _pushed(requests.post('https://blockstream.info/testnet/api/tx', data={'data': tx_hex},
                                 timeout=services.DEFAULT_TIMEOUT))
