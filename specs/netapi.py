"""Reference semantics: failover over services; the node client."""
import json
import logging

import requests

from bit.exceptions import BitcoinNodeException
from bit.network.meta import Unspent
from bit.network.rates import currency_to_satoshi as bit_to_satoshi
from bit.network.services import NetworkAPI, RPCHost, RPCMethod


def _ask(calls, arg, ignored):
    for call in calls:
        try:
            return call(arg)
        except ignored:
            pass
    raise ConnectionError('')


def get_balance(cls, address):
    return _ask(cls.GET_BALANCE_MAIN, address, cls.IGNORED_ERRORS)


def get_balance_testnet(cls, address):
    return _ask(cls.GET_BALANCE_TEST, address, cls.IGNORED_ERRORS)


def get_transactions(cls, address):
    return _ask(cls.GET_TRANSACTIONS_MAIN, address, cls.IGNORED_ERRORS)


def get_transactions_testnet(cls, address):
    return _ask(cls.GET_TRANSACTIONS_TEST, address, cls.IGNORED_ERRORS)


def get_transaction_by_id(cls, txid):
    return _ask(cls.GET_TRANSACTION_BY_ID_MAIN, txid, cls.IGNORED_ERRORS)


def get_transaction_by_id_testnet(cls, txid):
    return _ask(cls.GET_TRANSACTION_BY_ID_TEST, txid, cls.IGNORED_ERRORS)


def get_unspent(cls, address):
    return _ask(cls.GET_UNSPENT_MAIN, address, cls.IGNORED_ERRORS)


def get_unspent_testnet(cls, address):
    return _ask(cls.GET_UNSPENT_TEST, address, cls.IGNORED_ERRORS)


def _push(calls, tx_hex, ignored):
    for call in calls:
        try:
            if call(tx_hex):
                return
        except ignored:
            pass
    raise ConnectionError('')


def broadcast_tx(cls, tx_hex):
    _push(cls.BROADCAST_TX_MAIN, tx_hex, cls.IGNORED_ERRORS)


def broadcast_tx_testnet(cls, tx_hex):
    _push(cls.BROADCAST_TX_TEST, tx_hex, cls.IGNORED_ERRORS)


def connect_to_node(cls, user, password, host='localhost', port=8332, use_https=False, testnet=False, path=''):
    node = RPCHost(user=user, password=password, host=host, port=port, use_https=use_https, path=path)
    if testnet is False:
        cls.GET_BALANCE_MAIN = [node.get_balance]
        cls.GET_TRANSACTIONS_MAIN = [node.get_transactions]
        cls.GET_TRANSACTION_BY_ID_MAIN = [node.get_transaction_by_id]
        cls.GET_UNSPENT_MAIN = [node.get_unspent]
        cls.BROADCAST_TX_MAIN = [node.broadcast_tx]
    else:
        cls.GET_BALANCE_TEST = [node.get_balance_testnet]
        cls.GET_TRANSACTIONS_TEST = [node.get_transactions_testnet]
        cls.GET_TRANSACTION_BY_ID_TEST = [node.get_transaction_by_id_testnet]
        cls.GET_UNSPENT_TEST = [node.get_unspent_testnet]
        cls.BROADCAST_TX_TEST = [node.broadcast_tx_testnet]
    return node


# --------------------------------------------------------------------- node --
def rpchost_init(self, user, password, host, port, use_https, path):
    self._session = requests.Session()
    self._url = 'http{}://{}:{}@{}:{}/{}'.format('s' if use_https else '', user, password, host, port, path)
    self._headers = {'content-type': 'application/json'}
    self._session.verify = use_https


def rpchost_getattr(self, rpc_method):
    return RPCMethod(rpc_method, self)


def rpchost_get_balance(self, address):
    return bit_to_satoshi(self.getreceivedbyaddress(address, 0), 'btc')


def rpchost_get_transactions(self, address):
    r = self.listreceivedbyaddress(0, True, True, address)
    if len(r) > 0:
        return r[0]['txids']
    return r


def rpchost_get_transaction_by_id(self, txid):
    return self.getrawtransaction(txid, False)


def rpchost_get_unspent(self, address):
    return [
        Unspent(bit_to_satoshi(tx['amount'], 'btc'), tx['confirmations'], tx['scriptPubKey'], tx['txid'], tx['vout'])
        for tx in self.listunspent(0, 9999999, [address])
    ]


def rpchost_broadcast_tx(self, tx_hex):
    try:
        self.sendrawtransaction(tx_hex)
    except BitcoinNodeException:
        return False
    return True


def rpcmethod_init(self, rpc_method, host):
    self._rpc_method = rpc_method
    self._host = host


def rpcmethod_getattr(self, rpc_method):
    return RPCMethod('{}.{}'.format(self._rpc_method, rpc_method), self._host)


def rpcmethod_call(self, *args):
    payload = json.dumps({'method': self._rpc_method, 'params': list(args), 'jsonrpc': '2.0'})
    try:
        response = self._host._session.post(self._host._url, headers=self._host._headers, data=payload)
    except requests.exceptions.ConnectionError:
        raise ConnectionError
    if response.status_code != 200 and response.status_code != 500:
        raise BitcoinNodeException('')
    reply = response.json()
    if 'error' in reply and reply['error'] is not None:
        raise BitcoinNodeException('')
    return reply['result']


# ------------------------------------------------------------------ Insight --
