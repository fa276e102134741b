"""Reference semantics: keys, multisig contracts, unspents."""
import json

from coincurve import PrivateKey as ECPrivateKey

from bit.crypto import ripemd160_sha256 as bit_hash160, sha256 as bit_sha256
from bit.curve import Point
from bit.format import (
    bytes_to_wif as bit_bytes_to_wif, multisig_to_address as bit_multisig_to_address,
    multisig_to_redeemscript as bit_redeemscript, multisig_to_segwit_address as bit_multisig_to_segwit_address,
    public_key_to_address as bit_public_key_to_address, public_key_to_coords as bit_public_key_to_coords,
    public_key_to_segwit_address as bit_public_key_to_segwit_address, wif_to_bytes as bit_wif_to_bytes,
)
from bit.network import NetworkAPI
from bit.network.fees import get_fee_cached as bit_get_fee_cached
from bit.network.rates import satoshi_to_currency_cached as bit_to_currency
from bit.network.meta import Unspent
from bit.transaction import (
    address_to_scriptpubkey as bit_spk, calc_txid as bit_calc_txid, create_new_transaction as bit_create,
    deserialize as bit_deserialize, sanitize_tx_data as bit_sanitize, sign_tx as bit_sign_tx,
)
from bit.utils import bytes_to_hex as bit_hex, hex_to_bytes as bit_unhex, int_to_varint as bit_varint
from bit.wallet import PrivateKey, PrivateKeyTestnet

SIZES = {
    'unknown': 180, 'p2pkh-uncompressed': 180, 'p2pkh': 148, 'p2sh': 298, 'np2wkh': 91, 'np2wsh': 140, 'p2wkh': 68,
    'p2wsh': 105,
}
WITNESS = {
    'unknown': None, 'p2pkh-uncompressed': False, 'p2pkh': False, 'p2sh': False, 'np2wkh': True, 'np2wsh': True,
    'p2wkh': True, 'p2wsh': True,
}
FIELDS = ('amount', 'confirmations', 'script', 'txid', 'txindex', 'type', 'vsize', 'segwit', 'sequence')


# ------------------------------------------------------------------ Unspent --
def unspent_init(self, amount, confirmations, script, txid, txindex, type='p2pkh', vsize=None, segwit=None,
                 sequence=0xffffffff):
    self.amount = amount
    self.confirmations = confirmations
    self.script = script
    self.txid = txid
    self.txindex = txindex
    self.type = type if type in SIZES else 'unknown'
    self.vsize = vsize or SIZES[self.type]
    self.segwit = WITNESS[self.type]
    self.sequence = sequence


def unspent_set_type(self, type, vsize=0):
    self.type = type if type in SIZES else 'unknown'
    self.vsize = vsize or SIZES[self.type]
    self.segwit = WITNESS[self.type]
    return self


def unspent_to_dict(self):
    return {
        'amount': self.amount, 'confirmations': self.confirmations, 'script': self.script, 'txid': self.txid,
        'txindex': self.txindex, 'type': self.type, 'vsize': self.vsize, 'segwit': self.segwit,
        'sequence': self.sequence,
    }


def unspent_from_dict(cls, d):
    return Unspent(d['amount'], d['confirmations'], d['script'], d['txid'], d['txindex'], d['type'], d['vsize'],
                   d['segwit'], d['sequence'])


def unspent_eq(self, other):
    return (
        self.amount == other.amount and self.script == other.script and self.txid == other.txid
        and self.txindex == other.txindex and self.segwit == other.segwit and self.sequence == other.sequence
    )


def unspent_rbf(self):
    if self.sequence >= 0xfffffffe:
        self.sequence = 0xfffffffd


# --------------------------------------------------------------------- keys --
def basekey_init(self, wif=None):
    if not wif:
        pk = ECPrivateKey()
        compressed = True
    elif isinstance(wif, str):
        secret, compressed, _ = bit_wif_to_bytes(wif)
        pk = ECPrivateKey(secret)
    elif isinstance(wif, ECPrivateKey):
        pk = wif
        compressed = True
    else:
        raise TypeError('')
    self._pk = pk
    self._public_point = None
    self._public_key = pk.public_key.format(compressed=compressed)


def basekey_public_key(self):
    return self._public_key


def basekey_public_point(self):
    if self._public_point is None:
        self._public_point = Point(*bit_public_key_to_coords(self._public_key))
    return self._public_point


def basekey_sign(self, data):
    return self._pk.sign(data)


def basekey_verify(self, signature, data):
    return self._pk.public_key.verify(signature, data)


def basekey_pub_to_hex(self):
    return bit_hex(self.public_key)


def basekey_to_hex(self):
    return self._pk.to_hex()


def basekey_to_bytes(self):
    return self._pk.secret


def basekey_to_der(self):
    return self._pk.to_der()


def basekey_to_pem(self):
    return self._pk.to_pem()


def basekey_to_int(self):
    return self._pk.to_int()


def basekey_is_compressed(self):
    return len(self.public_key) == 33


def basekey_eq(self, other):
    return self.to_int() == other.to_int()


def wif_to_key(wif):
    secret, compressed, version = bit_wif_to_bytes(wif)
    if version == 'main':
        return PrivateKey.from_bytes(secret) if compressed else PrivateKey(wif)
    return PrivateKeyTestnet.from_bytes(secret) if compressed else PrivateKeyTestnet(wif)


def _key_init(self, wif, version, name):
    basekey_init(self, wif)
    self.version = version
    self.instance = name
    self._address = None
    self._segwit_address = None
    self._scriptcode = None
    self._segwit_scriptcode = None
    self.balance = 0
    self.unspents = []
    self.transactions = []


def key_init_main(self, wif=None):
    _key_init(self, wif, 'main', 'PrivateKey')


def key_init_test(self, wif=None):
    _key_init(self, wif, 'test', 'PrivateKeyTestnet')


def key_address(self):
    if self._address is None:
        self._address = bit_public_key_to_address(self._public_key, version=self.version)
    return self._address


def key_segwit_address(self):
    if self._segwit_address is None and self.is_compressed():
        self._segwit_address = bit_public_key_to_segwit_address(self._public_key, version=self.version)
    return self._segwit_address


def key_scriptcode(self):
    self._scriptcode = bit_spk(self.address)
    return self._scriptcode


def key_segwit_scriptcode(self):
    self._segwit_scriptcode = b'\x00\x14' + bit_hash160(self.public_key)
    return self._segwit_scriptcode


def can_sign_unspent(self, unspent):
    if unspent.script == bit_hex(bit_spk(self.address)):
        return True
    if not self.segwit_address:
        return False
    return unspent.script == bit_hex(bit_spk(self.segwit_address))


def key_to_wif(self):
    return bit_bytes_to_wif(self._pk.secret, version=self.version, compressed=self.is_compressed())


def balance_as(self, currency):
    return bit_to_currency(self.balance, currency)


def get_balance(self, currency='satoshi'):
    self.get_unspents()
    return self.balance_as(currency)


def _key_get_unspents(self, fetch):
    found = [u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed') for u in fetch(self.address)]
    if self.segwit_address:
        found = found + [u.set_type('np2wkh') for u in fetch(self.segwit_address)]
    self.unspents[:] = found
    self.balance = sum(u.amount for u in self.unspents)
    return self.unspents


def key_get_unspents_main(self):
    return _key_get_unspents(self, NetworkAPI.get_unspent)


def key_get_unspents_test(self):
    return _key_get_unspents(self, NetworkAPI.get_unspent_testnet)


def _get_transactions(self, fetch):
    self.transactions[:] = fetch(self.address)
    if self.segwit_address:
        self.transactions += fetch(self.segwit_address)
    return self.transactions


def get_transactions_main(self):
    return _get_transactions(self, NetworkAPI.get_transactions)


def get_transactions_test(self):
    return _get_transactions(self, NetworkAPI.get_transactions_testnet)
