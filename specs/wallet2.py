"""Reference semantics: building, sending and signing from keys; multisig contracts."""
import json

from coincurve import PrivateKey as ECPrivateKey

from bit.crypto import sha256 as bit_sha256
from bit.format import (
    multisig_to_address as bit_multisig_to_address, multisig_to_redeemscript as bit_redeemscript,
    multisig_to_segwit_address as bit_multisig_to_segwit_address,
)
from bit.network import NetworkAPI
from bit.network.fees import get_fee_cached as bit_get_fee_cached
from bit.network.meta import Unspent
from bit.transaction import (
    calc_txid as bit_calc_txid, create_new_transaction as bit_create, deserialize as bit_deserialize,
    sanitize_tx_data as bit_sanitize, sign_tx as bit_sign_tx,
)
from bit.utils import bytes_to_hex as bit_hex, hex_to_bytes as bit_unhex, int_to_varint as bit_varint
from bit.wallet import PrivateKey, PrivateKeyTestnet


def create_transaction(self, outputs, fee=None, absolute_fee=False, leftover=None, combine=True, message=None,
                       unspents=None, message_is_hex=False, replace_by_fee=False):
    try:
        unspents = unspents or self.get_unspents()
    except ConnectionError:
        raise ConnectionError('')
    if any(u.segwit for u in unspents):
        change = self.segwit_address
    else:
        change = self.address
    unspents, outputs = bit_sanitize(
        unspents, outputs, fee or bit_get_fee_cached(), leftover or change, combine=combine, message=message,
        absolute_fee=absolute_fee, version=self.version, message_is_hex=message_is_hex, replace_by_fee=replace_by_fee)
    return bit_create(self, unspents, outputs)


def send_main(self, outputs, fee=None, absolute_fee=False, leftover=None, combine=True, message=None, unspents=None,
              message_is_hex=False, replace_by_fee=False):
    tx = self.create_transaction(
        outputs, fee=fee, absolute_fee=absolute_fee, leftover=leftover, combine=combine, message=message,
        unspents=unspents, message_is_hex=message_is_hex, replace_by_fee=replace_by_fee)
    NetworkAPI.broadcast_tx(tx)
    return bit_calc_txid(tx)


def send_test(self, outputs, fee=None, absolute_fee=False, leftover=None, combine=True, message=None, unspents=None,
              message_is_hex=False, replace_by_fee=False):
    tx = self.create_transaction(
        outputs, fee=fee, absolute_fee=absolute_fee, leftover=leftover, combine=combine, message=message,
        unspents=unspents, message_is_hex=message_is_hex, replace_by_fee=replace_by_fee)
    NetworkAPI.broadcast_tx_testnet(tx)
    return bit_calc_txid(tx)


def _prepare(fetch, net, address, outputs, fee, absolute_fee, leftover, combine, message, unspents, message_is_hex,
             replace_by_fee):
    unspents, outputs = bit_sanitize(
        unspents or fetch(address), outputs, fee or bit_get_fee_cached(), leftover or address, combine=combine,
        message=message, absolute_fee=absolute_fee, version=net, message_is_hex=message_is_hex,
        replace_by_fee=replace_by_fee)
    return json.dumps({'unspents': [u.to_dict() for u in unspents], 'outputs': outputs}, separators=(',', ':'))


def prepare_main(cls, address, outputs, compressed=True, fee=None, absolute_fee=False, leftover=None, combine=True,
                 message=None, unspents=None, message_is_hex=False, replace_by_fee=False):
    return _prepare(NetworkAPI.get_unspent, 'main', address, outputs, fee, absolute_fee, leftover, combine, message,
                    unspents, message_is_hex, replace_by_fee)


def prepare_test(cls, address, outputs, compressed=True, fee=None, absolute_fee=False, leftover=None, combine=True,
                 message=None, unspents=None, message_is_hex=False, replace_by_fee=False):
    return _prepare(NetworkAPI.get_unspent_testnet, 'test', address, outputs, fee, absolute_fee, leftover, combine,
                    message, unspents, message_is_hex, replace_by_fee)


def sign_transaction(self, tx_data, unspents=None):
    try:
        data = json.loads(tx_data)
        assert unspents is None
        prepared = [Unspent.from_dict(u) for u in data['unspents']]
        try:
            return bit_create(self, prepared, data['outputs'])
        except:
            # prepared data that cannot be signed is not a transaction either: some error is raised
            return ...
    except:
        try:
            unspents = unspents or self.get_unspents()
        except ConnectionError:
            raise ConnectionError('')
        return bit_sign_tx(self, bit_deserialize(tx_data), unspents=unspents)


def from_hex_main(cls, hexed):
    return PrivateKey(ECPrivateKey.from_hex(hexed))


def from_bytes_main(cls, bytestr):
    return PrivateKey(ECPrivateKey(bytestr))


def from_der_main(cls, der):
    return PrivateKey(ECPrivateKey.from_der(der))


def from_pem_main(cls, pem):
    return PrivateKey(ECPrivateKey.from_pem(pem))


def from_int_main(cls, num):
    return PrivateKey(ECPrivateKey.from_int(num))


def from_hex_test(cls, hexed):
    return PrivateKeyTestnet(ECPrivateKey.from_hex(hexed))


def from_bytes_test(cls, bytestr):
    return PrivateKeyTestnet(ECPrivateKey(bytestr))


def from_der_test(cls, der):
    return PrivateKeyTestnet(ECPrivateKey.from_der(der))


def from_pem_test(cls, pem):
    return PrivateKeyTestnet(ECPrivateKey.from_pem(pem))


def from_int_test(cls, num):
    return PrivateKeyTestnet(ECPrivateKey.from_int(num))


# ----------------------------------------------------------------- multisig --
def _multisig_init(self, private_key, public_keys, m, keyclass, version, name):
    if private_key.instance != keyclass:
        raise TypeError('')
    if bit_hex(private_key.public_key) not in public_keys and private_key.public_key not in public_keys:
        raise ValueError('')
    if type(public_keys) not in (list, set):
        raise TypeError('')
    self.version = version
    self.instance = name
    self._pk = private_key
    self.public_key = private_key.public_key
    if type(public_keys) == set:
        public_keys = sorted(public_keys)
    self.public_keys = [k if type(k) == bytes else bit_unhex(k) for k in public_keys]
    self.m = m
    self.redeemscript = bit_redeemscript(self.public_keys, self.m)
    self.is_compressed = all(len(p) == 33 for p in self.public_keys)
    self._address = None
    self._segwit_address = None
    self._scriptcode = None
    self._segwit_scriptcode = None
    self.balance = 0
    self.unspents = []
    self.transactions = []


def multisig_init_main(self, private_key, public_keys, m):
    _multisig_init(self, private_key, public_keys, m, 'PrivateKey', 'main', 'MultiSig')


def multisig_init_test(self, private_key, public_keys, m):
    _multisig_init(self, private_key, public_keys, m, 'PrivateKeyTestnet', 'test', 'MultiSigTestnet')


def multisig_address(self):
    if self._address is None:
        self._address = bit_multisig_to_address(self.public_keys, self.m, version=self.version)
    return self._address


def multisig_segwit_address(self):
    if self._segwit_address is None and self.is_compressed:
        self._segwit_address = bit_multisig_to_segwit_address(self.public_keys, self.m, version=self.version)
    return self._segwit_address


def multisig_scriptcode(self):
    self._scriptcode = self.redeemscript
    return self._scriptcode


def multisig_segwit_scriptcode(self):
    self._segwit_scriptcode = b'\x00\x20' + bit_sha256(self.redeemscript)
    return self._segwit_scriptcode


def multisig_sign(self, data):
    return self._pk.sign(data)


def _multisig_get_unspents(self, fetch):
    n = 1 + self.m * 74 + len(bit_varint(len(self.redeemscript))) + len(self.redeemscript)
    legacy = 36 + len(bit_varint(n)) + n + 4
    segwit = 36 + 40 + (1 + n) / 4
    found = [u.set_type('p2sh', legacy) for u in fetch(self.address)]
    if self.segwit_address:
        found = found + [u.set_type('np2wsh', segwit) for u in fetch(self.segwit_address)]
    self.unspents[:] = found
    self.balance = sum(u.amount for u in self.unspents)
    return self.unspents


def multisig_get_unspents_main(self):
    return _multisig_get_unspents(self, NetworkAPI.get_unspent)


def multisig_get_unspents_test(self):
    return _multisig_get_unspents(self, NetworkAPI.get_unspent_testnet)
