"""Reference semantics: transaction structure, serialisation, digest, coin selection, output construction."""
import logging
import math
import re
from random import randint, shuffle

from bit.base32 import decode as bit_segwit_decode
from bit.base58 import b58decode_check as bit_b58decode_check
from bit.crypto import double_sha256 as bit_dsha, sha256 as bit_sha256
from bit.exceptions import InsufficientFunds
from bit.format import (
    address_to_public_key_hash as bit_pkh, get_version as bit_get_version, segwit_scriptpubkey as bit_segwit_spk,
    verify_sig as bit_verify_sig,
)
from bit.network.rates import currency_to_satoshi_cached as bit_to_satoshi
from bit.transaction import (
    TxIn, TxObj, TxOut, address_to_scriptpubkey as bit_spk, calculate_preimages as bit_preimages,
    construct_outputs as bit_construct_outputs, deserialize as bit_deserialize, estimate_tx_fee as bit_estimate,
    select_coins as bit_select_coins, sign_tx as bit_sign_tx,
)
from bit.utils import (
    bytes_to_hex as bit_hex, hex_to_bytes as bit_unhex, int_to_varint as bit_varint, script_push as bit_script_push,
    get_signatures_from_script as bit_get_signatures, int_to_unknown_bytes as bit_int_bytes,
    read_bytes as bit_read_bytes, read_var_int as bit_read_var_int, read_var_string as bit_read_var_string,
    read_segwit_string as bit_read_segwit_string, chunk_data as bit_chunk,
)


# --------------------------------------------------------------- structure --
def txin_init(self, script_sig, txid, txindex, witness=b'', amount=None, sequence=b'\xff\xff\xff\xff',
              segwit_input=False):
    self.script_sig = script_sig
    self.script_sig_len = bit_varint(len(script_sig))
    self.txid = txid
    self.txindex = txindex
    self.witness = witness
    self.amount = amount
    self.sequence = sequence
    self.segwit_input = segwit_input


def txin_bytes(self):
    return self.txid + self.txindex + self.script_sig_len + self.script_sig + self.sequence


def txin_is_segwit(self):
    return self.segwit_input or self.witness


def txin_eq(self, other):
    return (
        self.script_sig == other.script_sig and self.script_sig_len == other.script_sig_len
        and self.txid == other.txid and self.txindex == other.txindex and self.witness == other.witness
        and self.amount == other.amount and self.sequence == other.sequence
        and self.segwit_input == other.segwit_input
    )


def txout_init(self, amount, script_pubkey):
    self.amount = amount
    self.script_pubkey = script_pubkey
    self.script_pubkey_len = bit_varint(len(script_pubkey))


def txout_bytes(self):
    return self.amount + self.script_pubkey_len + self.script_pubkey


def txout_eq(self, other):
    return (
        self.amount == other.amount and self.script_pubkey == other.script_pubkey
        and self.script_pubkey_len == other.script_pubkey_len
    )


def txobj_init(self, version, TxIn, TxOut, locktime):
    self.version = version
    self.TxIn = TxIn
    self.TxOut = TxOut
    self.locktime = locktime
    if any(i.segwit_input or i.witness for i in TxIn):
        for i in TxIn:
            if not i.witness:
                i.witness = b'\x00'


def txobj_eq(self, other):
    return (
        self.version == other.version and self.TxIn == other.TxIn and self.TxOut == other.TxOut
        and self.locktime == other.locktime
    )


def txobj_bytes(self):
    ins = bit_varint(len(self.TxIn))
    for i in self.TxIn:
        ins += bytes(i)
    outs = bit_varint(len(self.TxOut))
    for o in self.TxOut:
        outs += bytes(o)
    wit = b''
    for i in self.TxIn:
        wit += i.witness
    if wit:
        return self.version + b'\x00\x01' + ins + outs + wit + self.locktime
    return self.version + ins + outs + self.locktime


def txobj_legacy(self):
    ins = bit_varint(len(self.TxIn))
    for i in self.TxIn:
        ins += bytes(i)
    outs = bit_varint(len(self.TxOut))
    for o in self.TxOut:
        outs += bytes(o)
    return self.version + ins + outs + self.locktime


def txobj_hex(self):
    return bit_hex(bytes(self))


def txobj_is_segwit(cls, tx):
    if isinstance(tx, cls):
        raw = bytes(tx)
    elif isinstance(tx, bytes):
        raw = tx
    else:
        raw = bit_unhex(tx)
    return raw[4:6] == b'\x00\x01'


def calc_txid(tx_hex):
    return bit_hex(bit_dsha(bit_deserialize(tx_hex).legacy_repr())[::-1])


def deserialize(tx):
    if isinstance(tx, str) and re.match('^[0-9a-fA-F]*$', tx):
        return bit_deserialize(bit_unhex(tx))
    segwit = TxObj.is_segwit(tx)
    version, tx = bit_read_bytes(tx, 4)
    if segwit:
        _, tx = bit_read_bytes(tx, 1)
        _, tx = bit_read_bytes(tx, 1)
    n_in, tx = bit_read_var_int(tx)
    inputs = []
    for i in range(n_in):
        txid, tx = bit_read_bytes(tx, 32)
        txindex, tx = bit_read_bytes(tx, 4)
        script_sig, tx = bit_read_var_string(tx)
        sequence, tx = bit_read_bytes(tx, 4)
        inputs.append(TxIn(script_sig, txid, txindex, sequence=sequence))
    n_out, tx = bit_read_var_int(tx)
    outputs = []
    for i in range(n_out):
        amount, tx = bit_read_bytes(tx, 8)
        script_pubkey, tx = bit_read_var_string(tx)
        outputs.append(TxOut(amount, script_pubkey))
    if segwit:
        for i in range(n_in):
            n_wit, tx = bit_read_var_int(tx)
            witness = bit_varint(n_wit)
            for j in range(n_wit):
                w, tx = bit_read_segwit_string(tx)
                witness += w
            inputs[i].witness = witness
    locktime, _ = bit_read_bytes(tx, 4)
    return TxObj(version, inputs, outputs, locktime)


# ------------------------------------------------------------- fee and coins --
def estimate_tx_fee(in_size, n_in, out_size, n_out, satoshis, segwit=False):
    if not satoshis:
        return 0
    size = in_size + len(bit_int_bytes(n_in, byteorder='little')) + out_size \
        + len(bit_int_bytes(n_out, byteorder='little')) + 8
    if segwit:
        size = size + 0.5
    return math.ceil(size) * satoshis


def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, consolidate=False, unspents):
    tries = 1000000
    overhead = (8 + sum(output_size[:-1]) + 1) * fee

    def bnb(d, chosen, value, target, fee, pool):
        nonlocal overhead, tries
        tries -= 1
        goal = target + overhead
        if value > goal + (148 + 34) * fee:
            return []
        if value >= goal:
            return chosen
        if tries <= 0:
            return []
        if d >= len(pool):
            return []
        if randint(0, 1):
            more = value + pool[d].amount - fee * pool[d].vsize
            found = bnb(d + 1, chosen + [pool[d]], more, target, fee, pool)
            if found != []:
                return found
            return bnb(d + 1, chosen, value, target, fee, pool)
        found = bnb(d + 1, chosen, value, target, fee, pool)
        if found != []:
            return found
        more = value + pool[d].amount - fee * pool[d].vsize
        return bnb(d + 1, chosen + [pool[d]], more, target, fee, pool)

    pool = sorted(unspents, key=lambda u: u.amount, reverse=True)
    chosen = []
    if not consolidate and not absolute_fee:
        chosen = bnb(0, [], 0, target, fee, pool)
        remaining = 0
    if chosen == []:
        rest = unspents.copy()
        if not consolidate:
            shuffle(rest)
        while rest:
            chosen.append(rest.pop(0))
            est = bit_estimate(
                sum(u.vsize for u in chosen), len(chosen), sum(output_size), len(output_size), fee,
                any(u.segwit for u in chosen))
            if absolute_fee:
                est = fee
            remaining = sum(u.amount for u in chosen) - target - est
            if remaining >= min_change and (not consolidate or len(rest) == 0):
                break
        else:
            raise InsufficientFunds('')
    return chosen, remaining


# ------------------------------------------------------------------ outputs --
def sanitize_tx_data(unspents, outputs, fee, leftover, combine=True, message=None, compressed=True, absolute_fee=False,
                     min_change=0, version='main', message_is_hex=False, replace_by_fee=False):
    pay = [(dest, bit_to_satoshi(amount, currency)) for dest, amount, currency in outputs]
    if not unspents:
        raise ValueError('')
    if message:
        if message_is_hex:
            chunks = bit_chunk(message, 80)
        else:
            chunks = bit_chunk(message.encode("utf-8"), 80)
        messages = [(c, 0) for c in chunks]
    else:
        messages = []
    sizes = [len(bit_spk(o[0])) + 9 for o in pay]
    sizes.append(len(messages) * 89)
    sizes.append(len(bit_spk(leftover)) + 9)
    unspents, remaining = bit_select_coins(
        sum(o[1] for o in pay), fee, sizes, min_change=min_change, absolute_fee=absolute_fee, consolidate=combine,
        unspents=unspents)
    if replace_by_fee:
        for u in unspents:
            u.opt_in_for_RBF()
    if remaining > 0:
        pay.append((leftover, remaining))
    for dest, amount in pay:
        net = bit_get_version(dest)
        if net and net != version:
            raise ValueError('')
    return unspents, pay + messages


def address_to_scriptpubkey(address):
    bit_get_version(address)
    try:
        version = bit_b58decode_check(address)[:1]
    except ValueError:
        witver, prog = bit_segwit_decode(address)
        if witver is None:
            raise ValueError('')
        return bit_segwit_spk(witver, prog)
    if version == b'\x00' or version == b'\x6f':
        return b'\x76\xa9\x14' + bit_pkh(address) + b'\x88\xac'
    if version == b'\x05' or version == b'\xc4':
        return b'\xa9\x14' + bit_pkh(address) + b'\x87'
    return ...      # no other version byte is accepted by bit_get_version


def construct_outputs(outputs):
    res = []
    for dest, amount in outputs:
        if amount:
            res.append(TxOut(amount.to_bytes(8, byteorder='little'), bit_spk(dest)))
        else:
            res.append(TxOut(bytes(8), b'\x6a' + bit_script_push(len(dest)) + dest))
    return res
