"""Reference semantics: signature digests and signing."""
from bit.crypto import double_sha256 as bit_dsha, sha256 as bit_sha256
from bit.format import verify_sig as bit_verify_sig
from bit.transaction import (
    TxIn, TxObj, calculate_preimages as bit_preimages, construct_outputs as bit_construct_outputs,
    sign_tx as bit_sign_tx,
)
from bit.utils import (
    get_signatures_from_script as bit_get_signatures, hex_to_bytes as bit_unhex, int_to_varint as bit_varint,
    script_push as bit_script_push,
)

SIGHASH_ALL = b'\x01\x00\x00\x00'


def calculate_preimages(tx_obj, inputs_parameters):
    outs = b''.join([bytes(o) for o in tx_obj.TxOut])
    prevouts = bit_dsha(b''.join([i.txid + i.txindex for i in tx_obj.TxIn]))
    sequences = bit_dsha(b''.join([i.sequence for i in tx_obj.TxIn]))
    res = []
    for n, hash_type, segwit in inputs_parameters:
        if hash_type != b'\x01\x00\x00\x00':
            raise ValueError('')
        own = tx_obj.TxIn[n]
        if segwit:
            res.append(bit_sha256(
                tx_obj.version + prevouts + sequences + own.txid + own.txindex + own.script_sig_len + own.script_sig
                + own.sequence + bit_dsha(outs) + tx_obj.locktime + hash_type))
        else:
            before = b''.join([t.txid + t.txindex + b'\x00' + t.sequence for t in tx_obj.TxIn[:n]])
            after = b''.join([t.txid + t.txindex + b'\x00' + t.sequence for t in tx_obj.TxIn[n + 1:]])
            res.append(bit_sha256(
                tx_obj.version + bit_varint(len(tx_obj.TxIn)) + before + own.txid + own.txindex + own.script_sig_len
                + own.script_sig + own.sequence + after + bit_varint(len(tx_obj.TxOut)) + outs + tx_obj.locktime
                + hash_type))
    return res


def sign_tx(private_key, tx, *, unspents):
    mine = {}
    try:
        for u in unspents:
            if private_key.can_sign_unspent(u):
                mine[bit_unhex(u.txid)[::-1] + u.txindex.to_bytes(4, byteorder='little')] = u.to_dict()
    except TypeError:
        raise TypeError('')
    todo = [j for j, i in enumerate(tx.TxIn) if i.txid + i.txindex in mine]
    segwit_tx = TxObj.is_segwit(tx)
    public_key = private_key.public_key
    fields = [i.script_sig for i in tx.TxIn]
    params = []
    for i in todo:
        outpoint = tx.TxIn[i].txid + tx.TxIn[i].txindex
        segwit = mine[outpoint]['segwit']
        tx.TxIn[i].segwit_input = segwit
        code = private_key.scriptcode
        tx.TxIn[i].script_sig = code
        tx.TxIn[i].script_sig_len = bit_varint(len(code))
        if segwit:
            try:
                tx.TxIn[i].script_sig += mine[outpoint]['amount'].to_bytes(8, byteorder='little')
                fields[i] = tx.TxIn[i].witness
            except AttributeError:
                raise ValueError('')
        params.append([i, SIGHASH_ALL, segwit])
    digests = bit_preimages(tx, params)
    for digest, (i, _, segwit) in zip(digests, params):
        signature = private_key.sign(digest) + b'\x01'
        if private_key.instance == 'MultiSig' or private_key.instance == 'MultiSigTestnet':
            sigs = {}
            items = 3
            if fields[i]:
                items = private_key.m + 2
                for sig in bit_get_signatures(fields[i]):
                    for pub in private_key.public_keys:
                        if bit_verify_sig(sig[:-1], digest, pub):
                            sigs[pub] = sig
                if len(sigs) >= private_key.m:
                    raise ValueError('')
            sigs[public_key] = signature
            pad = b'\x00' * (private_key.m - len(sigs)) if fields[i] else b''
            stack = b''
            for pub in private_key.public_keys:
                if pub in sigs:
                    sig = sigs[pub]
                    if segwit:
                        stack += bit_varint(len(sig)) + sig
                    else:
                        stack += bit_script_push(len(sig)) + sig
            redeem = private_key.redeemscript
            if segwit:
                script_sig = b'\x22' + private_key.segwit_scriptcode
                witness = bit_varint(items) + b'\x00' + stack + pad + bit_varint(len(redeem)) + redeem
            else:
                script_sig = b'\x00' + stack + pad + bit_script_push(len(redeem)) + redeem
                witness = b'\x00' if segwit_tx else b''
        else:
            body = len(signature).to_bytes(1, byteorder='little') + signature + bit_script_push(len(public_key)) + public_key
            if segwit:
                script_sig = b'\x16' + private_key.segwit_scriptcode
                witness = b'\x02' + body
            else:
                script_sig = body
                witness = b'\x00' if segwit_tx else b''
        tx.TxIn[i].script_sig = script_sig
        tx.TxIn[i].script_sig_len = bit_varint(len(script_sig))
        tx.TxIn[i].witness = witness
    return tx.to_hex()


def create_new_transaction(private_key, unspents, outputs):
    outs = bit_construct_outputs(outputs)
    ins = []
    for u in unspents:
        ins.append(TxIn(
            b'', bit_unhex(u.txid)[::-1], u.txindex.to_bytes(4, byteorder='little'),
            amount=int(u.amount).to_bytes(8, byteorder='little'), segwit_input=u.segwit,
            sequence=u.sequence.to_bytes(4, byteorder='little')))
    return bit_sign_tx(private_key, TxObj(b'\x01\x00\x00\x00', ins, outs, bytes(4)), unspents=unspents)
