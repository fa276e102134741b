"""Reference semantics: bech32 / segwit addresses and key, address and script formats."""
from coincurve import verify_signature

from bit.base32 import (
    bech32_create_checksum as bit_create_checksum, bech32_decode as bit_bech32_decode,
    bech32_encode as bit_bech32_encode, bech32_hrp_expand as bit_hrp_expand, bech32_polymod as bit_polymod,
    bech32_verify_checksum as bit_verify_checksum, convertbits as bit_convertbits, decode as bit_segwit_decode,
)
from bit.base58 import b58decode_check as bit_b58decode_check, b58encode_check as bit_b58encode_check
from bit.crypto import ripemd160_sha256 as bit_hash160, sha256 as bit_sha256
from bit.curve import x_to_y as bit_x_to_y
from bit.format import get_version as bit_get_version, multisig_to_redeemscript as bit_redeemscript
from bit.format import coords_to_public_key as bit_coords_to_public_key
from bit.utils import int_to_unknown_bytes as bit_int_bytes, script_push as bit_script_push

CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def bech32_polymod(values):
    chk = 1
    for value in values:
        top = chk >> 25
        chk = (chk & 0x1FFFFFF) << 5 ^ value
        for i, g in enumerate([0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]):
            if (top >> i) & 1:
                chk ^= g
            else:
                chk ^= 0
    return chk


def bech32_hrp_expand(hrp):
    return [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]


def bech32_verify_checksum(hrp, data):
    return bit_polymod(bit_hrp_expand(hrp) + data) == 1


def bech32_create_checksum(hrp, data):
    mod = bit_polymod(bit_hrp_expand(hrp) + data + [0, 0, 0, 0, 0, 0]) ^ 1
    return [(mod >> 5 * (5 - i)) & 31 for i in range(6)]


def bech32_encode(hrp, data):
    return hrp + '1' + ''.join([CHARSET[d] for d in data + bit_create_checksum(hrp, data)])


def bech32_decode(bech):
    if any(ord(x) < 33 or ord(x) > 126 for x in bech):
        return None, None
    if bech.lower() != bech and bech.upper() != bech:
        return None, None
    bech = bech.lower()
    pos = bech.rfind('1')
    if pos < 1 or pos + 7 > len(bech) or len(bech) > 90:
        return None, None
    if any(x not in CHARSET for x in bech[pos + 1:]):
        return None, None
    data = [CHARSET.find(x) for x in bech[pos + 1:]]
    if not bit_verify_checksum(bech[:pos], data):
        return None, None
    return bech[:pos], data[:-6]


def convertbits(data, frombits, tobits, pad=True):
    acc = 0
    bits = 0
    ret = []
    maxv = (1 << tobits) - 1
    max_acc = (1 << (frombits + tobits - 1)) - 1
    for value in data:
        if value < 0 or (value >> frombits):
            return None
        acc = ((acc << frombits) | value) & max_acc
        bits += frombits
        while bits >= tobits:
            bits -= tobits
            ret.append((acc >> bits) & maxv)
    if pad:
        if bits:
            ret.append((acc << (tobits - bits)) & maxv)
    elif bits >= frombits or ((acc << (tobits - bits)) & maxv):
        return None
    return ret


def segwit_decode(addr):
    hrp, data = bit_bech32_decode(addr)
    if hrp not in ('bc', 'tb', 'bcrt'):
        return None, None
    prog = bit_convertbits(data[1:], 5, 8, False)
    if prog is None or len(prog) < 2 or len(prog) > 40:
        return None, None
    if data[0] > 16:
        return None, None
    if data[0] == 0 and len(prog) != 20 and len(prog) != 32:
        return None, None
    return data[0], prog


def segwit_encode(hrp, witver, witprog):
    ret = bit_bech32_encode(hrp, [witver] + bit_convertbits(witprog, 8, 5))
    if bit_segwit_decode(ret) == (None, None):
        return None
    return ret


# ------------------------------------------------------------------ format --
def verify_sig(signature, data, public_key):
    return verify_signature(signature, data, public_key)


def get_version(address):
    hrp, _ = bit_bech32_decode(address)
    if hrp is not None:
        tag = hrp
    else:
        tag = bit_b58decode_check(address)[:1]
    if tag == b'\x00' or tag == b'\x05' or tag == 'bc':
        return 'main'
    if tag == b'\x6f' or tag == b'\xc4' or tag == 'tb' or tag == 'bcrt':
        return 'test'
    raise ValueError


def address_to_public_key_hash(address):
    bit_get_version(address)
    return bit_b58decode_check(address)[1:]


def bytes_to_wif(private_key, version='main', compressed=False):
    payload = (b'\xef' if version == 'test' else b'\x80') + private_key
    if compressed:
        payload = payload + b'\x01'
    return bit_b58encode_check(payload)


def wif_to_bytes(wif):
    payload = bit_b58decode_check(wif)
    if payload[:1] == b'\x80':
        version = 'main'
    elif payload[:1] == b'\xef':
        version = 'test'
    else:
        raise ValueError
    if len(wif) == 52 and payload[-1] == 1:
        return payload[1:-1], True, version
    return payload[1:], False, version


def wif_checksum_check(wif):
    try:
        payload = bit_b58decode_check(wif)
    except ValueError:
        return False
    return payload[:1] == b'\x80' or payload[:1] == b'\xef'


def public_key_to_address(public_key, version='main'):
    if len(public_key) != 33 and len(public_key) != 65:
        raise ValueError
    return bit_b58encode_check((b'\x6f' if version == 'test' else b'\x00') + bit_hash160(public_key))


def public_key_to_segwit_address(public_key, version='main'):
    if len(public_key) != 33:
        raise ValueError
    return bit_b58encode_check((b'\xc4' if version == 'test' else b'\x05')
                               + bit_hash160(b'\x00\x14' + bit_hash160(public_key)))


def multisig_to_redeemscript(public_keys, m):
    if m > len(public_keys):
        raise ValueError
    if m < 1:
        raise ValueError
    for key in public_keys:
        if len(key) not in (33, 65):
            raise ValueError
    script = bit_int_bytes(0x50 + m)
    for key in public_keys:
        script += bit_script_push(len(key)) + key
    script += bit_int_bytes(0x50 + len(public_keys)) + b'\xae'
    if len(script) > 520:
        raise ValueError
    return script


def multisig_to_address(public_keys, m, version='main'):
    return bit_b58encode_check((b'\xc4' if version == 'test' else b'\x05') + bit_hash160(bit_redeemscript(public_keys, m)))


def multisig_to_segwit_address(public_keys, m, version='main'):
    return bit_b58encode_check((b'\xc4' if version == 'test' else b'\x05')
                               + bit_hash160(b'\x00\x20' + bit_sha256(bit_redeemscript(public_keys, m))))


def segwit_scriptpubkey(witver, witprog):
    if witver:
        return bytes([witver + 0x50, len(witprog)] + witprog)
    return bytes([0, len(witprog)] + witprog)


def public_key_to_coords(public_key):
    if len(public_key) == 33:
        x = int.from_bytes(public_key[1:], 'big')
        return x, bit_x_to_y(x, int.from_bytes(public_key[:1], 'big') & 1)
    if len(public_key) == 65:
        return int.from_bytes(public_key[1:33], 'big'), int.from_bytes(public_key[33:], 'big')
    raise ValueError


def coords_to_public_key(x, y, compressed=True):
    if compressed:
        if y & 1:
            return b'\x03' + x.to_bytes(32, 'big')
        return b'\x02' + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def point_to_public_key(point, compressed=True):
    return bit_coords_to_public_key(point.x, point.y, compressed)
