"""Reference semantics: byte/hex/varint/script primitives, base58, bech32, curve, formats.

Never executed.  Each function is read by the analyser and compared, as a value
flow over its parameters, with the repository function it specifies.
"""
import hashlib
from binascii import hexlify
from coincurve.ecdsa import der_to_cdata
from coincurve import verify_signature

from bit.base32 import (
    bech32_create_checksum as bit_create_checksum, bech32_decode as bit_bech32_decode,
    bech32_encode as bit_bech32_encode, bech32_hrp_expand as bit_hrp_expand, bech32_polymod as bit_polymod,
    bech32_verify_checksum as bit_verify_checksum, convertbits as bit_convertbits, decode as bit_segwit_decode,
)
from bit.base58 import b58decode as bit_b58decode, b58decode_check as bit_b58decode_check
from bit.base58 import b58encode as bit_b58encode, b58encode_check as bit_b58encode_check
from bit.crypto import double_sha256_checksum as bit_checksum, ripemd160_sha256 as bit_hash160, sha256 as bit_sha256
from bit.curve import x_to_y as bit_x_to_y
from bit.format import get_version as bit_get_version, multisig_to_redeemscript as bit_redeemscript
from bit.format import coords_to_public_key as bit_coords_to_public_key
from bit.utils import (
    int_to_unknown_bytes as bit_int_bytes, int_to_varint as bit_varint, read_bytes as bit_read_bytes,
    read_var_int as bit_read_var_int, script_push as bit_script_push, bytes_to_hex as bit_hex,
    hex_to_bytes as bit_unhex, read_as_int as bit_read_as_int,
)


# ------------------------------------------------------------------- utils --
def chunk_data(data, size):
    return [data[i:i + size] for i in range(0, len(data), size)]


def int_to_unknown_bytes(num, byteorder='big'):
    n = (num.bit_length() + 7) // 8
    return num.to_bytes(n if n else 1, byteorder)


def bytes_to_hex(bytestr, upper=False):
    h = hexlify(bytestr).decode()
    if upper:
        return h.upper()
    return h


def hex_to_bytes(hexed):
    if len(hexed) % 2 == 1:
        return bytes.fromhex('0' + hexed)
    return bytes.fromhex(hexed)


def int_to_hex(num, upper=False):
    h = hex(num)[2:]
    if upper:
        return h.upper()
    return h


def hex_to_int(hexed):
    return int(hexed, 16)


def flip_hex_byte_order(string):
    return bit_hex(bit_unhex(string)[::-1])


def int_to_varint(val):
    if val < 0xfd:
        return val.to_bytes(1, 'little')
    if val <= 0xffff:
        return b'\xfd' + val.to_bytes(2, 'little')
    if val <= 0xffffffff:
        return b'\xfe' + val.to_bytes(4, 'little')
    return b'\xff' + val.to_bytes(8, 'little')


def script_push(val):
    if val <= 75:
        return bit_int_bytes(val)
    if val <= 0xff:
        return b'\x4c' + bit_int_bytes(val)
    if val <= 0xffff:
        return b'\x4d' + val.to_bytes(2, 'little')
    return b'\x4e' + val.to_bytes(4, 'little')


def read_bytes(stream, count):
    return stream[:count], stream[count:]


def read_var_string(stream):
    size, rest = bit_read_var_int(stream)
    return rest[:size], rest[size:]


def read_var_int(stream):
    first = int(bit_hex(stream[0:1]), 16)
    if first < 253:
        return first, stream[1:]
    width = 2 ** (first - 252)
    rest = stream[1:]
    return int(bit_hex(rest[0:width][::-1]), 16), rest[width:]


def read_as_int(stream, count):
    return int(bit_hex(stream[0:count][::-1]), 16), stream[count:]


def read_segwit_string(stream):
    size, rest = bit_read_var_int(stream)
    return bit_varint(size) + rest[:size], rest[size:]


def get_signatures_from_script(script):
    rest = script[1:]
    sigs = []
    while len(rest) > 0:
        size, rest = bit_read_var_int(rest)
        item, rest = bit_read_bytes(rest, size)
        try:
            der_to_cdata(item[:-1])
            sigs.append(item)
        except ValueError:
            pass
    return sigs


# ------------------------------------------------------------------ crypto --
def sha256(bytestr):
    return hashlib.sha256(bytestr).digest()


def double_sha256(bytestr):
    return hashlib.sha256(hashlib.sha256(bytestr).digest()).digest()


def double_sha256_checksum(bytestr):
    return hashlib.sha256(hashlib.sha256(bytestr).digest()).digest()[:4]


def ripemd160_sha256(bytestr):
    return hashlib.new('ripemd160', hashlib.sha256(bytestr).digest()).digest()


# ------------------------------------------------------------------ base58 --
ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58encode(bytestr):
    digits = []
    num = int.from_bytes(bytestr, 'big')
    while num > 0:
        digits.insert(0, ALPHABET[num % 58])
        num = num // 58
    zeros = 0
    for byte in bytestr:
        if byte != 0:
            break
        zeros += 1
    return '1' * zeros + ''.join(digits)


def b58encode_check(bytestr):
    return bit_b58encode(bytestr + bit_checksum(bytestr))


def b58decode(string):
    values = {c: i for i, c in enumerate(ALPHABET)}
    num = 0
    for char in string:
        if char not in values:
            raise ValueError
        num = num * 58 + values[char]
    zeros = 0
    for char in string:
        if char != '1':
            break
        zeros += 1
    return b'\x00' * zeros + bit_int_bytes(num)


def b58decode_check(string):
    decoded = bit_b58decode(string)
    if decoded[-4:] != bit_checksum(decoded[:-4]):
        raise ValueError
    return decoded[:-4]


# ------------------------------------------------------------------- curve --
P = 2 ** 256 - 2 ** 32 - 977


def parity(num):
    return num & 1


def x_to_y(x, y_parity):
    y = pow(x ** 3 + 7, (P + 1) // 4, P)
    if y & 1 != y_parity:
        return P - y
    return y
