U = 'bit/utils.py'
B58 = 'bit/base58.py'
B32 = 'bit/base32.py'
F = 'bit/format.py'
REFS = [
    dict(id='u1', file=U, edits=[("""    if val < 253:
        return val.to_bytes(1, 'little')
    elif val <= 65535:
        return b'\\xfd' + val.to_bytes(2, 'little')
    elif val <= 4294967295:
        return b'\\xfe' + val.to_bytes(4, 'little')
    else:
        return b'\\xff' + val.to_bytes(8, 'little')
""", """    for prefix, width, top in ((b'', 1, 252), (b'\\xfd', 2, 0xFFFF), (b'\\xfe', 4, 0xFFFFFFFF)):
        if val <= top:
            return prefix + val.to_bytes(width, 'little')
    return b'\\xff' + val.to_bytes(8, 'little')
""")]),
    dict(id='u2', file=U, edits=[("""    val = int(bytes_to_hex(stream[0:1]), base=16)
    if val < 253:
        return val, stream[1:]
    return read_as_int(stream[1:], 2 ** (val - 252))
""", """    first, rest = read_as_int(stream, 1)
    if first == 253:
        return read_as_int(rest, 2)
    if first == 254:
        return read_as_int(rest, 4)
    if first == 255:
        return read_as_int(rest, 8)
    return first, rest
""")]),
    dict(id='u3', file=U, edits=[("""    script = script[1:]  # remove the first OP_0
    sigs = []
    while len(script) > 0:
        # Consume script while extracting possible signatures:
        val, script = read_var_int(script)
        potential_sig, script = read_bytes(script, val)
        try:
            # Raises ValueError if argument to `der_to_cdata` is not a
            # DER-encoding of a signature (without the appended SIGHASH).
            der_to_cdata(potential_sig[:-1])
            # We only add if DER-encoded signature:
            sigs.append(potential_sig)
        except ValueError:
            pass
    return sigs
""", """    remaining = script[1:]  # remove the first OP_0
    found = []
    while remaining:
        item, remaining = read_var_string(remaining)
        if _is_der_signature(item):
            found.append(item)
    return found
"""), ("""def get_signatures_from_script(""", """def _is_der_signature(item):
    try:
        der_to_cdata(item[:-1])
    except ValueError:
        return False
    return True


def get_signatures_from_script(""")]),
    dict(id='u4', file=U, edits=[("""    if len(hexed) & 1:
        hexed = '0' + hexed

    return bytes.fromhex(hexed)
""", """    padded = hexed if len(hexed) % 2 == 0 else '0' + hexed
    return bytes.fromhex(padded)
"""), ("""    hexed = hexlify(bytestr).decode()
    return hexed.upper() if upper else hexed
""", """    text = hexlify(bytestr).decode()
    if upper:
        text = text.upper()
    return text
""")]),
    dict(id='u5', file=U, edits=[("""    return (data[i : i + size] for i in range(0, len(data), size))
""", """    for start in range(0, len(data), size):
        yield data[start : start + size]
""")]),
    dict(id='u6', file=U, edits=[("""    if val <= 75:
        return int_to_unknown_bytes(val)
    elif val < 256:
        return b'\\x4c' + int_to_unknown_bytes(val)
""", """    if val < 76:
        return bytes([val])
    elif val <= 255:
        return b'\\x4c' + bytes([val])
""")]),
    dict(id='b1', file=B58, edits=[("""    encoded = deque()
    append = encoded.appendleft
    _divmod = divmod

    num = int.from_bytes(bytestr, 'big')

    while num > 0:
        num, rem = _divmod(num, 58)
        append(alphabet[rem])

    encoded = ''.join(encoded)

    pad = 0
    for byte in bytestr:
        if byte == 0:
            pad += 1
        else:
            break

    return '1' * pad + encoded
""", """    num = int.from_bytes(bytestr, 'big')
    encoded = ''
    while num:
        num, rem = divmod(num, 58)
        encoded = alphabet[rem] + encoded

    pad = len(bytestr) - len(bytestr.lstrip(b'\\x00'))

    return '1' * pad + encoded
""")]),
    dict(id='b2', file=B58, edits=[("""    pad = 0
    for char in string:
        if char == '1':
            pad += 1
        else:
            break

    return b'\\x00' * pad + bytestr
""", """    return b'\\x00' * _leading_ones(string) + bytestr
"""), ("""def b58decode(string):
""", """def _leading_ones(string):
    count = 0
    while count < len(string) and string[count] == '1':
        count += 1
    return count


def b58decode(string):
""")]),
    dict(id='b3', file=B58, edits=[("""    try:
        for char in string:
            num *= 58
            num += alphabet_index[char]
    except KeyError:
        raise ValueError('"{}" is an invalid base58 encoded character.'.format(char)) from None
""", """    for char in string:
        if char not in alphabet_index:
            raise ValueError('"{}" is an invalid base58 encoded character.'.format(char))
        num = num * 58 + alphabet_index[char]
""")]),
    dict(id='b4', file=B58, edits=[("""    decoded = b58decode(string)
    shortened = decoded[:-4]
    decoded_checksum = decoded[-4:]
    hash_checksum = double_sha256_checksum(shortened)

    if decoded_checksum != hash_checksum:
        raise ValueError(
            'Decoded checksum {} derived from "{}" is not equal to hash '
            'checksum {}.'.format(decoded_checksum, string, hash_checksum)
        )

    return shortened
""", """    decoded = b58decode(string)
    payload, checksum = decoded[:-4], decoded[-4:]
    expected = double_sha256_checksum(payload)
    if checksum == expected:
        return payload
    raise ValueError('Checksum mismatch: {} != {}'.format(checksum, expected))
""")]),
    dict(id='c1', file=B32, edits=[("""        for i in range(5):
            chk ^= generator[i] if ((top >> i) & 1) else 0
""", """        for i, g in enumerate(generator):
            if (top >> i) & 1:
                chk ^= g
""")]),
    dict(id='c2', file=B32, edits=[("""    if (any(ord(x) < 33 or ord(x) > 126 for x in bech)) or (bech.lower() != bech and bech.upper() != bech):
        return (None, None)
    bech = bech.lower()
    pos = bech.rfind('1')
    if pos < 1 or pos + 7 > len(bech) or len(bech) > 90:
        return (None, None)
    if not all(x in CHARSET for x in bech[pos + 1 :]):
        return (None, None)
    hrp = bech[:pos]
    data = [CHARSET.find(x) for x in bech[pos + 1 :]]
    if not bech32_verify_checksum(hrp, data):
        return (None, None)
    return (hrp, data[:-6])
""", """    invalid = (None, None)
    for x in bech:
        if not 33 <= ord(x) <= 126:
            return invalid
    if bech.lower() != bech and bech.upper() != bech:
        return invalid
    bech = bech.lower()
    pos = bech.rfind('1')
    if pos < 1 or pos + 7 > len(bech) or len(bech) > 90:
        return invalid
    hrp, payload = bech[:pos], bech[pos + 1 :]
    if any(x not in CHARSET for x in payload):
        return invalid
    data = [CHARSET.index(x) for x in payload]
    if bech32_verify_checksum(hrp, data):
        return (hrp, data[:-6])
    return invalid
""")]),
    dict(id='c3', file=B32, edits=[("""    if decoded is None or len(decoded) < 2 or len(decoded) > 40:
        return (None, None)
    if data[0] > 16:
        return (None, None)
    if data[0] == 0 and len(decoded) != 20 and len(decoded) != 32:
        return (None, None)
    return (data[0], decoded)
""", """    if decoded is None or not _valid_program(data[0], decoded):
        return (None, None)
    return (data[0], decoded)
"""), ("""# def decode(hrp, addr):
""", """def _valid_program(version, program):
    if version > 16:
        return False
    if version == 0:
        return len(program) in (20, 32)
    return 2 <= len(program) <= 40


# def decode(hrp, addr):
""")]),
    dict(id='c4', file=B32, edits=[("""    if pad:
        if bits:
            ret.append((acc << (tobits - bits)) & maxv)
    elif bits >= frombits or ((acc << (tobits - bits)) & maxv):
        return None
    return ret
""", """    rest = (acc << (tobits - bits)) & maxv
    if not pad:
        return None if bits >= frombits or rest else ret
    if bits:
        ret.append(rest)
    return ret
""")]),
    dict(id='f1', file=F, edits=[("""    if version in (MAIN_PUBKEY_HASH, MAIN_SCRIPT_HASH) or version in BECH32_MAIN_VERSION_SET:
        return 'main'
    elif version in (TEST_PUBKEY_HASH, TEST_SCRIPT_HASH) or version in BECH32_TEST_VERSION_SET:
        return 'test'
    else:
        raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(version))


def bytes_to_wif""", """    if version == MAIN_PUBKEY_HASH or version == MAIN_SCRIPT_HASH:
        return 'main'
    if version in BECH32_MAIN_VERSION_SET:
        return 'main'
    if version == TEST_PUBKEY_HASH or version == TEST_SCRIPT_HASH:
        return 'test'
    if version in BECH32_TEST_VERSION_SET:
        return 'test'
    raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(version))


def bytes_to_wif""")]),
    dict(id='f2', file=F, edits=[("""    if version == MAIN_PRIVATE_KEY:
        version = 'main'
    elif version == TEST_PRIVATE_KEY:
        version = 'test'
    else:
        raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(version))

    # Remove version byte and, if present, compression flag.
    if len(wif) == 52 and private_key[-1] == 1:
        private_key, compressed = private_key[1:-1], True
    else:
        private_key, compressed = private_key[1:], False

    return private_key, compressed, version
""", """    networks = {MAIN_PRIVATE_KEY: 'main', TEST_PRIVATE_KEY: 'test'}
    if version not in networks:
        raise ValueError('{} does not correspond to a mainnet nor testnet address.'.format(version))
    network = networks[version]

    compressed = len(wif) == 52 and private_key[-1] == 1
    key = private_key[1:-1] if compressed else private_key[1:]

    return key, compressed, network
""")]),
    dict(id='f3', file=F, edits=[("""    if version == 'test':
        version = TEST_SCRIPT_HASH
    else:
        version = MAIN_SCRIPT_HASH

    length = len(public_key)

    if length != 33:
        raise ValueError(
            '{} is an invalid length for a public key. Segwit only uses compressed public keys'.format(length)
        )

    return b58encode_check(version + ripemd160_sha256(b'\\x00\\x14' + ripemd160_sha256(public_key)))
""", """    if len(public_key) != 33:
        raise ValueError('Segwit only uses compressed public keys.')

    redeem = b'\\x00\\x14' + ripemd160_sha256(public_key)
    return b58encode_check(_script_prefix(version) + ripemd160_sha256(redeem))
"""), ("""def public_key_to_segwit_address(""", """def _script_prefix(version):
    return TEST_SCRIPT_HASH if version == 'test' else MAIN_SCRIPT_HASH


def public_key_to_segwit_address("""), ("""    if version == 'test':
        version = TEST_SCRIPT_HASH
    else:
        version = MAIN_SCRIPT_HASH

    return b58encode_check(version + ripemd160_sha256(multisig_to_redeemscript(public_keys, m)))
""", """    script = multisig_to_redeemscript(public_keys, m)
    return b58encode_check(_script_prefix(version) + ripemd160_sha256(script))
""")]),
    dict(id='f4', file=F, edits=[("""    redeemscript = int_to_unknown_bytes(m + 80)

    for key in public_keys:
        length = len(key)

        if length not in (33, 65):
            raise ValueError('At least one of the provided public keys is of invalid length {}.'.format(length))

        redeemscript += script_push(length) + key

    redeemscript += (
        int_to_unknown_bytes(len(public_keys) + 80) + b'\\xae'
    )  # Only works for n = len(public_keys) < 17. OK due to P2SH script-length limitation.
""", """    if any(len(key) not in (33, 65) for key in public_keys):
        raise ValueError('At least one of the provided public keys is of invalid length.')

    pushes = b''.join(script_push(len(key)) + key for key in public_keys)
    redeemscript = int_to_unknown_bytes(m + 80) + pushes + int_to_unknown_bytes(len(public_keys) + 80) + b'\\xae'
""")]),
    dict(id='f5', file=F, edits=[("""    if length == 33:
        flag, x = int.from_bytes(public_key[:1], 'big'), int.from_bytes(public_key[1:], 'big')
        y = x_to_y(x, flag & 1)
    elif length == 65:
        x, y = int.from_bytes(public_key[1:33], 'big'), int.from_bytes(public_key[33:], 'big')
    else:
        raise ValueError('{} is an invalid length for a public key.'.format(length))

    return x, y
""", """    if length not in (33, 65):
        raise ValueError('{} is an invalid length for a public key.'.format(length))

    x = int.from_bytes(public_key[1:33], 'big')
    if length == 33:
        return x, x_to_y(x, public_key[0] & 1)
    return x, int.from_bytes(public_key[33:65], 'big')
""")]),
    dict(id='f6', file=F, edits=[("""    try:
        decoded = b58decode_check(wif)
    except ValueError:
        return False

    if decoded[:1] in (MAIN_PRIVATE_KEY, TEST_PRIVATE_KEY):
        return True

    return False
""", """    try:
        prefix = b58decode_check(wif)[:1]
    except ValueError:
        return False
    else:
        return prefix in (MAIN_PRIVATE_KEY, TEST_PRIVATE_KEY)
""")]),
]
