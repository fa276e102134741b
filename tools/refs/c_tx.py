T = 'bit/transaction.py'
REFS = [
    dict(id='t1', file=T, edits=[('def', 'TxObj.__bytes__', """
    def __bytes__(self):
        inp = self._serialize_all(self.TxIn)
        out = self._serialize_all(self.TxOut)
        wit = b''
        for txin in self.TxIn:
            wit += txin.witness
        header = self.version
        if wit:
            header += MARKER + FLAG
        return header + inp + out + wit + self.locktime

    @staticmethod
    def _serialize_all(items):
        result = int_to_varint(len(items))
        for item in items:
            result += bytes(item)
        return result
"""), ('def', 'TxObj.legacy_repr', """
    def legacy_repr(self):
        return self.version + self._serialize_all(self.TxIn) + self._serialize_all(self.TxOut) + self.locktime
""")]),
    dict(id='t2', file=T, edits=[('def', 'TxObj.__init__', """
    def __init__(self, version, TxIn, TxOut, locktime):
        self.version = version
        self.TxIn = TxIn
        self.TxOut = TxOut
        self.locktime = locktime
        if any(i.is_segwit() for i in TxIn):
            for txin in TxIn:
                if not txin.witness:
                    txin.witness = b'\\x00'
"""), ('def', 'TxIn.__bytes__', """
    def __bytes__(self):
        return self.txid + self.txindex + self.script_sig_len + self.script_sig + self.sequence
""")]),
    dict(id='t3', file=T, edits=[('def', 'estimate_tx_fee', """
def _count_size(n):
    return len(int_to_unknown_bytes(n, byteorder='little'))


def estimate_tx_fee(in_size, n_in, out_size, n_out, satoshis, segwit=False):

    if satoshis:
        # Accounting for magic header vBytes ('0001')
        overhead = 8.5 if segwit else 8
        size = math.ceil(in_size + out_size + _count_size(n_in) + _count_size(n_out) + overhead)
        fee = size * satoshis
        logging.debug('Estimated fee: {} satoshis for {} bytes'.format(fee, size))
        return fee

    return 0
""")]),
    dict(id='t4', file=T, edits=[("""        unspents = unspents.copy()
        # Since we have no information on the user's spending habit it is
        # best practice to randomly select UTXOs until we have enough.
        if not consolidate:
            # To have a deterministic way of inserting inputs when
            # consolidating, we only shuffle the unspents otherwise.
            shuffle(unspents)
        while unspents:
            selected_coins.append(unspents.pop(0))
            estimated_fee = estimate_tx_fee(
                sum(u.vsize for u in selected_coins), len(selected_coins), sum(output_size), len(output_size), fee, any(u.segwit for u in selected_coins)
            )
            estimated_fee = fee if absolute_fee else estimated_fee
            remaining = sum(u.amount for u in selected_coins) - target - estimated_fee
            if remaining >= min_change and (not consolidate or len(unspents) == 0):
                break
        else:
            raise InsufficientFunds(
                'Balance {} is less than {} (including '
                'fee).'.format(sum(u.amount for u in selected_coins), target + min_change + estimated_fee)
            )
""", """        candidates = list(unspents)
        if not consolidate:
            shuffle(candidates)
        enough = False
        for n, candidate in enumerate(candidates, 1):
            selected_coins.append(candidate)
            if absolute_fee:
                estimated_fee = fee
            else:
                estimated_fee = estimate_tx_fee(
                    sum(u.vsize for u in selected_coins),
                    len(selected_coins),
                    sum(output_size),
                    len(output_size),
                    fee,
                    any(u.segwit for u in selected_coins),
                )
            remaining = sum(u.amount for u in selected_coins) - target - estimated_fee
            if remaining >= min_change and (not consolidate or n == len(candidates)):
                enough = True
                break
        if not enough:
            raise InsufficientFunds(
                'Balance {} is less than {} (including '
                'fee).'.format(sum(u.amount for u in selected_coins), target + min_change + estimated_fee)
            )
""")]),
    dict(id='t5', file=T, edits=[("""    ins, tx = read_var_int(tx)
    inputs = []
    for i in range(ins):
        txid, tx = read_bytes(tx, 32)
        txindex, tx = read_bytes(tx, 4)
        script_sig, tx = read_var_string(tx)
        sequence, tx = read_bytes(tx, 4)
        inputs.append(TxIn(script_sig, txid, txindex, sequence=sequence))

    outs, tx = read_var_int(tx)
    outputs = []
    for _ in range(outs):
        amount, tx = read_bytes(tx, 8)
        script_pubkey, tx = read_var_string(tx)
        outputs.append(TxOut(amount, script_pubkey))

    if segwit_tx:
        for i in range(ins):
            wnum, tx = read_var_int(tx)
            witness = int_to_varint(wnum)
            for _ in range(wnum):
                w, tx = read_segwit_string(tx)
                witness += w
            inputs[i].witness = witness
""", """    inputs, tx = _read_inputs(tx)
    outputs, tx = _read_outputs(tx)

    if segwit_tx:
        for txin in inputs:
            txin.witness, tx = _read_witness(tx)
"""), ("""def deserialize(tx):
""", """def _read_inputs(tx):
    count, tx = read_var_int(tx)
    inputs = []
    for _ in range(count):
        txid, tx = read_bytes(tx, 32)
        txindex, tx = read_bytes(tx, 4)
        script_sig, tx = read_var_string(tx)
        sequence, tx = read_bytes(tx, 4)
        inputs.append(TxIn(script_sig, txid, txindex, sequence=sequence))
    return inputs, tx


def _read_outputs(tx):
    count, tx = read_var_int(tx)
    outputs = []
    for _ in range(count):
        amount, tx = read_bytes(tx, 8)
        script_pubkey, tx = read_var_string(tx)
        outputs.append(TxOut(amount, script_pubkey))
    return outputs, tx


def _read_witness(tx):
    count, tx = read_var_int(tx)
    items = [int_to_varint(count)]
    for _ in range(count):
        item, tx = read_segwit_string(tx)
        items.append(item)
    return b''.join(items), tx


def deserialize(tx):
""")]),
    dict(id='t5b', file=T, edits=[("""    ins, tx = read_var_int(tx)
    inputs = []
    for i in range(ins):
        txid, tx = read_bytes(tx, 32)
        txindex, tx = read_bytes(tx, 4)
        script_sig, tx = read_var_string(tx)
        sequence, tx = read_bytes(tx, 4)
        inputs.append(TxIn(script_sig, txid, txindex, sequence=sequence))

    outs, tx = read_var_int(tx)
    outputs = []
    for _ in range(outs):
        amount, tx = read_bytes(tx, 8)
        script_pubkey, tx = read_var_string(tx)
        outputs.append(TxOut(amount, script_pubkey))

    if segwit_tx:
        for i in range(ins):
            wnum, tx = read_var_int(tx)
            witness = int_to_varint(wnum)
            for _ in range(wnum):
                w, tx = read_segwit_string(tx)
                witness += w
            inputs[i].witness = witness
""", """    inputs, tx = _read_inputs(tx)
    outputs, tx = _read_outputs(tx)

    if segwit_tx:
        for n in range(len(inputs)):
            txin = inputs[n]
            txin.witness, tx = _read_witness(tx)
"""), ("""def deserialize(tx):
""", """def _read_inputs(tx):
    count, tx = read_var_int(tx)
    inputs = []
    for _ in range(count):
        txid, tx = read_bytes(tx, 32)
        txindex, tx = read_bytes(tx, 4)
        script_sig, tx = read_var_string(tx)
        sequence, tx = read_bytes(tx, 4)
        inputs.append(TxIn(script_sig, txid, txindex, sequence=sequence))
    return inputs, tx


def _read_outputs(tx):
    count, tx = read_var_int(tx)
    outputs = []
    for _ in range(count):
        amount, tx = read_bytes(tx, 8)
        script_pubkey, tx = read_var_string(tx)
        outputs.append(TxOut(amount, script_pubkey))
    return outputs, tx


def _read_witness(tx):
    count, tx = read_var_int(tx)
    items = [int_to_varint(count)]
    for _ in range(count):
        item, tx = read_segwit_string(tx)
        items.append(item)
    return b''.join(items), tx


def deserialize(tx):
""")]),
    dict(id='t6', file=T, edits=[("""    outputs = outputs.copy()

    for i, output in enumerate(outputs):
        dest, amount, currency = output
        outputs[i] = (dest, currency_to_satoshi_cached(amount, currency))

    if not unspents:
        raise ValueError('Transactions must have at least one unspent.')

    # Temporary storage so all outputs precede messages.
    messages = []

    if message:
        if message_is_hex:
            message_chunks = chunk_data(message, MESSAGE_LIMIT)
        else:
            message_chunks = chunk_data(message.encode('utf-8'), MESSAGE_LIMIT)

        for message in message_chunks:
            messages.append((message, 0))
""", """    outputs = [
        (dest, currency_to_satoshi_cached(amount, currency)) for dest, amount, currency in outputs
    ]

    if len(unspents) == 0:
        raise ValueError('Transactions must have at least one unspent.')

    # Temporary storage so all outputs precede messages.
    messages = []

    if message:
        data = message if message_is_hex else message.encode('utf-8')
        messages = [(chunk, 0) for chunk in chunk_data(data, MESSAGE_LIMIT)]
"""), ("""    output_size = [len(address_to_scriptpubkey(o[0])) + 9 for o in outputs]
    output_size.append(len(messages) * (MESSAGE_LIMIT + 9))
    output_size.append(len(address_to_scriptpubkey(leftover)) + 9)
    sum_outputs = sum(out[1] for out in outputs)
""", """    def size_of(address):
        return 9 + len(address_to_scriptpubkey(address))

    output_size = [size_of(address) for address, _ in outputs]
    output_size += [len(messages) * (MESSAGE_LIMIT + 9), size_of(leftover)]
    sum_outputs = 0
    for _, value in outputs:
        sum_outputs += value
"""), ("""    for output in outputs:
        dest, amount = output
        vs = get_version(dest)
        if vs and vs != version:
            raise ValueError('Cannot send to ' + vs + 'net address when spending from a ' + version + 'net address.')

    outputs.extend(messages)

    return unspents, outputs
""", """    for dest, _ in outputs:
        _check_network(dest, version)

    return unspents, outputs + messages
"""), ("""def address_to_scriptpubkey(address):
""", """def _check_network(dest, version):
    vs = get_version(dest)
    if not vs or vs == version:
        return
    raise ValueError('Cannot send to {}net address when spending from a {}net address.'.format(vs, version))


def address_to_scriptpubkey(address):
""")]),
    dict(id='t7', file=T, edits=[('def', 'construct_outputs', """
def construct_outputs(outputs):
    return [_construct_output(dest, amount) for dest, amount in outputs]


def _construct_output(dest, amount):
    if not amount:
        # Blockchain storage
        return TxOut(bytes(8), OP_RETURN + script_push(len(dest)) + dest)
    # P2PKH/P2SH/Bech32
    return TxOut(amount.to_bytes(8, 'little'), address_to_scriptpubkey(dest))
""")]),
    dict(id='t8', file=T, edits=[("""    preimages = []
    for input_index, hash_type, segwit_input in inputs_parameters:
        # We can only handle hashType == 1:
        if hash_type != HASH_TYPE:
            raise ValueError('Bit only support hashType of value 1.')
        # Calculate prehashes:
        if segwit_input:
""", """    def outpoint(i):
        return i.txid + i.txindex

    preimages = []
    for input_index, hash_type, segwit_input in inputs_parameters:
        # We can only handle hashType == 1:
        if hash_type != HASH_TYPE:
            raise ValueError('Bit only support hashType of value 1.')
        current = tx_obj.TxIn[input_index]
        # Calculate prehashes:
        if segwit_input:
"""), ("""                tx_obj.version
                + hashPrevouts
                + hashSequence
                + tx_obj.TxIn[input_index].txid
                + tx_obj.TxIn[input_index].txindex
                + tx_obj.TxIn[input_index].script_sig_len
                + tx_obj.TxIn[input_index].script_sig  # scriptCode length
                + tx_obj.TxIn[input_index].sequence  # scriptCode (includes amount)
                + hashOutputs
                + tx_obj.locktime
                + hash_type
""", """                tx_obj.version
                + hashPrevouts
                + hashSequence
                + outpoint(current)
                + current.script_sig_len
                + current.script_sig  # scriptCode (includes amount)
                + current.sequence
                + hashOutputs
                + tx_obj.locktime
                + hash_type
"""), ("""                + b''.join(ti.txid + ti.txindex + OP_0 + ti.sequence for ti in islice(tx_obj.TxIn, input_index))
                + tx_obj.TxIn[input_index].txid
                + tx_obj.TxIn[input_index].txindex
                + tx_obj.TxIn[input_index].script_sig_len
                + tx_obj.TxIn[input_index].script_sig  # scriptCode length
                + tx_obj.TxIn[input_index].sequence  # scriptCode
                + b''.join(
                    ti.txid + ti.txindex + OP_0 + ti.sequence for ti in islice(tx_obj.TxIn, input_index + 1, None)
                )
""", """                + b''.join(outpoint(ti) + OP_0 + ti.sequence for ti in tx_obj.TxIn[:input_index])
                + bytes(current)
                + b''.join(outpoint(ti) + OP_0 + ti.sequence for ti in tx_obj.TxIn[input_index + 1:])
""")]),
    dict(id='t9', file=T, edits=[("""            witness = b''
            # Sort ingthe signatures according to the public-key list:
            for pub in private_key.public_keys:
                if pub in sigs:
                    sig = sigs[pub]
                    length = int_to_varint(len(sig)) if segwit_input else script_push(len(sig))
                    witness += length + sig

            script_sig = b'\\x22' + private_key.segwit_scriptcode

            witness = (int_to_varint(witness_count) if segwit_input else b'') + b'\\x00' + witness + script_blob
            witness += (
                int_to_varint(len(private_key.redeemscript))
                if segwit_input
                else script_push(len(private_key.redeemscript))
            ) + private_key.redeemscript

            script_sig = script_sig if segwit_input else witness
            witness = witness if segwit_input else b'\\x00' if segwit_tx else b''
""", """            push = int_to_varint if segwit_input else script_push
            ordered = [sigs[pub] for pub in private_key.public_keys if pub in sigs]
            stack = b'\\x00' + b''.join(push(len(sig)) + sig for sig in ordered) + script_blob
            stack += push(len(private_key.redeemscript)) + private_key.redeemscript

            if segwit_input:
                script_sig = b'\\x22' + private_key.segwit_scriptcode
                witness = int_to_varint(witness_count) + stack
            else:
                script_sig = stack
                witness = b'\\x00' if segwit_tx else b''
""")]),
    dict(id='t10', file=T, edits=[("""    input_dict = {}
    try:
        for unspent in unspents:
            if not private_key.can_sign_unspent(unspent):
                continue
            tx_input = hex_to_bytes(unspent.txid)[::-1] + unspent.txindex.to_bytes(4, byteorder='little')
            input_dict[tx_input] = unspent.to_dict()
    except TypeError:
""", """    try:
        input_dict = {
            hex_to_bytes(unspent.txid)[::-1] + unspent.txindex.to_bytes(4, byteorder='little'): unspent.to_dict()
            for unspent in unspents
            if private_key.can_sign_unspent(unspent)
        }
    except TypeError:
"""), ("""    input_script_field = [tx.TxIn[i].script_sig for i in range(len(tx.TxIn))]
""", """    input_script_field = [txin.script_sig for txin in tx.TxIn]
"""), ("""    for i in sign_inputs:
        # Create transaction object for preimage calculation
        tx_input = tx.TxIn[i].txid + tx.TxIn[i].txindex
        segwit_input = input_dict[tx_input]['segwit']
        tx.TxIn[i].segwit_input = segwit_input

        script_code = private_key.scriptcode
        script_code_len = int_to_varint(len(script_code))

        # Use scriptCode for preimage calculation of transaction object:
        tx.TxIn[i].script_sig = script_code
        tx.TxIn[i].script_sig_len = script_code_len

        if segwit_input:
            try:
                tx.TxIn[i].script_sig += input_dict[tx_input]['amount'].to_bytes(8, byteorder='little')
""", """    script_code = private_key.scriptcode
    script_code_len = int_to_varint(len(script_code))

    for i in sign_inputs:
        # Create transaction object for preimage calculation
        spent = input_dict[tx.TxIn[i].txid + tx.TxIn[i].txindex]
        segwit_input = spent['segwit']
        tx.TxIn[i].segwit_input = segwit_input

        # Use scriptCode for preimage calculation of transaction object:
        tx.TxIn[i].script_sig = script_code
        tx.TxIn[i].script_sig_len = script_code_len

        if segwit_input:
            try:
                tx.TxIn[i].script_sig = script_code + spent['amount'].to_bytes(8, byteorder='little')
""")]),
    dict(id='t11', file=T, edits=[("""    # Optimize for speed, not memory, by pre-computing values.
    inputs = []
    for unspent in unspents:
        script_sig = b''  # empty scriptSig for new unsigned transaction.
        txid = hex_to_bytes(unspent.txid)[::-1]
        txindex = unspent.txindex.to_bytes(4, byteorder='little')
        amount = int(unspent.amount).to_bytes(8, byteorder='little')
        sequence = unspent.sequence.to_bytes(4, byteorder='little')
        inputs.append(TxIn(script_sig, txid, txindex, amount=amount, segwit_input=unspent.segwit,
                           sequence=sequence))

    tx_unsigned = TxObj(version, inputs, outputs, lock_time)

    tx = sign_tx(private_key, tx_unsigned, unspents=unspents)
    return tx
""", """    inputs = [_unsigned_input(unspent) for unspent in unspents]
    return sign_tx(private_key, TxObj(version, inputs, outputs, lock_time), unspents=unspents)


def _unsigned_input(unspent):
    return TxIn(
        b'',
        bytes(reversed(hex_to_bytes(unspent.txid))),
        unspent.txindex.to_bytes(4, 'little'),
        amount=int(unspent.amount).to_bytes(8, 'little'),
        sequence=unspent.sequence.to_bytes(4, 'little'),
        segwit_input=unspent.segwit,
    )
""")]),
    dict(id='t12', file=T, edits=[("""    if version == MAIN_PUBKEY_HASH or version == TEST_PUBKEY_HASH:
        return OP_DUP + OP_HASH160 + OP_PUSH_20 + address_to_public_key_hash(address) + OP_EQUALVERIFY + OP_CHECKSIG
    elif version == MAIN_SCRIPT_HASH or version == TEST_SCRIPT_HASH:
        return OP_HASH160 + OP_PUSH_20 + address_to_public_key_hash(address) + OP_EQUAL
""", """    hash160_push = OP_HASH160 + OP_PUSH_20 + address_to_public_key_hash(address)
    if version in (MAIN_PUBKEY_HASH, TEST_PUBKEY_HASH):
        return OP_DUP + hash160_push + OP_EQUALVERIFY + OP_CHECKSIG
    return hash160_push + OP_EQUAL
""")]),
    dict(id='t13', file=T, edits=[("""                for sig in sig_list:
                    for pub in private_key.public_keys:
                        if verify_sig(sig[:-1], hash, pub):
                            # If we already found a valid signature for pubkey
                            # we just overwrite it and don't care.
                            sigs[pub] = sig
""", """                for sig in sig_list:
                    signers = [pub for pub in private_key.public_keys if verify_sig(sig[:-1], hash, pub)]
                    for pub in signers:
                        sigs[pub] = sig
""")]),
    dict(id='t14', file=T, edits=[("""            binary_random = randint(0, 1)
            if binary_random:
                # Explore inclusion branch first, else omission branch:
                effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize

                with_this = branch_and_bound(
                    d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
                )

                if with_this != []:
                    return with_this
                else:
                    without_this = branch_and_bound(
                        d + 1, selected_coins, effective_value, target, fee, sorted_unspents
                    )

                    return without_this

            else:
                # As above but explore omission branch first:
                without_this = branch_and_bound(d + 1, selected_coins, effective_value, target, fee, sorted_unspents)

                if without_this != []:
                    return without_this
                else:
                    effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize

                    with_this = branch_and_bound(
                        d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
                    )

                    return with_this
""", """            coin = sorted_unspents[d]
            inclusion = (selected_coins + [coin], effective_value + coin.amount - fee * coin.vsize)
            omission = (selected_coins, effective_value)
            branches = (inclusion, omission) if randint(0, 1) else (omission, inclusion)
            result = []
            for coins, value in branches:
                result = branch_and_bound(d + 1, coins, value, target, fee, sorted_unspents)
                if result != []:
                    break
            return result
""")]),
]
