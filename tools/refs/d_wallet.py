W = 'bit/wallet.py'
M = 'bit/network/meta.py'
REFS = [
    dict(id='w1', file=W, edits=[('def', 'wif_to_key', """
def wif_to_key(wif):
    private_key_bytes, compressed, version = wif_to_bytes(wif)
    key_class = PrivateKey if version == 'main' else PrivateKeyTestnet
    return key_class.from_bytes(private_key_bytes) if compressed else key_class(wif)
""")]),
    dict(id='w2', file=W, edits=[('def', 'BaseKey.__init__', """
    def __init__(self, wif=None):
        compressed = True
        if not wif:
            self._pk = ECPrivateKey()
        elif isinstance(wif, ECPrivateKey):
            self._pk = wif
        elif isinstance(wif, str):
            secret, compressed, _ = wif_to_bytes(wif)
            self._pk = ECPrivateKey(secret)
        else:
            raise TypeError('Wallet Import Format must be a string.')

        self._public_point = None
        self._public_key = self._pk.public_key.format(compressed=compressed)
"""), ('def', 'BaseKey.is_compressed', """
    def is_compressed(self):
        return len(self._public_key) == 33
""")]),
    dict(id='w3', file=W, edits=[('def', 'PrivateKey.can_sign_unspent', """
    def can_sign_unspent(self, unspent):
        addresses = [self.address]
        if self.segwit_address:
            addresses.append(self.segwit_address)
        return any(unspent.script == bytes_to_hex(address_to_scriptpubkey(a)) for a in addresses)
"""), ('def', 'MultiSig.can_sign_unspent', """
    def can_sign_unspent(self, unspent):
        if unspent.script == bytes_to_hex(address_to_scriptpubkey(self.address)):
            return True
        if not self.segwit_address:
            return False
        return unspent.script == bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
"""), ('def', 'PrivateKeyTestnet.can_sign_unspent', """
    def can_sign_unspent(self, unspent):
        scripts = {bytes_to_hex(address_to_scriptpubkey(self.address))}
        if self.segwit_address:
            scripts.add(bytes_to_hex(address_to_scriptpubkey(self.segwit_address)))
        return unspent.script in scripts
""")]),
    dict(id='w4', file=W, edits=[('def', 'PrivateKey.get_unspents', """
    def get_unspents(self):
        kind = 'p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'
        unspents = [u.set_type(kind) for u in NetworkAPI.get_unspent(self.address)]
        self.unspents[:] = unspents
        if self.segwit_address:
            for u in NetworkAPI.get_unspent(self.segwit_address):
                self.unspents.append(u.set_type('np2wkh'))
        self.balance = sum(u.amount for u in self.unspents)
        return self.unspents
"""), ('def', 'MultiSig.get_unspents', """
    def get_unspents(self):
        script_size = len(self.redeemscript)
        p2sh_size = 1 + self.m * 74 + len(int_to_varint(script_size)) + script_size
        legacy_vsize = 40 + len(int_to_varint(p2sh_size)) + p2sh_size
        segwit_vsize = 76 + (1 + p2sh_size) / 4

        self.unspents[:] = [u.set_type('p2sh', legacy_vsize) for u in NetworkAPI.get_unspent(self.address)]
        if self.segwit_address:
            self.unspents.extend(u.set_type('np2wsh', segwit_vsize) for u in NetworkAPI.get_unspent(self.segwit_address))
        self.balance = sum([u.amount for u in self.unspents])
        return self.unspents
""")]),
    dict(id='w5', file=W, edits=[('def', 'PrivateKey.get_transactions', """
    def get_transactions(self):
        transactions = NetworkAPI.get_transactions(self.address)
        self.transactions[:] = transactions
        if self.segwit_address:
            self.transactions.extend(NetworkAPI.get_transactions(self.segwit_address))
        return self.transactions
""")]),
    dict(id='w6', file=W, edits=[("""        # If at least one input is from segwit the return address is for segwit
        return_address = self.segwit_address if any([u.segwit for u in unspents]) else self.address

        unspents, outputs = sanitize_tx_data(
            unspents,
            outputs,
            fee or get_fee_cached(),
            leftover or return_address,
            combine=combine,
            message=message,
            absolute_fee=absolute_fee,
            version=self.version,
            message_is_hex=message_is_hex,
            replace_by_fee=replace_by_fee,
        )

        return create_new_transaction(self, unspents, outputs)
""", """        if not fee:
            fee = get_fee_cached()

        if not leftover:
            # If at least one input is from segwit the return address is for segwit
            leftover = self.address
            for u in unspents:
                if u.segwit:
                    leftover = self.segwit_address
                    break

        options = dict(
            combine=combine,
            message=message,
            absolute_fee=absolute_fee,
            version=self.version,
            message_is_hex=message_is_hex,
            replace_by_fee=replace_by_fee,
        )
        return create_new_transaction(self, *sanitize_tx_data(unspents, outputs, fee, leftover, **options))
""", 1)]),
    dict(id='w7', file=W, edits=[('def', 'PrivateKey.send', """
    def send(
        self,
        outputs,
        fee=None,
        absolute_fee=False,
        leftover=None,
        combine=True,
        message=None,
        unspents=None,
        message_is_hex=False,
        replace_by_fee=False,
    ):  # pragma: no cover
        tx_hex = self.create_transaction(
            outputs, fee, absolute_fee, leftover, combine, message, unspents, message_is_hex, replace_by_fee
        )
        return self._broadcast(tx_hex)

    @staticmethod
    def _broadcast(tx_hex):
        NetworkAPI.broadcast_tx(tx_hex)
        return calc_txid(tx_hex)
""")]),
    dict(id='w8', file=W, edits=[("""        unspents, outputs = sanitize_tx_data(
            unspents or NetworkAPI.get_unspent(address),
            outputs,
            fee or get_fee_cached(),
            leftover or address,
            combine=combine,
            message=message,
            absolute_fee=absolute_fee,
            version='main',
            message_is_hex=message_is_hex,
            replace_by_fee=replace_by_fee,
        )

        data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}

        return json.dumps(data, separators=(',', ':'))
""", """        if not unspents:
            unspents = NetworkAPI.get_unspent(address)
        selected, outputs = sanitize_tx_data(
            unspents,
            outputs,
            fee or get_fee_cached(),
            leftover or address,
            combine=combine,
            message=message,
            absolute_fee=absolute_fee,
            version='main',
            message_is_hex=message_is_hex,
            replace_by_fee=replace_by_fee,
        )
        return _dump_tx_data(selected, outputs)
""", 1), ("""def wif_to_key(wif):
""", """def _dump_tx_data(unspents, outputs):
    data = {}
    data['unspents'] = [u.to_dict() for u in unspents]
    data['outputs'] = outputs
    return json.dumps(data, separators=(',', ':'))


def wif_to_key(wif):
""")]),
    dict(id='w9', file=W, edits=[('def', 'PrivateKey.sign_transaction', """
    def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
        try:  # Json-tx-data from :func:`~bit.Key.prepare_transaction`
            data = json.loads(tx_data)
            assert unspents is None
            prepared = list(map(Unspent.from_dict, data['unspents']))
            return create_new_transaction(self, prepared, data['outputs'])
        except:  # May be hex-encoded transaction using batching:
            try:
                if not unspents:
                    unspents = self.get_unspents()
            except ConnectionError:
                raise ConnectionError('All APIs are unreachable.')
            return sign_tx(self, deserialize(tx_data), unspents=unspents)
""")]),
    dict(id='w10', file=W, edits=[('def', 'MultiSig.__init__', """
    def __init__(self, private_key, public_keys, m):
        if private_key.instance != 'PrivateKey':
            raise TypeError('MultiSig only accepts a PrivateKey class to assign a private key.')

        own = private_key.public_key
        if not (own in public_keys or bytes_to_hex(own) in public_keys):
            raise ValueError('Private key does not match any provided public key.')

        if type(public_keys) is set:
            public_keys = sorted(public_keys)
        elif type(public_keys) is not list:
            raise TypeError('The public keys must be provided in a list or set.')

        self.version = 'main'
        self.instance = 'MultiSig'
        self._pk = private_key
        self.public_key = own
        self.public_keys = [k if type(k) == bytes else hex_to_bytes(k) for k in public_keys]
        self.m = m
        self.redeemscript = multisig_to_redeemscript(self.public_keys, m)
        self.is_compressed = not any(len(p) != 33 for p in self.public_keys)

        self._address = self._segwit_address = None
        self._scriptcode = self._segwit_scriptcode = None

        self.balance = 0
        self.unspents = []
        self.transactions = []
""")]),
    dict(id='w11', file=W, edits=[('def', 'PrivateKey.from_hex', """
    @classmethod
    def from_hex(cls, hexed):
        return cls.from_bytes(ECPrivateKey.from_hex(hexed).secret)
"""), ('def', 'PrivateKey.scriptcode', """
    @property
    def scriptcode(self):
        script = address_to_scriptpubkey(self.address)
        self._scriptcode = script
        return script
""")]),
    dict(id='w12', file=W, edits=[('def', 'PrivateKey.address', """
    @property
    def address(self):
        if self._address is not None:
            return self._address
        self._address = public_key_to_address(self._public_key, self.version)
        return self._address
"""), ('def', 'PrivateKey.segwit_address', """
    @property
    def segwit_address(self):
        if self._segwit_address is None:
            if self.is_compressed():
                self._segwit_address = public_key_to_segwit_address(self._public_key, self.version)
        return self._segwit_address
"""), ('def', 'MultiSig.segwit_scriptcode', """
    @property
    def segwit_scriptcode(self):
        program = sha256(self.redeemscript)
        self._segwit_scriptcode = b''.join((OP_0, OP_PUSH_32, program))
        return self._segwit_scriptcode
""")]),
    dict(id='m1', file=M, edits=[('def', 'Unspent.__init__', """
    def __init__(self, amount, confirmations, script, txid, txindex, type='p2pkh', vsize=None, segwit=None,
                 sequence=int.from_bytes(SEQUENCE, byteorder='little')):
        self.amount = amount
        self.confirmations = confirmations
        self.script = script
        self.txid = txid
        self.txindex = txindex
        self.sequence = sequence
        self.set_type(type, vsize)
"""), ('def', 'Unspent.set_type', """
    def set_type(self, type, vsize=0):
        if type not in UNSPENT_TYPES:
            type = 'unknown'
        info = UNSPENT_TYPES[type]
        self.type = type
        self.vsize = vsize or info['vsize']
        self.segwit = info['segwit']
        return self
""")]),
    dict(id='m2', file=M, edits=[('def', 'Unspent.__eq__', """
    def __eq__(self, other):
        mine = (self.amount, self.script, self.txid, self.txindex, self.segwit, self.sequence)
        theirs = (other.amount, other.script, other.txid, other.txindex, other.segwit, other.sequence)
        return mine == theirs
"""), ('def', 'Unspent.opt_in_for_RBF', """
    def opt_in_for_RBF(self):
        self.sequence = min(self.sequence, 4294967293)
""")]),
    dict(id='m3', file=M, edits=[('def', 'Unspent.__eq__', """
    def __eq__(self, other):
        return all(
            getattr(self, name) == getattr(other, name)
            for name in ('amount', 'script', 'txid', 'txindex', 'segwit', 'sequence')
        )
"""), ('def', 'Unspent.to_dict', """
    def to_dict(self):
        d = {}
        for attr in Unspent.__slots__:
            d[attr] = getattr(self, attr)
        return d
"""), ('def', 'Unspent.from_dict', """
    @classmethod
    def from_dict(cls, d):
        return cls(
            amount=d['amount'],
            confirmations=d['confirmations'],
            script=d['script'],
            txid=d['txid'],
            txindex=d['txindex'],
            type=d['type'],
            vsize=d['vsize'],
            segwit=d['segwit'],
            sequence=d['sequence'],
        )
""")]),
]
