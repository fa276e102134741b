S = 'bit/network/services.py'
REFS = [
    # shared status check
    dict(id='n1', file=S, edits=[("""class RPCHost:
""", """def _checked(r):
    if r.status_code != 200:
        raise ConnectionError
    return r


class RPCHost:
"""), ('def', 'BlockchairAPI.get_balance', """
    @classmethod
    def get_balance(cls, address):
        r = _checked(requests.get(cls.MAIN_ADDRESS_API.format(address), timeout=DEFAULT_TIMEOUT))
        return r.json()['data'][address]['address']['balance']
"""), ('def', 'SmartbitAPI.get_balance', """
    @classmethod
    def get_balance(cls, address):
        r = _checked(requests.get(cls.MAIN_ADDRESS_API.format(address), params={'limit': '1'}, timeout=DEFAULT_TIMEOUT))
        total = r.json()['address']['total']
        return total['balance_int']
"""), ('def', 'BlockstreamAPI.get_balance', """
    @classmethod
    def get_balance(cls, address):
        r = _checked(requests.get(cls.MAIN_ADDRESS_API.format(address), timeout=DEFAULT_TIMEOUT))
        response = r.json()
        chain, mempool = response['chain_stats'], response['mempool_stats']
        return sum(s['funded_txo_sum'] - s['spent_txo_sum'] for s in (chain, mempool))
""")]),
    # private helper shared by both networks
    dict(id='n2', file=S, edits=[('def', 'BlockchairAPI.get_transactions', """
    @classmethod
    def _all_transactions(cls, endpoint, address):
        transactions = []
        offset = 0
        txs_per_page = 1000
        payload = {'offset': str(offset), 'limit': str(txs_per_page)}

        r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
        if r.status_code == 404:  # pragma: no cover
            return []
        if r.status_code != 200:  # pragma: no cover
            raise ConnectionError
        response = r.json()['data'][address]
        total_txs = response['address']['transaction_count']

        while total_txs > 0:
            transactions += response['transactions']
            total_txs -= txs_per_page
            offset += txs_per_page
            payload['offset'] = str(offset)
            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
            if r.status_code != 200:  # pragma: no cover
                raise ConnectionError
            response = r.json()['data'][address]

        return transactions

    @classmethod
    def get_transactions(cls, address):
        return cls._all_transactions(cls.MAIN_ADDRESS_API, address)
"""), ('def', 'BlockchairAPI.get_transactions_testnet', """
    @classmethod
    def get_transactions_testnet(cls, address):
        return cls._all_transactions(cls.TEST_ADDRESS_API, address)
""")]),
    # offset computed from the list, range loop
    dict(id='n3', file=S, edits=[('def', 'BlockchainAPI.get_transactions', """
    @classmethod
    def get_transactions(cls, address):
        url = cls.ADDRESS_API.format(address)
        page_size = 50

        def page(offset):
            r = requests.get(url, params={'offset': str(offset)}, timeout=DEFAULT_TIMEOUT)
            if r.status_code != 200:  # pragma: no cover
                raise ConnectionError
            return r.json()

        response = page(0)
        remaining = response['n_tx']
        offset = 0
        transactions = []
        while remaining > 0:
            for tx in response['txs']:
                transactions.append(tx['hash'])
            remaining -= page_size
            offset += page_size
            response = page(offset)
        return transactions
""")]),
    # Unspent built by a helper
    dict(id='n4', file=S, edits=[('def', 'BlockchairAPI.get_unspent', """
    @classmethod
    def _to_unspent(cls, utxo, block_height, script_pubkey):
        confirmations = 0
        if utxo['block_id'] != -1:
            confirmations = block_height - utxo['block_id'] + 1
        return Unspent(
            amount=utxo['value'],
            confirmations=confirmations,
            script=script_pubkey,
            txid=utxo['transaction_hash'],
            txindex=utxo['index'],
        )

    @classmethod
    def get_unspent(cls, address):
        endpoint = cls.MAIN_ADDRESS_API.format(address)

        unspents = []
        offset = 0
        unspents_per_page = 1000
        payload = {'offset': str(offset), 'limit': str(unspents_per_page)}

        r = requests.get(endpoint, params=payload, timeout=DEFAULT_TIMEOUT)
        if r.status_code == 404:  # pragma: no cover
            return []
        if r.status_code != 200:  # pragma: no cover
            raise ConnectionError
        response = r.json()

        block_height = response['context']['state']
        response = response['data'][address]
        script_pubkey = response['address']['script_hex']
        total_unspents = response['address']['unspent_output_count']

        while total_unspents > 0:
            for utxo in response['utxo']:
                unspents.append(cls._to_unspent(utxo, block_height, script_pubkey))

            total_unspents -= unspents_per_page
            offset += unspents_per_page
            payload['offset'] = str(offset)
            r = requests.get(endpoint, params=payload, timeout=DEFAULT_TIMEOUT)
            if r.status_code != 200:  # pragma: no cover
                raise ConnectionError
            response = r.json()['data'][address]

        return unspents
""")]),
    dict(id='n5', file=S, edits=[('def', 'BlockstreamAPI.get_unspent', """
    @classmethod
    def get_unspent(cls, address):
        block_height = cls._tip_height(cls.MAIN_ENDPOINT)
        r = requests.get(cls.MAIN_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)

        #! BlockstreamAPI blocks addresses with "too many" UTXOs.
        if r.status_code != 200:
            if r.status_code == 400 and r.text == "Too many history entries":
                raise ExcessiveAddress
            raise ConnectionError

        unspents = cls._unspents(r.json(), address, block_height)
        unspents.sort(key=lambda u: u.confirmations)
        return unspents

    @staticmethod
    def _tip_height(endpoint):
        r = requests.get(endpoint + 'blocks/tip/height', timeout=DEFAULT_TIMEOUT)
        if r.status_code != 200:  # pragma: no cover
            raise ConnectionError
        return int(r.text)

    @staticmethod
    def _unspents(entries, address, block_height):
        script_pubkey = bytes_to_hex(address_to_scriptpubkey(address))
        result = []
        for tx in entries:
            status = tx["status"]
            depth = block_height - status["block_height"] + 1 if status["confirmed"] else 0
            result.append(Unspent(tx["value"], depth, script_pubkey, tx["txid"], tx["vout"]))
        return result
""")]),
    dict(id='n6', file=S, edits=[('def', 'BlockstreamAPI.get_transactions_testnet', """
    @classmethod
    def get_transactions_testnet(cls, address):
        endpoint = cls.TEST_ADDRESS_API + '/txs/chain/{}'
        transactions = []
        last_seen = ''
        first_page = True
        while True:
            r = requests.get(endpoint.format(address, last_seen), timeout=DEFAULT_TIMEOUT)
            if first_page and r.status_code == 400:  # pragma: no cover
                return []
            if r.status_code != 200:  # pragma: no cover
                raise ConnectionError
            first_page = False
            response = r.json()
            if len(response) == 0:
                break
            transactions.extend(tx['txid'] for tx in response)
            last_seen = transactions[-1]
        return transactions
""")]),
    dict(id='n7', file=S, edits=[('def', 'BitcoreAPI.get_unspent', """
    @classmethod
    def get_unspent(cls, address):
        base = (cls.MAIN_UNSPENT_API + "&limit=100").format(address)
        url = base
        unspents = []
        while True:
            r = requests.get(url, timeout=DEFAULT_TIMEOUT)
            if r.status_code != 200:  # pragma: no cover
                raise ConnectionError
            response = r.json()
            if not response:
                return unspents
            unspents += [
                Unspent(
                    currency_to_satoshi(tx['value'], 'satoshi'),
                    tx['confirmations'],
                    tx['script'],
                    tx['mintTxid'],
                    tx['mintIndex'],
                )
                for tx in response
            ]
            url = base + "&since={}".format(response[-1]['_id'])
""")]),
    dict(id='n8', file=S, edits=[('def', 'SmartbitAPI.get_unspent', """
    @staticmethod
    def _parse_unspents(entries):
        return [
            Unspent(
                currency_to_satoshi(tx['value'], 'btc'),
                tx['confirmations'],
                tx['script_pub_key']['hex'],
                tx['txid'],
                tx['n'],
            )
            for tx in entries
        ]

    @classmethod
    def get_unspent(cls, address):
        txs_per_page = 1000
        payload = {'limit': str(txs_per_page)}
        r = requests.get(cls.MAIN_UNSPENT_API.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
        if r.status_code != 200:  # pragma: no cover
            raise ConnectionError

        response = r.json()

        if 'unspent' not in response:
            return []
        unspents = cls._parse_unspents(response['unspent'])
        next_link = response['paging']['next_link']

        while next_link:
            r = requests.get(next_link, params=payload, timeout=DEFAULT_TIMEOUT)
            if r.status_code != 200:  # pragma: no cover
                raise ConnectionError
            response = r.json()
            unspents.extend(cls._parse_unspents(response['unspent']))
            next_link = response['paging']['next_link']

        return unspents
""")]),
    dict(id='n9', file=S, edits=[('def', 'BlockchainAPI.get_unspent', """
    @classmethod
    def get_unspent(cls, address):
        payload = dict(active=address, offset='0', limit='1000')
        r = requests.get(cls.UNSPENT_API, params=payload, timeout=DEFAULT_TIMEOUT)
        if r.status_code == 500:  # pragma: no cover
            return []
        if r.status_code != 200:  # pragma: no cover
            raise ConnectionError
        outputs = r.json()['unspent_outputs']
        if len(outputs) == 1000:
            raise ExcessiveAddress
        unspents = []
        for tx in reversed(outputs):
            unspents.append(
                Unspent(tx['value'], tx['confirmations'], tx['script'], tx['tx_hash_big_endian'], tx['tx_output_n'])
            )
        return unspents
""")]),
    # failover helper
    dict(id='n10', file=S, edits=[('def', 'NetworkAPI.get_balance', """
    @classmethod
    def _first_answer(cls, api_calls, *args):
        for api_call in api_calls:
            try:
                return api_call(*args)
            except cls.IGNORED_ERRORS:
                continue
        raise ConnectionError('All APIs are unreachable.')

    @classmethod
    def get_balance(cls, address):
        return cls._first_answer(cls.GET_BALANCE_MAIN, address)
"""), ('def', 'NetworkAPI.get_balance_testnet', """
    @classmethod
    def get_balance_testnet(cls, address):
        return cls._first_answer(cls.GET_BALANCE_TEST, address)
"""), ('def', 'NetworkAPI.get_unspent', """
    @classmethod
    def get_unspent(cls, address):
        return cls._first_answer(cls.GET_UNSPENT_MAIN, address)
"""), ('def', 'NetworkAPI.get_transactions', """
    @classmethod
    def get_transactions(cls, address):
        return cls._first_answer(cls.GET_TRANSACTIONS_MAIN, address)
""")]),
    dict(id='n11', file=S, edits=[('def', 'RPCMethod.__call__', """
    def __call__(self, *args):
        host = self._host
        payload = json.dumps({"jsonrpc": "2.0", "method": self._rpc_method, "params": list(args)})
        try:
            response = host._session.post(host._url, data=payload, headers=host._headers)
        except requests.exceptions.ConnectionError:
            raise ConnectionError
        if response.status_code != 200 and response.status_code != 500:
            raise BitcoinNodeException(
                "RPC connection failure: {} {}".format(response.status_code, response.reason)
            )
        answer = response.json()
        error = answer.get("error")
        if error is not None:
            raise BitcoinNodeException("Error in RPC call: {}".format(error))
        return answer["result"]
""")]),
    dict(id='n12', file=S, edits=[('def', 'RPCHost.get_transactions', """
    def get_transactions(self, address):
        received = self.listreceivedbyaddress(0, True, True, address)
        return received[0]["txids"] if received else received
"""), ('def', 'RPCHost.broadcast_tx', """
    def broadcast_tx(self, tx_hex):
        sent = True
        try:
            self.sendrawtransaction(tx_hex)
        except BitcoinNodeException as error:
            logging.warning(error)
            sent = False
        return sent
"""), ('def', 'RPCHost.get_unspent', """
    def get_unspent(self, address):
        unspents = []
        for tx in self.listunspent(0, 9999999, [address]):
            amount = currency_to_satoshi(tx["amount"], "btc")
            unspents.append(
                Unspent(amount, tx["confirmations"], tx["scriptPubKey"], tx["txid"], tx["vout"])
            )
        return unspents
""")]),
    dict(id='n13', file=S, edits=[("""        return True if r.status_code == 200 else False""", """        return r.status_code == 200""", 0)]),
    dict(id='n14', file=S, edits=[('def', 'BlockstreamAPI.get_transactions', """
    @classmethod
    def get_transactions(
        cls, address,
    ):
        chain_endpoint = cls.MAIN_ADDRESS_API + '/txs/chain/{}'

        r = requests.get((cls.MAIN_ADDRESS_API + '/txs/mempool').format(address), timeout=DEFAULT_TIMEOUT)
        if r.status_code == 400:  # pragma: no cover
            return []
        if r.status_code != 200:  # pragma: no cover
            raise ConnectionError
        unconfirmed = []
        for tx in r.json():
            unconfirmed.append(tx['txid'])
        if len(unconfirmed) == 50:  # pragme: no cover
            raise ExcessiveAddress

        r = requests.get(chain_endpoint.format(address, ''), timeout=DEFAULT_TIMEOUT)
        if r.status_code == 400:  # pragma: no cover
            return []
        if r.status_code != 200:  # pragma: no cover
            raise ConnectionError
        page = r.json()

        confirmed = []
        while page:
            confirmed.extend([tx['txid'] for tx in page])
            r = requests.get(chain_endpoint.format(address, confirmed[-1]), timeout=DEFAULT_TIMEOUT)
            if r.status_code != 200:  # pragma: no cover
                raise ConnectionError
            page = r.json()

        return confirmed + unconfirmed
""")]),
    dict(id='n15', file=S, edits=[("""        if testnet is False:
            cls.GET_BALANCE_MAIN = [node.get_balance]
            cls.GET_TRANSACTIONS_MAIN = [node.get_transactions]
            cls.GET_TRANSACTION_BY_ID_MAIN = [node.get_transaction_by_id]
            cls.GET_UNSPENT_MAIN = [node.get_unspent]
            cls.BROADCAST_TX_MAIN = [node.broadcast_tx]
        else:
            cls.GET_BALANCE_TEST = [node.get_balance_testnet]
            cls.GET_TRANSACTIONS_TEST = [node.get_transactions_testnet]
            cls.GET_TRANSACTION_BY_ID_TEST = [node.get_transaction_by_id_testnet]
            cls.GET_UNSPENT_TEST = [node.get_unspent_testnet]
            cls.BROADCAST_TX_TEST = [node.broadcast_tx_testnet]

        return node
""", """        if testnet is not False:
            cls._use_for_testnet(node)
            return node
        cls.GET_BALANCE_MAIN = [node.get_balance]
        cls.GET_TRANSACTIONS_MAIN = [node.get_transactions]
        cls.GET_TRANSACTION_BY_ID_MAIN = [node.get_transaction_by_id]
        cls.GET_UNSPENT_MAIN = [node.get_unspent]
        cls.BROADCAST_TX_MAIN = [node.broadcast_tx]
        return node

    @classmethod
    def _use_for_testnet(cls, node):
        cls.BROADCAST_TX_TEST = [node.broadcast_tx_testnet]
        cls.GET_BALANCE_TEST = [node.get_balance_testnet]
        cls.GET_TRANSACTIONS_TEST = [node.get_transactions_testnet]
        cls.GET_TRANSACTION_BY_ID_TEST = [node.get_transaction_by_id_testnet]
        cls.GET_UNSPENT_TEST = [node.get_unspent_testnet]
""")]),
]
