F = 'bit/network/fees.py'
R = 'bit/network/rates.py'
N = 'bit/network/services.py'
K = 'bit/keygen.py'
C = 'bit/curve.py'
Y = 'bit/crypto.py'
REFS = [
    dict(id='r1', file=F, edits=[('def', 'get_fee_local_cache', """
def get_fee_local_cache(f):

    cached = {'fastestFee': None, 'hourFee': None}
    updated = {'fastestFee': time(), 'hourFee': time()}
    defaults = {'fastestFee': DEFAULT_FEE_FAST, 'hourFee': DEFAULT_FEE_HOUR}

    @wraps(f)
    def wrapper(fast=True):
        now = time()
        key = 'fastestFee' if fast else 'hourFee'

        if not cached[key] or now - updated[key] > DEFAULT_CACHE_TIME:
            try:
                request = requests.get(URL)
                request.raise_for_status()
                cached[key] = request.json()[key]
                updated[key] = now
            except (ConnectionError, HTTPError, Timeout):  # pragma: no cover
                if cached[key] is None:
                    logging.warning('Connection to fee API failed, returning default fee.')
                    return defaults[key]
                logging.warning('Connection to fee API failed, returning cached fee.')

        return cached[key]

    return wrapper
""")]),
    dict(id='r2', file=F, edits=[("""                try:
                    request = requests.get(URL)
                    # If we have a non 2XX status code, raise HTTPError.
                    request.raise_for_status()
                    # Otherwise, try to parse json as normal.
                    cached_fee_fast = request.json()['fastestFee']
                    fast_last_update = now
""", """                try:
                    cached_fee_fast = get_fee(True)
                    fast_last_update = now
"""), ("""                try:
                    request = requests.get(URL)
                    # If we have a non 2XX status code, raise HTTPError.
                    request.raise_for_status()
                    # Otherwise, try to parse json as normal.
                    cached_fee_hour = request.json()['hourFee']
                    hour_last_update = now
""", """                try:
                    cached_fee_hour = get_fee(fast=False)
                    hour_last_update = now
""")]),
    dict(id='r3', file=F, edits=[('def', 'get_fee_local_cache', """
def _fetch(name):
    response = requests.get(URL)
    response.raise_for_status()
    return response.json()[name]


class _CachedFee:
    def __init__(self, name, default):
        self.name = name
        self.default = default
        self.value = None
        self.last_update = time()

    def get(self):
        now = time()
        if self.value and now - self.last_update <= DEFAULT_CACHE_TIME:
            return self.value
        try:
            self.value = _fetch(self.name)
            self.last_update = now
        except (ConnectionError, HTTPError, Timeout):
            if self.value is None:
                logging.warning('Connection to fee API failed, returning default fee of {}'.format(self.default))
                return self.default
            logging.warning('Connection to fee API failed, returning cached fee.')
        return self.value


def get_fee_local_cache(f):
    fast_fee = _CachedFee('fastestFee', DEFAULT_FEE_FAST)
    hour_fee = _CachedFee('hourFee', DEFAULT_FEE_HOUR)

    @wraps(f)
    def wrapper(fast=True):
        return fast_fee.get() if fast else hour_fee.get()

    return wrapper
""")]),
    dict(id='r4', file=F, edits=[('def', 'get_fee', """
def get_fee(fast=True):
    response = requests.get(URL)
    response.raise_for_status()
    fees = response.json()
    if fast:
        return fees['fastestFee']
    return fees['hourFee']
""")]),
    dict(id='r5', file=R, edits=[('def', 'currency_to_satoshi_local_cache', """
def currency_to_satoshi_local_cache(f):
    start_time = time()

    cached_rates = {currency: CachedRate(None, start_time) for currency in EXCHANGE_RATES}

    def expired(rate, now):
        return now - rate.last_update > DEFAULT_CACHE_TIME

    @wraps(f)
    def wrapper(amount, currency):
        now = time()
        rate = cached_rates[currency]
        if not rate.satoshis or expired(rate, now):
            satoshis = EXCHANGE_RATES[currency]()
            rate.satoshis = satoshis
            rate.last_update = now
        return int(Decimal(amount) * rate.satoshis)

    return wrapper
""")]),
    dict(id='r6', file=R, edits=[('def', 'satoshi_to_currency', """
def _format_amount(num, rate, currency):
    exact = Decimal(num / Decimal(rate))
    step = Decimal('0.' + '0' * CURRENCY_PRECISION[currency])
    return '{:f}'.format(exact.quantize(step, rounding=ROUND_DOWN).normalize())


def satoshi_to_currency(num, currency):
    return _format_amount(num, EXCHANGE_RATES[currency](), currency)
"""), ('def', 'satoshi_to_currency_cached', """
def satoshi_to_currency_cached(num, currency):
    return _format_amount(num, currency_to_satoshi_cached(1, currency), currency)
"""), ('def', 'currency_to_satoshi', """
def currency_to_satoshi(amount, currency):
    rate = EXCHANGE_RATES[currency]
    return int(Decimal(amount) * rate())
""")]),
    dict(id='r7', file=R, edits=[('def', 'RatesAPI.usd_to_satoshi', """
    @classmethod
    def _first_rate(cls, api_calls):
        for api_call in api_calls:
            try:
                return api_call()
            except cls.IGNORED_ERRORS:
                continue
        raise ConnectionError('All APIs are unreachable.')

    @classmethod
    def usd_to_satoshi(cls):  # pragma: no cover
        return cls._first_rate(cls.USD_RATES)
"""), ('def', 'RatesAPI.eur_to_satoshi', """
    @classmethod
    def eur_to_satoshi(cls):  # pragma: no cover
        return cls._first_rate(cls.EUR_RATES)
"""), ('def', 'RatesAPI.jpy_to_satoshi', """
    @classmethod
    def jpy_to_satoshi(cls):  # pragma: no cover
        return cls._first_rate(cls.JPY_RATES)
""")]),
    dict(id='r8', file=R, edits=[('def', 'BitpayRates.currency_to_satoshi', """
    @classmethod
    def currency_to_satoshi(cls, currency):
        url = '{}{}'.format(cls.SINGLE_RATE, currency)
        response = requests.get(url, headers={"x-accept-version": "2.0.0", "Accept": "application/json"})
        response.raise_for_status()
        data = response.json()['data']
        rate = Decimal(data['rate'])
        return int(ONE / rate * BTC)
"""), ('def', 'BlockchainRates.currency_to_satoshi', """
    @classmethod
    def currency_to_satoshi(cls, currency):
        response = requests.get(cls.SINGLE_RATE.format(currency))
        response.raise_for_status()
        return int(BTC * Decimal(response.text))
""")]),
    dict(id='r9', file=R, edits=[('def', 'CachedRate', """
class CachedRate:
    __slots__ = ('satoshis', 'last_update')

    def __init__(self, satoshis, last_update):
        self.satoshis = satoshis
        self.last_update = last_update

    def is_stale(self, now):
        return not self.satoshis or now - self.last_update > DEFAULT_CACHE_TIME

    def refresh(self, satoshis, now):
        self.satoshis = satoshis
        self.last_update = now
"""), ("""        if not cached_rate.satoshis or now - cached_rate.last_update > DEFAULT_CACHE_TIME:
            cached_rate.satoshis = EXCHANGE_RATES[currency]()
            cached_rate.last_update = now
""", """        if cached_rate.is_stale(now):
            cached_rate.refresh(EXCHANGE_RATES[currency](), now)
""")]),
    dict(id='k1', file=K, edits=[('def', 'generate_matching_address', """
def _worker_count(cores):
    available = cpu_count()
    if cores == 'all':
        return available
    if 0 < int(cores) <= available:
        return int(cores)
    return 1


def generate_matching_address(prefix, cores='all'):  # pragma: no cover
    bad = [char for char in prefix if char not in BASE58_ALPHABET]
    if bad:
        raise ValueError('{} is an invalid base58 encoded character.'.format(bad[0]))

    if not prefix:
        return generate_key_address_pair()
    if prefix[0] != '1':
        prefix = '1' + prefix

    counter = Value('i')
    match = Event()
    queue = Queue()

    workers = [
        Process(target=generate_key_address_pairs, args=(prefix, counter, match, queue))
        for _ in range(_worker_count(cores))
    ]
    for worker in workers:
        worker.start()

    keys_generated = 0
    while True:
        time.sleep(1)
        current = counter.value
        if current == keys_generated:
            if current == 0:
                continue
            break
        keys_generated = current
        sys.stdout.write('Keys generated: {}\\r'.format(keys_generated))
        sys.stdout.flush()

    private_key, address = queue.get()
    print('\\n\\n' 'WIF: {}\\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
""")]),
    dict(id='k2', file=K, edits=[('def', 'generate_key_address_pairs', """
def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
    context = Context()

    while not match.is_set():
        with counter.get_lock():
            counter.value += 1

        key = ECPrivateKey(context=context)
        public_key = key.public_key.format()
        address = b58encode_check(b'\\x00' + ripemd160_sha256(public_key))

        if address.startswith(prefix):
            match.set()
            queue.put_nowait((key.secret, address))
            return
"""), ('def', 'generate_key_address_pair', """
def generate_key_address_pair():  # pragma: no cover
    key = ECPrivateKey()
    wif = bytes_to_wif(key.secret, compressed=True)
    return wif, public_key_to_address(key.public_key.format())
""")]),
    dict(id='c10', file=C, edits=[('def', 'x_to_y', """
def x_to_y(x, y_parity):
    y = pow(x * x * x + 7, TONELLI_SHANKS_CONSTANT, FIELD_SIZE)
    return y if y % 2 == y_parity else FIELD_SIZE - y
""")]),
    dict(id='n20', file=N, edits=[('def', 'NetworkAPI.broadcast_tx', """
    @classmethod
    def broadcast_tx(cls, tx_hex):  # pragma: no cover
        success = None

        for api_call in cls.BROADCAST_TX_MAIN:
            try:
                success = api_call(tx_hex)
            except cls.IGNORED_ERRORS:
                continue
            if success:
                return

        if success is not None:
            raise ConnectionError('Transaction broadcast failed, or Unspents were already used.')
        raise ConnectionError('All APIs are unreachable.')
""")]),
    dict(id='n21', file=N, edits=[('def', 'NetworkAPI.get_balance', """
    @classmethod
    def _first_answer(cls, calls, *args):
        for call in calls:
            try:
                return call(*args)
            except cls.IGNORED_ERRORS:
                pass
        raise ConnectionError('All APIs are unreachable.')

    @classmethod
    def get_balance(cls, address):
        return cls._first_answer(cls.GET_BALANCE_MAIN, address)
"""), ('def', 'NetworkAPI.get_unspent_testnet', """
    @classmethod
    def get_unspent_testnet(cls, address):
        return cls._first_answer(cls.GET_UNSPENT_TEST, address)
""")]),
]
