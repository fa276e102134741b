"""Reference semantics: exchange rates and recommended fees."""
import decimal
from decimal import ROUND_DOWN

import requests

from bit.network import fees as fees_module
from bit.network import rates as rates_module
from bit.network.rates import RatesAPI
from bit.network.rates import currency_to_satoshi_cached as bit_cached


def Decimal(value):
    return decimal.Decimal(str(value))


def bitpay(cls, *, code):
    r = requests.get('https://bitpay.com/rates/BTC/' + code,
                     headers={'x-accept-version': '2.0.0', 'Accept': 'application/json'})
    r.raise_for_status()
    return int(Decimal(1) / Decimal(r.json()['data']['rate']) * 100000000)


def blockchain(cls, *, code):
    r = requests.get('https://blockchain.info/tobtc?currency=' + code + '&value=1')
    r.raise_for_status()
    return int(Decimal(r.text) * 100000000)


def ratesapi(cls, *, name):
    for call in getattr(cls, name):
        try:
            return call()
        except cls.IGNORED_ERRORS:
            pass
    raise ConnectionError('')


def unit(*, value):
    return value


def currency_to_satoshi_fiat(amount, currency, *, name, value, digits):
    return int(getattr(RatesAPI, name)() * Decimal(amount))


def currency_to_satoshi_coin(amount, currency, *, name, value, digits):
    return int(value * Decimal(amount))


def _amount(num, rate, digits):
    d = Decimal(num / Decimal(rate)).quantize(Decimal('0.' + '0' * digits), rounding=ROUND_DOWN)
    return '{:f}'.format(d.normalize())


def satoshi_to_currency_fiat(num, currency, *, name, value, digits):
    return _amount(num, getattr(RatesAPI, name)(), digits)


def satoshi_to_currency_coin(num, currency, *, name, value, digits):
    return _amount(num, value, digits)


def satoshi_to_currency_cached(num, currency, *, digits):
    return _amount(num, bit_cached(1, currency), digits)


def set_rate_cache_time(seconds):
    rates_module.DEFAULT_CACHE_TIME = seconds


def set_fee_cache_time(seconds):
    fees_module.DEFAULT_CACHE_TIME = seconds


def get_fee(fast=True):
    r = requests.get('https://mempool.space/api/v1/fees/recommended')
    r.raise_for_status()
    if fast:
        return r.json()['fastestFee']
    return r.json()['hourFee']
