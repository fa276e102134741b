"""Reference semantics of the caches, as short histories of calls.

Each pair *_code/*_model runs the same history: once on the repository's function, once
on a plain model that keeps its state in local variables.  tick() lets time pass between
two steps; the clock stands still within a step.
"""
import decimal
from time import time

import requests
from requests.exceptions import ConnectionError as CE
from requests.exceptions import HTTPError, Timeout
from tick import tick

from bit.network import fees as fees_module
from bit.network import rates as rates_module
from bit.network.fees import get_fee_cached
from bit.network.rates import RatesAPI, currency_to_satoshi_cached


def Decimal(value):
    return decimal.Decimal(str(value))


def rate_code(x, y, z, *, a, b, c):
    try:
        p = currency_to_satoshi_cached(x, a)
    except ConnectionError:
        p = None
    tick()
    try:
        q = currency_to_satoshi_cached(y, b)
    except ConnectionError:
        q = None
    tick()
    r = currency_to_satoshi_cached(z, c)
    return p, q, r


def _ask(currency):
    if currency == 'satoshi':
        return 1
    if currency == 'ubtc':
        return 100
    if currency == 'mbtc':
        return 100000
    if currency == 'btc':
        return 100000000
    return getattr(RatesAPI, currency + '_to_satoshi')()


def _step(state, currency, amount):
    rate, when = state.get(currency, (None, None))
    now = time()
    if not rate or now - when > rates_module.DEFAULT_CACHE_TIME:
        rate, when = _ask(currency), now
    state[currency] = (rate, when)
    return int(rate * Decimal(amount))


def rate_model(x, y, z, *, a, b, c):
    state = {}
    try:
        p = _step(state, a, x)
    except ConnectionError:
        p = None
    tick()
    try:
        q = _step(state, b, y)
    except ConnectionError:
        q = None
    tick()
    r = _step(state, c, z)
    return p, q, r


def fee_code(*, a, b, c):
    p = get_fee_cached(a)
    tick()
    q = get_fee_cached(b)
    tick()
    r = get_fee_cached(c)
    return p, q, r


def _fee_step(state, fast):
    name, default = ('fastestFee', 72) if fast else ('hourFee', 62)
    fee, when = state.get(name, (None, None))
    now = time()
    if not fee or now - when > fees_module.DEFAULT_CACHE_TIME:
        try:
            r = requests.get('https://mempool.space/api/v1/fees/recommended')
            r.raise_for_status()
            fee = r.json()[name]
            when = now
        except (CE, HTTPError, Timeout):
            if fee is None:
                return default
            return fee
    state[name] = (fee, when)
    return fee


def fee_model(*, a, b, c):
    state = {}
    p = _fee_step(state, a)
    tick()
    q = _fee_step(state, b)
    tick()
    r = _fee_step(state, c)
    return p, q, r


def fee_default_code():
    p = get_fee_cached()
    tick()
    q = get_fee_cached(fast=False)
    tick()
    r = get_fee_cached(fast=True)
    return p, q, r


def fee_default_model():
    return fee_model(a=True, b=False, c=True)
