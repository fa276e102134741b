"""Reference semantics: vanity addresses."""
import sys
import time
from multiprocessing import Event, Process, Queue, Value, cpu_count

from coincurve import Context
from coincurve import PrivateKey as Secret

from bit.base58 import b58encode_check as bit_b58c
from bit.crypto import ripemd160_sha256 as bit_h160
from bit.format import bytes_to_wif as bit_wif
from bit.format import public_key_to_address as bit_address
from bit.keygen import generate_key_address_pair as bit_pair
from bit.keygen import generate_key_address_pairs as bit_search


def pair():
    k = Secret()
    return bit_wif(k.secret, 'main', True), bit_address(k.public_key.format(compressed=True), 'main')


def search(prefix, counter, match, queue):
    ctx = Context()
    while True:
        if match.is_set():
            return
        with counter.get_lock():
            counter.value += 1
        k = Secret(context=ctx)
        a = bit_b58c(b'\x00' + bit_h160(k.public_key.format(compressed=True)))
        if a.startswith(prefix):
            match.set()
            queue.put_nowait((k.secret, a))
            return


def matching(prefix, cores='all'):
    for char in prefix:
        if char not in '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz':
            raise ValueError('')
    if prefix == '':
        return bit_pair()
    if not prefix.startswith('1'):
        prefix = '1' + prefix
    n = cpu_count()
    if cores == 'all':
        cores = n
    elif 0 < int(cores) <= n:
        cores = int(cores)
    else:
        cores = 1
    counter = Value('i')
    match = Event()
    queue = Queue()
    workers = []
    for _ in range(cores):
        workers.append(Process(target=bit_search, args=(prefix, counter, match, queue)))
    for worker in workers:
        worker.start()
    seen = 0
    while True:
        time.sleep(1)
        current = counter.value
        if current == seen:
            if current == 0:
                continue
            break
        seen = current
        sys.stdout.write('Keys generated: {}\r'.format(seen))
        sys.stdout.flush()
    secret, address = queue.get()
    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bit_wif(secret, 'main', True), address))
