From 692a5b08b3f3a3f3bfde119fbaf9c32292cf1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:20 +0000
Subject: [PATCH 01/11] fix: use OP_PUSHDATA1 for OP_RETURN payloads longer
 than 75 bytes

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index cfdc1c2..c732899 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -482,7 +482,7 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
-            script_pubkey = OP_RETURN + len(dest).to_bytes(1, byteorder='little') + dest
+            script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From 38bde2ce318bcb96fe4a28bc877365a847d03a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:20 +0000
Subject: [PATCH 02/11] fix: RPC balance neither rounds nor changes the global
 decimal context

---
 bit/network/services.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 9578c63..e99b9b0 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,9 +1,7 @@
 import requests
 import json
 import logging
-from decimal import Decimal, getcontext
 
-from bit.constants import BTC
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
 from bit.exceptions import BitcoinNodeException, ExcessiveAddress
@@ -31,9 +29,7 @@ class RPCHost:
         return RPCMethod(rpc_method, self)
 
     def get_balance(self, address):
-        getcontext().prec = len(str(BTC))
-        b = Decimal(self.getreceivedbyaddress(address, 0))
-        return int(b * BTC)
+        return currency_to_satoshi(self.getreceivedbyaddress(address, 0), "btc")
 
     def get_balance_testnet(self, address):
         return self.get_balance(address)
-- 
2.43.0


From d93637b2d829a4133eabff9503be6e4b9fbec021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:51 +0000
Subject: [PATCH 03/11] fix: Blockchair reports no unspents as an empty list
 for an unknown address

---
 bit/network/services.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index e99b9b0..22ec88c 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -224,7 +224,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
@@ -267,7 +267,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
-- 
2.43.0


From 71469fcc76dba4547d54d78b2a6047960bcb3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:12 +0000
Subject: [PATCH 04/11] fix: Bitcore balance failure raises ConnectionError so
 that the next service is tried

---
 bit/network/services.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 22ec88c..5876114 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -610,13 +610,15 @@ class BitcoreAPI(InsightAPI):
     @classmethod
     def get_balance(cls, address):
         r = requests.get(cls.MAIN_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
     def get_balance_testnet(cls, address):
         r = requests.get(cls.TEST_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
-- 
2.43.0


From eeece9a694e4373b2c2302e8fb336f955ffaa2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:12 +0000
Subject: [PATCH 05/11] fix: check the status of every page request

---
 bit/network/services.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 5876114..c8e1ad3 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -384,7 +384,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -411,7 +414,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         return transactions
@@ -601,9 +607,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -644,9 +653,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -696,7 +708,10 @@ class BlockchainAPI:
             total_txs -= txs_per_page
             offset += txs_per_page
             payload['offset'] = str(offset)
-            response = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return transactions
 
-- 
2.43.0


From e20ce7e2f8ba0c2ac145025acd61b9525ffac909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:12 +0000
Subject: [PATCH 06/11] fix: generated WIF belongs to the compressed key behind
 the printed address

---
 bit/keygen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index c26f3da..1aaf939 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -12,7 +12,7 @@ from bit.format import bytes_to_wif, public_key_to_address
 def generate_key_address_pair():  # pragma: no cover
     private_key = ECPrivateKey()
     address = public_key_to_address(private_key.public_key.format())
-    return bytes_to_wif(private_key.secret), address
+    return bytes_to_wif(private_key.secret, compressed=True), address
 
 
 def generate_matching_address(prefix, cores='all'):  # pragma: no cover
@@ -60,7 +60,7 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
         sys.stdout.flush()
 
     private_key, address = queue.get()
-    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key), address))
+    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
 def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
-- 
2.43.0


From 5b2f0a6d1f090d2259ab2a327e4aad3e6c7586fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:12 +0000
Subject: [PATCH 07/11] fix: reject addresses with an invalid witness program
 with ValueError

---
 bit/transaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index c732899..3c6c8f8 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -460,6 +460,8 @@ def address_to_scriptpubkey(address):
         version = b58decode_check(address)[:1]
     except ValueError:
         witver, data = segwit_decode(address)
+        if witver is None:
+            raise ValueError('{} does not contain a valid witness program.'.format(address)) from None
         return segwit_scriptpubkey(witver, data)
 
     if version == MAIN_PUBKEY_HASH or version == TEST_PUBKEY_HASH:
-- 
2.43.0


From ca56618e561a3384576f5632f4bc8fa7ad51b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:12 +0000
Subject: [PATCH 08/11] fix: pad a partially signed multisig input by the
 signatures really missing

---
 bit/transaction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 3c6c8f8..fd81181 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -653,9 +653,6 @@ def sign_tx(private_key, tx, *, unspents):
             witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
-                # Bitcoin Core convention: Every missing signature is denoted
-                # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sig_list) - 1)
                 # Total number of witness items when partially or fully signed:
                 witness_count = private_key.m + 2
                 # For a partially signed input make a dictionary containing
@@ -671,6 +668,11 @@ def sign_tx(private_key, tx, *, unspents):
 
             sigs[public_key] = signature
 
+            if input_script_field[i]:
+                # Bitcoin Core convention: Every missing signature is denoted
+                # by 0x00. Only used for already partially-signed scriptSigs:
+                script_blob += b'\x00' * (private_key.m - len(sigs))
+
             witness = b''
             # Sort ingthe signatures according to the public-key list:
             for pub in private_key.public_keys:
-- 
2.43.0


From 8410209f39f22ae98a7ffa487462e226815ae625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:12 +0000
Subject: [PATCH 09/11] fix: reject multisig contracts that require no
 signature

---
 bit/format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 1f6fac4..744e4b1 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -142,6 +142,8 @@ def multisig_to_redeemscript(public_keys, m):
 
     if m > len(public_keys):
         raise ValueError('Required signatures cannot be more than the total number of public keys.')
+    if m < 1:
+        raise ValueError('At least one signature must be required.')
 
     redeemscript = int_to_unknown_bytes(m + 80)
 
-- 
2.43.0


From 44bb906819380afaa5aaaa385da91f386b155694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:50 +0000
Subject: [PATCH 10/11] fix: building a transaction no longer rewrites the
 caller's list of unspents

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index fd81181..dac9cbc 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -424,7 +424,7 @@ def sanitize_tx_data(
     sum_outputs = sum(out[1] for out in outputs)
 
     # Use Branch-and-Bound for coin selection:
-    unspents[:], remaining = select_coins(
+    unspents, remaining = select_coins(
         sum_outputs,
         fee,
         output_size,
-- 
2.43.0


From 9c89849c36937ea0d00dd784de5fb80f890ca29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:45 +0000
Subject: [PATCH 11/11] fix: get_fee raises on a failed answer instead of
 decoding its body

---
 bit/network/fees.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 643547a..db216ba 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -29,7 +29,10 @@ def get_fee(fast=True):
     :type fast: ``bool``
     :rtype: ``int``
     """
-    return requests.get(URL).json()['fastestFee' if fast else 'hourFee']
+    request = requests.get(URL)
+    # If we have a non 2XX status code, raise HTTPError.
+    request.raise_for_status()
+    return request.json()['fastestFee' if fast else 'hourFee']
 
 
 def get_fee_local_cache(f):
-- 
2.43.0

