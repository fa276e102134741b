"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SV, RT, FE, ME = 'bit/network/services.py', 'bit/network/rates.py', 'bit/network/fees.py', 'bit/network/meta.py'
TX, WA, FO, UT = 'bit/transaction.py', 'bit/wallet.py', 'bit/format.py', 'bit/utils.py'
OFF = 'The stable tests run offline: '
P = []


def p(id, title, statement, over, text, why, files, mech, na=None, note=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), na, note))


p('C01', 'Mainnet and testnet never mix when talking to services',
  'Every balance, history, transaction, unspent or broadcast request made for a mainnet key or through the mainnet calls goes only to a mainnet endpoint, and every testnet one only to a testnet endpoint, for every service client. Connecting to a node replaces the services of the chosen network by that node, for all five kinds of request, and leaves the other network untouched.',
  ['inputs', 'configurations'], 'all addresses, transactions, service clients, wallet classes and node connections',
  OFF + 'no service client method is executed against an endpoint, so the URL of each request and the membership of each service list are never checked.',
  [SV, WA], [('per-network service lists', SV + ' NetworkAPI'), ('endpoint constants per client', SV), ('node connection', SV + ' connect_to_node'), ('wallet queries', WA + ' get_unspents, get_transactions, send')])
p('C02', 'A read succeeds if any configured service can answer',
  'A balance, history, transaction or unspent query asks the configured services one after the other in order and returns the first answer unchanged, even if that answer is zero, empty or nothing. A service that cannot be reached, times out, reports a failure, or refuses an address with too many entries is skipped; only if every service fails does the query raise a connection error, and any other error is passed on.',
  ['fault_sequences', 'configurations'], 'every sequence of service outcomes and every list of services',
  'The tests use one mock that always fails or always succeeds; sequences of failures over the real error types and every query kind are not covered.',
  [SV], [('failover loops', SV + ' NetworkAPI.get_*'), ('ignored errors', SV + ' NetworkAPI.IGNORED_ERRORS')])
p('C03', 'Broadcasting reports success only if a service accepted the transaction',
  'Sending hands the finished transaction to the services of its own network in order until one accepts it and then stops; a refusal or an unreachable service makes it try the next one. If no service accepts, an error is raised; only after an acceptance does sending return, and it returns the id of exactly the transaction that was handed over.',
  ['fault_sequences', 'inputs'], 'every sequence of accept/refuse/fail outcomes, every transaction, both networks, every service client and the node client',
  OFF + 'broadcast clients are never executed, and only all-fail and all-succeed sequences are tried with mocks.',
  [SV, WA], [('broadcast loop', SV + ' NetworkAPI.broadcast_tx*'), ('acceptance per client', SV + ' broadcast_tx*'), ('send', WA + ' PrivateKey.send')])
p('C04', 'A failed HTTP answer is never mistaken for data',
  'Every service, rate, fee and node client inspects the status of each response, including every follow-up page, before using its body: a response that is not a success raises an error of a kind that makes the next source be tried, or yields the documented empty result where the service uses that status for "nothing known". A success status is never treated as a failure.',
  ['fault_sequences', 'inputs'], 'every status code on every response of every client',
  OFF + 'no test feeds a client an error status.',
  [SV, RT, FE], [('status checks', SV), ('raise for status', RT + ', ' + FE)])
p('C05', 'Every explorer request honours the configured timeout',
  'Every request a block explorer client sends, including every page, carries the timeout that is configured at the moment of the request; changing the timeout affects all later requests of all clients.',
  ['inputs', 'histories', 'configurations'], 'all requests of all explorer clients, before and after any change of the timeout',
  OFF + 'requests are not executed; a hung server is needed to notice a missing timeout.',
  [SV], [('timeout argument of each request', SV), ('setter', SV + ' set_service_timeout')])
p('C06', 'Paged results are complete and in order',
  'Where a service delivers unspents or history in pages, the client requests the following pages (with the right offset or last-seen marker) until the service has no more, and returns all entries of all pages exactly once in service order; an address exceeding the size a client supports raises the dedicated error instead of returning a truncated list.',
  ['inputs', 'fault_sequences'], 'every number of pages and entries',
  OFF + 'paging code is never executed.',
  [SV], [('page loops', SV + ' get_transactions, get_unspent')])
p('C07', 'Service answers are mapped to the right fields, units and confirmations',
  'From each service\'s answer every unspent output keeps its own amount as an exact integer number of satoshi, its confirmation count, its locking script, its transaction id and its output index; balances are integers in satoshi of the final balance the service reports, histories are lists of transaction ids, and a transaction lookup returns the raw transaction hex (or nothing if unknown).',
  ['inputs'], 'every answer of every service, both networks, and of a node',
  OFF + 'no recorded answers are replayed; each of the ten client/network combinations has its own mapping.',
  [SV, ME], [('field mappings', SV), ('unspent record', ME + ' Unspent')])
p('C08', 'Every supported currency converts with its own rate and precision',
  'For each advertised currency, conversion in both directions uses the rate of that very currency from every rate source (never another currency\'s, an inverted one or another unit), asks the sources in turn when one is unavailable, and formats with that currency\'s number of decimal places. The tables of advertised currencies, rate sources and precisions list the same currencies.',
  ['inputs', 'configurations', 'fault_sequences'], 'all 25 currencies, all rate sources, all amounts',
  OFF + 'fiat rates are never fetched; tests only sample bitcoin units.',
  [RT], [('rate tables', RT + ' EXCHANGE_RATES, *_RATES'), ('rate clients', RT), ('precision table', RT + ' CURRENCY_PRECISION')])
p('C09', 'Cached rates and fees are fresh, separate and survive failures',
  'A cached exchange rate or recommended fee is reused only while it is not older than the configured cache time and is fetched again afterwards; each currency, and each of the two fee speeds, has its own entry with its own age. If the fee source fails, the last known fee of the same speed is returned, or the built-in default of that speed if none is known, and the next call tries again.',
  ['histories', 'fault_sequences', 'configurations'], 'all histories of calls, elapsed times, cache times and failures (analysed for all histories of up to three calls)',
  'Tests measure the duration of two calls with a mocked source; failures, expiry and interleavings of currencies or speeds are not sampled.',
  [RT, FE], [('rate cache', RT + ' currency_to_satoshi_local_cache'), ('fee cache', FE + ' get_fee_local_cache'), ('setters', RT + ', ' + FE)])
p('C10', 'Money is converted with exact decimal arithmetic',
  'Amounts given as int, float, string or decimal are interpreted by their decimal notation and converted to an integer number of satoshi, discarding only fractions of a satoshi; conversion to a currency rounds down to its precision and prints plain decimal notation. No binary floating point is used on the way, and no conversion changes the decimal settings of the program.',
  ['inputs'], 'all amounts and currencies, and amounts delivered by services and nodes',
  'Tests sample a handful of amounts; floating point errors show only for particular values.',
  [RT, UT, SV], [('decimal construction', UT + ' Decimal'), ('conversions', RT), ('amounts from services and nodes', SV)])
p('C11', 'Addresses are built and parsed exactly as specified, bad ones rejected',
  'Legacy, nested-segwit and native address text is produced from a public key or contract hash with the version of its network, and parsing an address yields exactly the hash and version it was made from. Any text with an invalid character, wrong checksum, mixed case, unknown version or prefix, or invalid witness program is rejected with a value error rather than yielding a destination.',
  ['inputs'], 'all public keys, hashes, networks and all strings',
  'Tests contain a few vectors per format; almost every malformed string is untested.',
  ['bit/base58.py', 'bit/base32.py', FO, TX, 'bit/crypto.py'], [('base58check', 'bit/base58.py'), ('bech32', 'bit/base32.py'), ('address construction', FO), ('address to script', TX + ' address_to_scriptpubkey')])
p('C12', 'Key import and export preserve the secret, network and compression',
  'Importing a key from wallet import format, hex, bytes, DER, PEM or integer and exporting it in any of these formats yields the same 32-byte secret, padded where the format has fixed width. Wallet import format text carries and restores the network and the compression choice, is rejected when its checksum, version or length is wrong, and keys of one network cannot be imported as the other.',
  ['inputs'], 'all private keys, both networks, compressed or not, all import strings',
  'Tests use one fixed key; secrets with leading zero bytes and malformed strings are not sampled.',
  [FO, WA, UT], [('wallet import format', FO + ' bytes_to_wif, wif_to_bytes'), ('key classes', WA), ('integer encoding', UT)])
p('C13', 'Transaction bytes follow the wire format and parse back to the same fields',
  'Serialising a transaction writes version, segwit marker if and only if some input has witness data, inputs, outputs, witnesses and lock time with correct length prefixes for every size; parsing such bytes or hex recovers every field, and supplied bytes are consumed in exactly that order.',
  ['inputs'], 'all transactions: any number of inputs, outputs and witness items, any script sizes',
  'Tests use a few recorded transactions, all with counts and scripts below the first length threshold.',
  [TX, UT], [('serialisation', TX + ' TxIn, TxOut, TxObj'), ('parsing', TX + ' deserialize'), ('length prefixes', UT)])
p('C14', 'Transaction ids ignore witness data',
  'The id computed for any transaction is the reversed double hash of its serialisation without marker and witnesses, so signing a segwit input does not change it and it equals the id the network will use.',
  ['inputs'], 'all legacy and segwit transactions', 'Two or three recorded transactions are tested.',
  [TX], [('txid', TX + ' calc_txid'), ('serialisation without witness', TX + ' legacy_repr')])
p('C15', 'Signatures commit to the whole transaction and the spent amount',
  'The digest signed for each input covers version, every input\'s outpoint and sequence, every output and lock time, the script being spent by that input and, for segwit inputs, the amount of exactly that input, in the layout of the legacy and the segwit signature hash respectively. Hash types other than "all" are refused.',
  ['inputs'], 'all transactions, input positions, mixes of legacy and segwit inputs',
  'Tests compare a few fixed transactions with at most a few inputs.',
  [TX, ME], [('signature hash', TX + ' calculate_preimages'), ('input parameters', TX + ' sign_tx')])
p('C16', 'Signing touches exactly the inputs the key can spend',
  'Signing matches every input to the unspent with the same transaction id and index and signs it with the template of its kind (pay-to-public-key-hash, nested segwit, native segwit, multisig) if its script belongs to the signing key; all other inputs and all outputs stay as they were. A segwit input without a matching amount, or an input that cannot be matched where it must be, raises instead of producing a wrong signature.',
  ['inputs'], 'all transactions, unspent lists in any order and keys',
  'Tests sign transactions with a handful of unspents in one order.',
  [TX, WA, ME], [('signing', TX + ' sign_tx'), ('ownership test', WA + ' can_sign_unspent'), ('unspent kinds', ME + ' set_type')])
p('C17', 'Multisig contracts and partial signatures follow the redeem script',
  'An m-of-n contract lists the given public keys in order with its own m and n, rejects impossible m, too many or malformed keys and oversized scripts, and its addresses are those of that script. Each signer\'s signature is placed in the order of the public keys next to the valid signatures already present, the missing ones are padded so that the next signer can go on, and a fully signed input is left alone with an error.',
  ['inputs', 'histories'], 'all m, n, key orders, signing orders and mixes of input kinds',
  'Tests use 2-of-2 and a few fixed signing orders.',
  [WA, FO, TX, UT], [('contract', FO + ' multisig_to_redeemscript'), ('multisig wallets', WA + ' MultiSig'), ('merging signatures', TX + ' sign_tx, ' + UT + ' get_signatures_from_script')])
p('C18', 'Value is conserved: inputs equal outputs plus fee, change returns',
  'For every payment that succeeds, the amounts of the selected unspents equal the requested outputs plus the fee plus the change, change is never negative, any change output goes to the designated change address, and the selected coins are a subset of those offered without repetition. When the coins offered cannot cover outputs and fee an insufficient-funds error is raised; with consolidation every offered coin is spent, and the caller\'s list of coins is left unchanged.',
  ['inputs'], 'all sets of coins, outputs, fees, change thresholds and selection modes',
  'Tests sample a few coin sets; the random branch of the selection is only sampled.',
  [TX], [('coin selection', TX + ' select_coins'), ('assembly', TX + ' sanitize_tx_data')])
p('C19', 'The transaction pays exactly the requested recipients and amounts',
  'The outputs of a built transaction are, in the order given, one per requested recipient with exactly the requested amount (converted to satoshi) and the locking script of exactly that address, followed by the change if any and then the message outputs of zero value; nothing else is added and nothing is dropped or merged.',
  ['inputs'], 'all output lists, address kinds, currencies and messages', 'Tests use one or two outputs to fixed addresses.',
  [TX, WA], [('outputs', TX + ' sanitize_tx_data, construct_outputs'), ('locking scripts', TX + ' address_to_scriptpubkey')])
p('C20', 'Payments across networks are refused',
  'Building a transaction from a mainnet wallet with any recipient or change address of testnet, or the reverse, raises a value error before anything is signed or sent, for legacy, script and bech32 addresses and for single-key and multisig wallets.',
  ['inputs'], 'all combinations of wallet class, recipient and change address kinds', 'Only one combination per direction is tested.',
  [TX, FO, WA], [('network check', TX + ' sanitize_tx_data'), ('address version', FO + ' get_version'), ('wallet network', WA)])
p('C21', 'Payment options reach the transaction unchanged',
  'Fee, absolute-fee flag, change address, coin consolidation, message and its hex flag, explicit unspents, minimum change and replace-by-fee given to creating, preparing or sending a payment take effect as given; omitted ones take the documented defaults (fetched fee, own address as change, current unspents), identically for mainnet and testnet keys and multisig wallets.',
  ['inputs', 'configurations'], 'all combinations of options, entry points and wallet classes',
  'Tests exercise few options and mostly on one class; the four classes have separate copies of the code.',
  [WA], [('create, prepare, send', WA)])
p('C22', 'Private keys stay private and come from a strong source',
  'No secret key material appears in the textual form of a key, wallet or unspent, in prepared offline transactions, log records, terminal output or requests to any service. A new key takes its secret only from the operating system\'s randomness via the curve library; no guessable or constant value enters.',
  ['inputs', 'histories'], 'all keys and all calls of the library (the command-line generator prints the key it was asked for)',
  'Absence of a leak or of weak randomness on every path cannot be sampled.',
  [WA, TX, 'bit/keygen.py', ME], [('textual forms', WA + ' __repr__'), ('key construction', WA + ' BaseKey'), ('requests', SV)])
p('C23', 'Node answers and errors are passed on faithfully',
  'A node call sends the named method with its arguments and credentials to the configured URL; a node error, an unauthorised or a non-success answer raises an error saying so, and otherwise exactly the result is returned. Balance, history, transaction, unspent and broadcast requests through a node use the right method and arguments and convert amounts exactly.',
  ['inputs', 'fault_sequences', 'configurations'], 'all methods, arguments, answers and connection settings',
  'Tests mock the HTTP session for a few cases only.',
  [SV], [('node client', SV + ' RPCHost, RPCMethod')])
p('C24', 'Offline preparing and signing carry the whole payment across',
  'The data prepared for offline signing contains every selected unspent with all fields and every output, and signing that data later, or on another machine, creates the transaction with exactly those unspents and outputs; supplying a transaction hex with its unspents signs that very transaction.',
  ['inputs', 'histories'], 'all prepared payments, all four wallet classes', 'Tests cover one round trip without messages.',
  [WA, ME], [('prepare and sign', WA), ('unspent record as dictionary', ME)])
p('C25', 'A wallet\'s unspents and balance cover all its addresses',
  'Refreshing a wallet queries each address form its key owns (legacy always; segwit forms when the key is compressed or the contract supports them) on its own network, marks every unspent with the right kind, keeps the complete list, and sets the balance to the sum of exactly these unspents; currency balances are derived from that sum.',
  ['inputs', 'histories'], 'all wallets and all service answers', OFF + 'refreshing is only tested against live services.',
  [WA, ME], [('refresh', WA + ' get_unspents'), ('balance', WA + ' get_balance')])
p('C26', 'Fees follow the requested rate or the requested absolute amount',
  'The fee of a payment is computed from the number and size of inputs and outputs times the requested satoshi per byte using the documented size formula with witness discount, or is exactly the requested amount when an absolute fee is asked for; the same rule applies during and after coin selection, and the change output\'s size is accounted for.',
  ['inputs'], 'all sizes, counts, rates and absolute fees', 'Tests sample a few sizes.',
  [TX, ME], [('estimate', TX + ' estimate_tx_fee'), ('selection', TX + ' select_coins'), ('input sizes', ME)])
p('C27', 'Messages are embedded completely in data outputs',
  'A message is encoded (or taken as raw bytes when flagged), split in order into pieces of at most 80 bytes and each piece becomes one zero-value data output whose script is the data marker followed by a valid push of exactly that piece; concatenating the pieces gives the message back.',
  ['inputs'], 'all messages and lengths', 'Tests use messages of a few fixed lengths.',
  [TX, UT], [('chunking', TX + ' sanitize_tx_data'), ('data output', TX + ' construct_outputs'), ('push opcode', UT + ' script_push')])
p('C28', 'Public keys and curve points convert losslessly',
  'Encoding a curve point compressed or uncompressed and decoding it gives the same point with coordinates padded to 32 bytes, the parity prefix selects the matching root, and encodings of invalid length are rejected.',
  ['inputs'], 'all points and encodings', 'Tests use one or two fixed points; short coordinates are not sampled.',
  [FO, 'bit/curve.py', WA], [('point codec', FO), ('square root', 'bit/curve.py')])
p('C29', 'Generated key/address pairs belong together and match the prefix',
  'The wallet import format and the address delivered by key generation belong to the same freshly generated key, importing the former gives exactly the printed address, and a generated vanity address starts with the requested prefix; prefixes with characters that cannot occur are rejected at once.',
  ['inputs', 'schedules'], 'all prefixes, worker counts and generated keys', 'Generation is excluded from the tests.',
  ['bit/keygen.py', FO], [('generation', 'bit/keygen.py')])
p('C30', 'Replace-by-fee marks every input and nothing else',
  'When replace-by-fee is requested every selected input carries a sequence number that signals replaceability, and this number survives preparing, signing and serialisation; when it is not requested, every input carries the sequence of its unspent (by default the final one).',
  ['inputs'], 'all payments, wallet classes and paths (create, send, offline)', 'One case is tested on one class.',
  [TX, ME, WA], [('opt-in', ME + ' opt_in_for_RBF'), ('propagation', TX)])
p('C31', 'The fee paid is at least the rate times the real size',
  'The size used for fee estimation is never smaller than the size of the signed transaction, so the effective rate is at least the requested one.',
  ['inputs'], 'all payments', 'Needs the sizes of real signatures.', [TX, ME], [('estimate', TX + ' estimate_tx_fee')],
  na='Depends on the byte lengths of DER signatures produced at run time and on numeric bounds over all counts and sizes; no syntactic or value-flow argument bounds these quantities. The formula itself is decided under C26.')
p('C32', 'Coin selection finds an exact match when its search reaches one',
  'If a subset of coins matches the target within the waste threshold and lies within the search limit, it is selected and no change output is made; the selection always terminates.',
  ['inputs'], 'all coin sets', 'Exponential input space.', [TX], [('branch and bound', TX + ' select_coins')],
  na='Optimality and the reach of a bounded recursive search quantify over run-time amounts; static analysis here can only show that the search is the reference search (C18), not what it finds.')
p('C33', 'Every signature produced verifies under the key',
  'Each produced signature is a valid low-s DER signature of the digest under the signing key.',
  ['inputs'], 'all keys and digests', 'Numeric property of elliptic curves.', [WA, TX], [('curve library', WA + ' BaseKey.sign')],
  na='The arithmetic happens in the native coincurve library outside this repository; its source is not analysable here.')
p('C34', 'Base58 and bech32 decoding invert encoding for all payloads',
  'For every payload, decoding the encoded text returns the payload, and no two payloads share a text.',
  ['inputs'], 'all payloads', 'Infinite input space.', ['bit/base58.py', 'bit/base32.py'], [('codecs', 'bit/base58.py, bit/base32.py')],
  na='Needs an inductive number-theoretic argument about radix conversion over unbounded loops; the analysis shows instead (C11) that the code denotes the reference codec.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, na, note in P:
        f.write(json.dumps(d) + '\n')
HIST = ' Histories are covered up to three calls from a fresh start.'
m = dict(version=1, setup_cmd='python3 run.py --self-test',
         checks=[],
         not_applicable=[dict(property=d['id'], reason=na) for d, na, note in P if na])
RULED = {'C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C22', 'C24', 'C29'}
for d, na, note in P:
    if na:
        continue
    m['checks'].append(dict(
        property=d['id'], quick_cmd='VERIF_TIER=quick python3 run.py ' + d['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py ' + d['id'],
        technique='static analysis: gated value-flow (value numbering) abstract interpretation of the Python syntax tree; each anchored function must denote '
                  'the same function as its reference' + ('; plus rules over tables and call sites' if d['id'] in RULED else ''),
        level='other',
        level_note='All paths and inputs of the anchored functions are covered, relative to the references in specs/ and documented library behaviour; '
                   'a construct the analysis cannot follow is reported as undecided and raises no alarm.' + (HIST if d['id'] == 'C09' else '')))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
