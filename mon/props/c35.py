import os
import pickle
import subprocess
import sys
import threading
import time
from enum import Enum
import attr
import bitcoinx as bx
import engine
from bitcoinx import aes, cashaddr
from bitcoinx import (
    Address, BIP32PrivateKey, BIP32PublicKey, BIP39Mnemonic, ElectrumMnemonic, PrivateKey, PublicKey, Script,
    Signature, SigHash, Tx, TxInput, TxOutput, Wordlists,
)
from engine import case_rng, workload
from lib import COINS
from ref import cash, scripts, wire

PROP, LEVEL = 'C35', 'exploration'
FILES = ['keys.py', 'signature.py', 'bip32.py', 'script.py', 'tx.py', 'address.py', 'mnemonic.py', 'hashes.py',
         'work.py', 'base58.py', 'cashaddr.py']
RULE = ('about 120 operations on shared and fresh keys, extended keys, transactions, scripts, signatures, '
        'addresses, mnemonics and hashes, valid and invalid; each is run once alone on objects of its own, then '
        'all in random orders, repeatedly, by one thread and by 4 to 8 threads whose switches are forced at '
        'random lines of the repository, also in new processes from first use. A log of (operation, inputs, '
        'result, thread) is compared with the results alone, inputs and earlier results are fingerprinted '
        'again at the end; and what was returned is changed as its owner may, and everything done again. Distinct by (pool, operation, thread, order); interleavings by adjacent '
        'lines of different threads.')
REQUIRE = {'operations alone': 1500, 'operations repeated': 10000, 'operations in threads': 20000,
           'operations in a new process': 5000, 'inputs fingerprinted': 1000, 'results fingerprinted': 20000,
           'line switches between threads': 20000, 'interleavings': 3000, 'kinds of operation': 110,
           'exceptions as results': 800, 'returned values changed': 4000}
ASSUMPTIONS = ['threads are interleaved at lines of the repository and where native code releases the lock; '
               'no data races below the interpreter lock are looked for']


def canon(x, depth=0):
    '''A plain value that says all there is to see of an object.'''
    if depth > 8:
        return 'deep'
    if x is None or isinstance(x, (bool, float)):
        return repr(x)
    if isinstance(x, SigHash):
        return ('SigHash', int(x))
    if isinstance(x, Enum):
        return ('enum', int(x))
    if isinstance(x, (int, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, (bytearray, memoryview)):
        return (type(x).__name__, bytes(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(y, depth + 1) for y in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(repr(canon(y, depth + 1)) for y in x)))
    if isinstance(x, dict):
        return ('dict', tuple((canon(k, depth + 1), canon(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, Script):
        return ('Script', bytes(x))
    if isinstance(x, Signature):
        return ('Signature', bytes(x))
    if isinstance(x, (BIP32PrivateKey, BIP32PublicKey)):
        d = x.derivation()
        return (type(x).__name__, x.to_extended_key_string(), canon((d.chain_code, d.n, d.depth,
                                                                     d.parent_fingerprint)))
    if isinstance(x, PrivateKey):
        return ('PrivateKey', x.to_bytes(), x.is_compressed(), x.coin().name)
    if isinstance(x, PublicKey):
        return ('PublicKey', x.to_bytes(compressed=False), x.is_compressed(), x.coin().name)
    if isinstance(x, Address):
        return (type(x).__name__, x.hash160(), x.coin().name)
    if isinstance(x, bx.P2PK_Output):
        return ('P2PK_Output', canon(x.public_key))
    if isinstance(x, bx.P2MultiSig_Output):
        return ('P2MultiSig_Output', canon(x.public_keys), x.threshold)
    if isinstance(x, (Tx, TxInput, TxOutput)):
        return (type(x).__name__, tuple(canon(getattr(x, f.name), depth + 1) for f in attr.fields(type(x))))
    if isinstance(x, BaseException):
        return ('exception', type(x).__name__, str(x))
    if isinstance(x, bx.Coin):
        return ('coin', x.name)
    return ('object', type(x).__name__)


def outcome(fn, p):
    try:
        result = fn(p)
        if hasattr(result, '__next__'):
            result = list(result)
        return result
    except Exception as e:
        e.__traceback__ = None
        return e


class Lazy:
    def __init__(self, make):
        self.make, self.name = make, make.__name__

    def __get__(self, obj, _type):
        value = self.make(obj)
        obj.__dict__[self.name] = value
        return value


class Pool:
    '''Inputs, made from plain data on first use.'''

    def __init__(self, tag):
        self.tag = tag
        rng = case_rng(tag, 'C35', 'pool', 0)
        self.secrets = [rng.randrange(1, 1 << 255).to_bytes(32, 'big') for _ in range(3)]
        self.messages = [b'', rng.randbytes(5), rng.randbytes(40), 'text £' + str(rng.random()), rng.randbytes(200)]
        self.hashes = [rng.randbytes(32) for _ in range(3)]
        self.h160s = [rng.randbytes(20) for _ in range(3)]
        self.buffers = [bytearray(rng.randbytes(n)) for n in (0, 1, 20, 32, 33)]
        self.raw_buffers = {'tx': bytearray(), 'signature': bytearray(), 'secret': bytearray(self.secrets[2]),
                            'message': bytearray(rng.randbytes(77)), 'seed': bytearray(rng.randbytes(64))}
        self.tweak = rng.randrange(1, 1 << 250).to_bytes(32, 'big')
        self.seed = rng.randbytes(32)
        self.model_tx = wire.rand_tx(rng)
        while not self.model_tx[1] or not self.model_tx[2]:
            self.model_tx = wire.rand_tx(rng)
        self.raw_buffers['tx'] += wire.tx_bytes(self.model_tx)
        self.raw_buffers['signature'] += bytes.fromhex('3006020101020101')
        self.raw_buffers['wif'] = bytearray(rng.randbytes(34))
        self.raw_scripts = [scripts.rand_script(rng) for _ in range(3)]
        self.templates = [scripts.rand_template(rng, 0) for _ in range(5)]
        self.path = rng.choice(["m/1/2'/3", "m", "m/0'", "m/5/6/7/8"])
        self.indices = [rng.randrange(100), rng.randrange(100) | 1 << 31]
        self.value = rng.randrange(21 * 10**14)
        self.sighashes = [SigHash(rng.choice([0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3])) for _ in range(2)]
        self.words = [rng.randrange(2048) for _ in range(12)]
        self.hex_seed = rng.randbytes(16).hex()
        self.bits = [0x1d00ffff, 0x1b0404cb, rng.randrange(4, 32) << 24 | rng.randrange(0x8000, 0x800000), 0, 77]
        self.entropy = rng.randbytes(16)
        self.items = [rng.randbytes(rng.choice([1, 5, 75, 76, 300])), 0, -1, 1000, bx.OP_CHECKSIG, b'', b'\x05']
        self.coin = rng.choice(COINS)

    @Lazy
    def fresh_coin(self):
        c = self.coin
        return bx.Coin(c.name, c.genesis_header.hex(), c.required_bits, c.P2PKH_verbyte, c.P2SH_verbyte,
                       c.WIF_byte, c.xpub_verbytes, c.xprv_verbytes, c.cashaddr_prefix)

    @Lazy
    def priv(self):
        return [PrivateKey(s, compressed=n != 1, coin=self.coin) for n, s in enumerate(self.secrets)]

    @Lazy
    def pub(self):
        return [PublicKey.from_bytes(PrivateKey(s, n != 1).public_key.to_bytes())
                for n, s in enumerate(self.secrets)]

    @Lazy
    def der(self):
        return PrivateKey(self.secrets[0]).sign(self.messages[2])

    @Lazy
    def recoverable(self):
        return PrivateKey(self.secrets[0]).sign_recoverable(self.messages[2])

    @Lazy
    def message_sig(self):
        return PrivateKey(self.secrets[0]).sign_message(self.messages[3])

    @Lazy
    def wif(self):
        return PrivateKey(self.secrets[0], True, self.coin).to_WIF()

    @Lazy
    def master(self):
        return BIP32PrivateKey.from_seed(self.seed, self.coin)

    @Lazy
    def xpub(self):
        return BIP32PrivateKey.from_seed(self.seed, self.coin).public_key

    @Lazy
    def xprv_text(self):
        return BIP32PrivateKey.from_seed(self.seed, self.coin).to_extended_key_string()

    @Lazy
    def xpub_text(self):
        return BIP32PrivateKey.from_seed(self.seed, self.coin).public_key.to_extended_key_string()

    @Lazy
    def tx(self):
        return Tx.from_bytes(wire.tx_bytes(self.model_tx))

    @Lazy
    def scripts(self):
        return [Script(s) for s in self.raw_scripts]

    @Lazy
    def outputs(self):
        return [Script(s) for s in self.templates]

    @Lazy
    def signature(self):
        return Signature(self.der + b'\x41')

    @Lazy
    def addresses(self):
        return [bx.P2PKH_Address(self.h160s[0], self.coin), bx.P2SH_Address(self.h160s[1], self.coin)]

    @Lazy
    def p2pk(self):
        return bx.P2PK_Output(PrivateKey(self.secrets[1]).public_key, self.coin)

    @Lazy
    def multisig(self):
        return bx.P2MultiSig_Output([PrivateKey(s).public_key for s in self.secrets], 2)

    @Lazy
    def address_text(self):
        return bx.P2PKH_Address(self.h160s[0], self.coin).to_string()

    @Lazy
    def cash_text(self):
        return cash.encode(self.coin.cashaddr_prefix, 0, self.h160s[0])

    @Lazy
    def words_text(self):
        words = Wordlists.bip39_wordlist('english.txt')
        return ' '.join(words[n] for n in self.words)

    @Lazy
    def old_words(self):
        return ElectrumMnemonic.hex_seed_to_old(self.hex_seed)

    def all(self):
        '''Make everything.'''
        for name, value in list(vars(Pool).items()):
            if isinstance(value, Lazy):
                getattr(self, name)
        return self

    def fingerprint(self):
        return canon([(k, v) for k, v in sorted(self.__dict__.items())])


def aes_round(p):
    data = aes.aes_encrypt_with_iv(p.seed[:16], p.seed[16:], p.messages[2])
    return data, aes.aes_decrypt_with_iv(p.seed[:16], p.seed[16:], data)


def encrypted(p, text):
    cipher = p.pub[0].encrypt_message_to_base64(text) if isinstance(text, str) else p.pub[0].encrypt_message(text)
    return len(cipher), p.priv[0].decrypt_message(cipher)


def derive(p, key):
    for n in p.indices[:1] * 3:
        key = key.child(n)
    return key


J = bx.JSONFlags
ALL_FLAGS = J(sum(int(f) for f in J)) if issubclass(J, int) else J.SIZE
OPS = {
    'to_WIF': lambda p: [k.to_WIF() for k in p.priv],
    'from_WIF': lambda p: PrivateKey.from_WIF(p.wif),
    'from_text': lambda p: [PrivateKey.from_text(t) for t in (p.wif, p.secrets[0].hex())],
    'bad_WIF': lambda p: PrivateKey.from_WIF(p.wif[:-1] + 'z'),
    'public_key': lambda p: [k.public_key for k in p.priv],
    'public_key_fresh': lambda p: [PrivateKey(s).public_key for s in p.secrets],
    'priv_text': lambda p: [str(k) for k in p.priv] + [k.to_hex() for k in p.priv] + [k.to_int() for k in p.priv],
    'priv_hash': lambda p: [hash(k) for k in p.priv],
    'sign': lambda p: [k.sign(p.messages[2]) for k in p.priv],
    'sign_hash': lambda p: [p.priv[0].sign(h, None) for h in p.hashes],
    'sign_recoverable': lambda p: [k.sign_recoverable(p.messages[4]) for k in p.priv],
    'sign_message': lambda p: [k.sign_message(m) for k in p.priv for m in p.messages],
    'sign_message_b64': lambda p: p.priv[1].sign_message_to_base64(p.messages[3]),
    'sign_bad_hash': lambda p: p.priv[0].sign(b'abc', None),
    'shared_secret': lambda p: p.priv[0].shared_secret(p.pub[1], p.messages[1]),
    'ecdh': lambda p: [p.priv[0].ecdh_shared_secret(k) for k in p.pub],
    'priv_add': lambda p: [k.add(p.tweak) for k in p.priv],
    'priv_multiply': lambda p: [k.multiply(p.tweak) for k in p.priv],
    'priv_add_bad': lambda p: p.priv[0].add(b'\xff' * 32),
    'encrypt_bytes': lambda p: encrypted(p, p.messages[4]),
    'encrypt_text': lambda p: encrypted(p, p.messages[3]),
    'decrypt_bad': lambda p: p.priv[0].decrypt_message(b'BIE1' + bytes(100)),
    'pub_bytes': lambda p: [k.to_bytes(compressed=c) for k in p.pub for c in (None, True, False)],
    'pub_parse': lambda p: [PublicKey.from_bytes(k.to_bytes()) for k in p.pub],
    'pub_parse_bad': lambda p: PublicKey.from_bytes(b'\x02' + b'\xff' * 32),
    'pub_text': lambda p: [str(k) for k in p.pub],
    'pub_point': lambda p: [k.to_point() for k in p.pub],
    'pub_from_point': lambda p: PublicKey.from_point(*p.pub[0].to_point()),
    'pub_address': lambda p: [k.to_address(coin=p.coin, compressed=c) for k in p.pub for c in (True, False)],
    'pub_add': lambda p: [k.add(p.tweak) for k in p.pub],
    'pub_multiply': lambda p: [k.multiply(p.tweak) for k in p.pub],
    'pub_combine': lambda p: PublicKey.combine_keys(p.pub),
    'pub_combine_none': lambda p: PublicKey.combine_keys([]),
    'pub_hash160': lambda p: [k.hash160() for k in p.pub],
    'pub_complement': lambda p: [k.complement() for k in p.pub],
    'pub_hash': lambda p: [hash(k) for k in p.pub],
    'pub_scripts': lambda p: [s for k in p.pub for s in (k.P2PK_script(), k.P2PKH_script())],
    'verify_der': lambda p: [k.verify_der_signature(p.der, m) for k in p.pub for m in (p.messages[2], b'x')],
    'verify_recoverable': lambda p: [k.verify_recoverable_signature(p.recoverable, p.messages[2]) for k in p.pub],
    'verify_message': lambda p: [k.verify_message(p.message_sig, m) for k in p.pub for m in p.messages],
    'verify_and_address': lambda p: [PublicKey.verify_message_and_address(p.message_sig, p.messages[3], a)
                                     for a in (p.pub[0].to_address(), p.addresses[0])],
    'recover': lambda p: PublicKey.from_recoverable_signature(p.recoverable, p.messages[2]),
    'recover_message': lambda p: PublicKey.from_signed_message(p.message_sig, p.messages[3]),
    'recover_bad': lambda p: PublicKey.from_signed_message(bytes(65), p.messages[3]),
    'minikey': lambda p: PrivateKey.from_text('S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy'),
    'arbitrary': lambda p: PrivateKey.from_arbitrary_bytes(p.messages[4]),
    'bip32_seed': lambda p: BIP32PrivateKey.from_seed(p.seed, p.coin),
    'bip32_child': lambda p: [p.master.child(n) for n in p.indices],
    'bip32_safe': lambda p: [p.master.child_safe(n) for n in p.indices],
    'bip32_derive': lambda p: derive(p, p.master),
    'bip32_public': lambda p: p.master.public_key,
    'bip32_public_derive': lambda p: derive(p, p.xpub),
    'bip32_hardened_public': lambda p: p.xpub.child(p.indices[1]),
    'bip32_agree': lambda p: (p.master.child(p.indices[0]).public_key, p.xpub.child(p.indices[0])),
    'bip32_ids': lambda p: [(k.identifier(), k.fingerprint(), str(k)) for k in (p.master.public_key, p.xpub)],
    'bip32_priv_ids': lambda p: (p.master.identifier(), p.master.fingerprint()),
    'bip32_text': lambda p: (p.master.to_extended_key_string(), p.xpub.to_extended_key_string()),
    'bip32_parse': lambda p: [bx.bip32_key_from_string(t) for t in (p.xprv_text, p.xpub_text)],
    'bip32_parse_bad': lambda p: bx.bip32_key_from_string(p.xprv_text[:-1] + 'q'),
    'bip32_path': lambda p: (bx.bip32_decompose_chain_string(p.path),
                             bx.bip32_build_chain_string(bx.bip32_decompose_chain_string(p.path)),
                             bx.bip32_is_valid_chain_string(p.path), bx.bip32_is_valid_chain_string(p.path + '/x')),
    'bip32_sign': lambda p: p.master.sign(p.messages[2]),
    'sig_parts': lambda p: (p.signature.to_compact(), p.signature.r_value(), p.signature.s_value(),
                            p.signature.sighash, p.signature.der_signature, p.signature.to_string(),
                            p.signature.to_hex(), hash(p.signature), p.signature.is_present()),
    'sig_compact': lambda p: bx.der_signature_to_compact(p.der),
    'sig_der': lambda p: bx.compact_signature_to_der(bx.der_signature_to_compact(p.der)),
    'sig_bad': lambda p: Signature(p.der[:-1] + b'\x41'),
    'sighash_text': lambda p: [(s.to_string(), s.base, s.anyone_can_pay) for s in p.sighashes],
    'hashes': lambda p: [f(bytes(m)) for f in (bx.sha1, bx.sha256, bx.sha512, bx.ripemd160, bx.hash160,
                                               bx.double_sha256) for m in p.buffers + p.hashes],
    'hmacs': lambda p: (bx.hmac_sha512(p.seed, p.messages[2]), bx.hmac_sha512_halves(p.seed, p.messages[2])),
    'hash_text': lambda p: [(bx.hash_to_hex_str(h), bx.hash_to_value(h),
                             bx.hex_str_to_hash(bx.hash_to_hex_str(h))) for h in p.hashes],
    'base58': lambda p: [bx.base58_decode(bx.base58_encode(bytes(b))) for b in p.buffers[1:]],
    'base58_check': lambda p: [bx.base58_decode_check(bx.base58_encode_check(bytes(b))) for b in p.buffers],
    'base58_bad': lambda p: bx.base58_decode_check(p.wif[1:]),
    'cashaddr': lambda p: cashaddr.decode(p.cash_text),
    'cashaddr_bad': lambda p: cashaddr.decode(p.cash_text[:-1] + 'b'),
    'address_parse': lambda p: [Address.from_string(t, p.coin) for t in (p.address_text, p.cash_text)],
    'address_bad': lambda p: Address.from_string(p.address_text[:-2], p.coin),
    'address_text': lambda p: [str(a) for a in p.addresses],
    'address_scripts': lambda p: [a.to_script() for a in p.addresses + [p.p2pk, p.multisig]],
    'output_hashes': lambda p: [(hash(a), a.hash160()) for a in p.addresses + [p.p2pk, p.multisig]],
    'multisig_make': lambda p: bx.P2MultiSig_Output(p.pub, 2),
    'multisig_bad': lambda p: bx.P2MultiSig_Output(p.pub, 4),
    'classify': lambda p: [bx.classify_output_script(s, p.coin) for s in p.outputs],
    'classify_fresh': lambda p: [bx.classify_output_script(s, p.fresh_coin) for s in p.outputs],
    'classify_scripts': lambda p: [bx.classify_output_script(s, p.fresh_coin) for s in p.scripts],
    'script_ops': lambda p: list(p.scripts[0].ops()),
    'script_ops_2': lambda p: [list(s.ops()) for s in p.outputs],
    'script_asm': lambda p: [s.to_asm(d) for s in p.outputs + p.scripts for d in (True, False)],
    'script_from_asm': lambda p: [Script.from_asm(s.to_asm(False)) for s in p.outputs],
    'script_template': lambda p: [s.to_template() for s in p.outputs],
    'script_template_2': lambda p: p.scripts[1].to_template(),
    'script_json': lambda p: [s.to_json(ALL_FLAGS, b, p.coin) for s in p.outputs for b in (True, False)],
    'script_append': lambda p: [p.scripts[0] << item for item in p.items],
    'script_push_many': lambda p: p.scripts[0].push_many(p.items),
    'script_text': lambda p: [(str(s), s.to_hex(), len(s), hash(s), bytes(s)) for s in p.scripts],
    'script_copy': lambda p: [Script(b) for b in p.buffers],
    'push_item': lambda p: [bx.push_item(bytes(b)) for b in p.buffers],
    'push_int': lambda p: [bx.push_int(n) for n in (0, -1, 16, 17, p.value)],
    'push_drop': lambda p: (bx.push_and_drop_item(p.messages[2]), bx.push_and_drop_items([p.messages[1], b'a'])),
    'item_to_int': lambda p: [bx.item_to_int(bytes(b)) for b in p.buffers],
    'tx_parse': lambda p: Tx.from_bytes(wire.tx_bytes(p.model_tx)),
    'tx_parse_hex': lambda p: Tx.from_hex(wire.tx_bytes(p.model_tx).hex()),
    'tx_parse_bad': lambda p: Tx.from_bytes(wire.tx_bytes(p.model_tx)[:-1]),
    'tx_empty': lambda p: [Tx.from_bytes(b) for b in (bytes(10), b'\1' + bytes(45) + b'\0' * 10)],
    'tx_parse_parts': lambda p: [TxInput.from_bytes(p.tx.inputs[0].to_bytes()),
                                 TxOutput.from_bytes(p.tx.outputs[0].to_bytes())],
    'tx_bytes': lambda p: (p.tx.to_bytes(), p.tx.to_hex(), p.tx.size()),
    'tx_hash': lambda p: (p.tx.hash(), p.tx.hex_hash()),
    'tx_sighash': lambda p: [p.tx.signature_hash(n, p.value, p.scripts[0], sighash=s)
                             for n in range(min(3, len(p.tx.inputs))) for s in p.sighashes],
    'tx_sighash_bad': lambda p: p.tx.signature_hash(len(p.tx.inputs), p.value, p.scripts[0],
                                                    sighash=p.sighashes[0]),
    'tx_final': lambda p: [p.tx.is_final_for_block(h, t) for h in (0, 500000) for t in (0, 1 << 31)],
    'tx_value': lambda p: (p.tx.total_output_value(), p.tx.are_inputs_final(), p.tx.is_coinbase()),
    'tx_json': lambda p: p.tx.to_json(ALL_FLAGS, p.coin),
    'tx_json_plain': lambda p: p.tx.to_json(J(0), p.coin),
    'tx_text': lambda p: repr(p.tx.inputs) + repr(p.tx.outputs),
    'tx_parts': lambda p: [i.to_bytes() for i in p.tx.inputs] + [o.to_bytes() for o in p.tx.outputs],
    'bip39_seed': lambda p: BIP39Mnemonic.to_seed(p.words_text, 'pass'),
    'bip39_valid': lambda p: BIP39Mnemonic.is_valid(p.words_text, Wordlists.bip39_wordlist('english.txt')),
    'bip39_words': lambda p: Wordlists.bip39_wordlist('english.txt')[100:110],
    'bip39_count': lambda p: len(Wordlists.bip39_wordlist('spanish.txt')),
    'old_words': lambda p: (ElectrumMnemonic.hex_seed_to_old(p.hex_seed),
                            ElectrumMnemonic.old_to_hex_seed(p.old_words),
                            ElectrumMnemonic.is_valid_old(p.old_words)),
    'bip39_bad': lambda p: BIP39Mnemonic.is_valid(p.words_text.title(), Wordlists.bip39_wordlist('english.txt'))
    or BIP39Mnemonic.is_valid(' '.join(f'{n:o}' for n in p.words), Wordlists.bip39_wordlist('japanese.txt')),
    'old_bad': lambda p: ElectrumMnemonic.old_to_hex_seed('one two three'),
    'new_words': lambda p: (ElectrumMnemonic.is_valid_new(p.words_text, '01'),
                            ElectrumMnemonic.normalize_new(p.words_text.upper())),
    'bits': lambda p: [bx.bits_to_target(b) for b in p.bits[:4]],
    'bits_work': lambda p: [bx.bits_to_work(b) for b in p.bits[:4]],
    'bits_bad': lambda p: bx.bits_to_target(p.bits[4]),
    'bits_again': lambda p: [bx.target_to_bits(bx.bits_to_target(b)) for b in p.bits[:4]],
    'header': lambda p: str(p.coin.deserialized_header(p.coin.genesis_header, 0)),
    'varints': lambda p: [bx.pack_varint(n) for n in (0, 252, 253, 1 << 16, 1 << 32)],
    'varbytes': lambda p: [bx.pack_varbytes(m) for m in p.messages if isinstance(m, bytes)],
    'aes': lambda p: aes_round(p),
    'aes_buffer': lambda p: [aes.aes_encrypt_with_iv(p.seed[:16], p.seed[16:], b) for b in p.buffers],
    'sign_buffer': lambda p: [p.priv[0].sign(b) for b in p.buffers],
    'sign_hash_buffer': lambda p: p.priv[0].sign(p.raw_buffers['secret'], None),
    'sign_message_buffer': lambda p: [p.priv[1].sign_message(b) for b in p.buffers],
    'encrypt_buffer': lambda p: encrypted(p, p.raw_buffers['message']),
    'secret_buffer': lambda p: PrivateKey(p.raw_buffers['secret']),
    'tweak_buffer': lambda p: (p.priv[0].add(p.raw_buffers['secret']), p.pub[1].multiply(p.raw_buffers['secret'])),
    'seed_buffer': lambda p: BIP32PrivateKey.from_seed(p.raw_buffers['seed'], p.coin),
    'arbitrary_buffer': lambda p: PrivateKey.from_arbitrary_bytes(p.raw_buffers['message']),
    'shared_secret_buffer': lambda p: p.priv[0].shared_secret(p.pub[1], p.raw_buffers['message']),
    'tx_buffer': lambda p: Tx.from_bytes(p.raw_buffers['tx']),
    'signature_buffer': lambda p: Signature(p.raw_buffers['signature'] + b'\x41').to_string(),
    'verify_buffer': lambda p: [p.pub[0].verify_der_signature(p.raw_buffers['signature'], b) for b in p.buffers],
    'base58_buffer': lambda p: [bx.base58_encode_check(b) for b in p.buffers],
    'hash_buffer': lambda p: [f(b) for f in (bx.hash160, bx.double_sha256, bx.sha256) for b in p.buffers],
    'hmac_buffer': lambda p: bx.hmac_sha512(p.raw_buffers['seed'], p.raw_buffers['message']),
    'push_buffer': lambda p: [bx.push_item(b) for b in p.buffers] + [p.scripts[0] << b for b in p.buffers],
    'push_many_buffer': lambda p: p.scripts[0].push_many(p.buffers),
    'pushes_buffer': lambda p: (bx.push_and_drop_items(p.buffers), [bx.item_to_int(b) for b in p.buffers]),
    'varbytes_buffer': lambda p: [bx.pack_varbytes(b) for b in p.buffers],
    'address_buffer': lambda p: bx.P2PKH_Address(p.buffers[2], p.coin).to_string(),
    'hex_buffer': lambda p: bx.hash_to_hex_str(p.buffers[3]),
    'combine_again': lambda p: [PublicKey.combine_keys(p.pub[n:]) for n in range(3)],
    'equal': lambda p: [a == b for a in p.pub + p.priv + p.addresses for b in p.pub + p.priv + p.addresses],
    'in_sets': lambda p: len({*p.pub, *p.priv, *p.addresses, *p.scripts, p.signature, p.p2pk, p.multisig}),
}
SLOW = {'bip39_seed', 'new_words'}


def alone(tag, names):
    '''Each operation's result, on objects of its own.'''
    return {name: canon(outcome(OPS[name], Pool(tag))) for name in names}


class Interleaver:
    '''Forces thread switches at lines of the repository and notes which lines met.'''

    def __init__(self, rng, rate):
        self.seed, self.rate = rng.getrandbits(30), rate
        self.last = (0, None)
        self.pairs = set()
        self.switches = 0
        self.local = threading.local()

    def trace(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(engine.REPO_PKG):
            return None
        if event == 'line':
            me = threading.get_ident()
            where = (frame.f_code.co_name, frame.f_lineno)
            other, line = self.last
            if other != me:
                self.switches += 1
                if line:
                    self.pairs.add((line, where))
            self.last = (me, where)
            self.seed = (self.seed * 1103515245 + 12345) & 0x7fffffff
            if self.seed >> 8 & 0xffff < self.rate:
                time.sleep(0)
        return self.trace


def run_threads(rng, jobs_of, rate):
    '''Run lists of (name, pool) in threads.  [(thread, name, pool, result, canon at once)], interleaver'''
    inter = Interleaver(rng, rate)
    logs = [[] for _ in jobs_of]
    gate = threading.Barrier(len(jobs_of))

    def body(n):
        gate.wait()
        sys.settrace(inter.trace)
        try:
            for name, pool in jobs_of[n]:
                result = outcome(OPS[name], pool)
                logs[n].append((n, name, pool, result))
        finally:
            sys.settrace(None)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(len(jobs_of))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    return [entry for log in logs for entry in log], inter


def pick(rng, count):
    names = [n for n in OPS if n not in SLOW or rng.random() < 0.1]
    return [rng.choice(names) for _ in range(count)]


def judge_log(ctx, log, wanted, key, *detail):
    for entry in log:
        name, pool, result = entry[1:4]
        got, want = canon(result), wanted[pool.tag][name]
        if got != want:
            ctx.fail(key, f'{name} {detail} got {engine.short(got, 600)} want {engine.short(want, 600)}')
        ctx.n('exceptions as results', isinstance(result, Exception))
        ctx.n('results fingerprinted')
    ctx.n('oracle checks', len(log))


@workload(32, 650)
def one_thread(ctx, rng, i):
    '''Everything alone; then in random orders on shared objects, again and again.'''
    tag = f'{ctx.seed}-{i}'
    wanted = {tag: alone(tag, OPS)}
    ctx.n('operations alone', len(OPS))
    for name in OPS:
        ctx.seen('kinds of operation', name)
    broken = [n for n, v in wanted[tag].items() if v[0] == 'exception' and v[1] in
              ('AttributeError', 'NameError', 'KeyError', 'AssertionError')]
    if broken:
        ctx.fail('operation', f'{[(n, wanted[tag][n]) for n in broken]}')
    pool = Pool(tag).all()
    before = pool.fingerprint()
    log, repeat = [], []
    for _ in range(3):
        names = list(OPS)
        rng.shuffle(names)
        for name in names:
            result = outcome(OPS[name], pool)
            log.append((0, name, pool, result))
            repeat.append(canon(result))
            ctx.n('operations repeated')
            ctx.case((tag, name, len(log)))
        ctx.ok(pool.fingerprint() == before, 'an input was modified', names)
        ctx.n('inputs fingerprinted', len(pool.__dict__))
    for entry, first in zip(log, repeat):
        ctx.ok(canon(entry[3]) == first, 'an earlier result changed', entry[1])
    judge_log(ctx, log, wanted, 'result depends on history')
    for _ in range(3):
        # twice in a row, and another pool in between
        name, other = rng.choice(list(OPS)), rng.choice(list(OPS))
        a = canon(outcome(OPS[name], pool))
        outcome(OPS[other], Pool(tag + 'x'))
        ctx.ok(a == canon(outcome(OPS[name], pool)) == wanted[tag][name], 'result depends on history', name, other)


@workload(80, 1900)
def many_threads(ctx, rng, i):
    tags = [f'{ctx.seed}-{i}-{n}' for n in range(2)]
    count, each = rng.choice([4, 6, 8]), rng.choice([60, 100])
    few = rng.random() < 0.5
    names = pick(rng, 6 if few else 60)
    wanted = {tag: alone(tag, set(names)) for tag in tags}
    shared = [Pool(tag) for tag in tags]
    for p in shared:
        p.all()
        if rng.random() < 0.5:
            # a coin nothing was classified with, and keys whose public key was never asked for
            for name in ('fresh_coin', 'priv', 'master'):
                p.__dict__.pop(name)
                getattr(p, name)
    before = [p.fingerprint() for p in shared]
    own = [[Pool(tag).all() for tag in tags] for _ in range(2)]
    jobs = []
    for n in range(count):
        pools = shared if n % 4 < 2 or rng.random() < 0.5 else own[n % 2]
        jobs.append([(rng.choice(names), rng.choice(pools)) for _ in range(each)])
    log, inter = run_threads(rng, jobs, rng.choice([400, 3000, 20000]))
    ctx.n('operations in threads', len(log))
    ctx.n('line switches between threads', inter.switches)
    for pair in inter.pairs:
        ctx.seen('interleavings', pair)
    for n, name, pool, _result in log[::7]:
        ctx.case((pool.tag, name, n))
    ctx.eq(len(log), count * each, 'operations done')
    judge_log(ctx, log, wanted, 'result depends on threads', f'{count} threads')
    ctx.ok([p.fingerprint() for p in shared] == before, 'an input was modified in threads', names)
    ctx.n('inputs fingerprinted', sum(len(p.__dict__) for p in shared))
    ctx.sample(threads=count, operations=len(log), switches=inter.switches, pairs=len(inter.pairs))


def reachable(x, found):
    '''The ids of the mutable objects a value is made of.'''
    if isinstance(x, (list, dict, bytearray, Tx, TxInput, TxOutput)):
        if id(x) in found:
            return
        found[id(x)] = x
    if isinstance(x, (list, tuple)):
        parts = x
    elif isinstance(x, dict):
        parts = x.values()
    elif isinstance(x, (Tx, TxInput, TxOutput)):
        parts = [getattr(x, f.name) for f in attr.fields(type(x))]
    else:
        parts = ()
    for part in parts:
        reachable(part, found)


def spoil(x):
    '''Do what a caller might to a value that is now its own.'''
    if isinstance(x, list):
        x.reverse()
        x[len(x) // 2:] = ['spoiled']
    elif isinstance(x, dict):
        for key in list(x)[::2]:
            x[key] = 'spoiled'
        x['spoiled'] = 1
    elif isinstance(x, bytearray):
        x[:] = b'spoiled' + bytes(len(x))
    elif isinstance(x, Tx):
        x.version, x.locktime, x.inputs, x.outputs = 77, 77, [], []
    elif isinstance(x, TxInput):
        x.prev_hash, x.prev_idx, x.script_sig, x.sequence = b'\7' * 32, 7, Script(b'spoiled'), 7
    else:
        x.value, x.script_pubkey = 7, Script(b'spoiled')


@workload(24, 900)
def own_results(ctx, rng, i):
    '''What was returned is the caller's: changing it changes no later result.'''
    tag = f'{ctx.seed}-own-{i}'
    names = [n for n in OPS if n not in SLOW]
    wanted = alone(tag, names)
    pool = Pool(tag).all()
    before = pool.fingerprint()
    inputs = {}
    reachable(list(pool.__dict__.values()), inputs)
    rng.shuffle(names)
    for _ in range(2):
        for name in names:
            on = rng.choice([pool, pool, Pool(tag)])
            result = outcome(OPS[name], on)
            got = canon(result)
            if got != wanted[name]:
                ctx.fail('result depends on what was done to others', f'{name} got {engine.short(got, 600)} want '
                         f'{engine.short(wanted[name], 600)}')
            ctx.n('oracle checks')
            own = {}
            reachable(result.args if isinstance(result, Exception) else result, own)
            if on is not pool:
                reachable(list(on.__dict__.values()), inputs)
            for id_, part in own.items():
                if id_ not in inputs:
                    spoil(part)
                    ctx.n('returned values changed')
            ctx.case((tag, name, 'own'))
    ctx.ok(pool.fingerprint() == before, 'an input is part of a result', names)


def cold_main(seed, i, out):
    '''In a new process: the first uses are all concurrent.'''
    rng = case_rng(seed, 'C35', 'cold', i)
    tag = f'{seed}-cold-{i}'
    names = pick(rng, 5 if i % 2 else 60)
    jobs = [[(rng.choice(names), Pool(tag)) for _ in range(50)] for _ in range(8)]
    for job in jobs:
        job.insert(0, (names[0], job[0][1]))
    log, inter = run_threads(rng, jobs, rng.choice([3000, 20000]))
    with open(out, 'wb') as f:
        pickle.dump([(n, name, canon(r), isinstance(r, Exception)) for n, name, _p, r in log], f)
        pickle.dump((inter.switches, inter.pairs), f)


@workload(32, 650)
def first_use(ctx, rng, i):
    out = os.path.join(ctx.tmp, f'cold{i}')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = (f'import sys; sys.path[:0] = [{engine.REPO!r}, {here!r}]\n'
            f'import props.c35 as m; m.cold_main({ctx.seed}, {i}, {out!r})')
    done = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, timeout=200,
                          env={**os.environ, 'PYTHONPATH': ''})
    if done.returncode:
        ctx.fail('new process', done.stderr.decode(errors='replace')[-1500:])
    with open(out, 'rb') as f:
        log = pickle.load(f)
        switches, pairs = pickle.load(f)
    os.unlink(out)
    wanted = alone(f'{ctx.seed}-cold-{i}', {name for _n, name, _r, _e in log})
    for n, name, got, error in log:
        if got != wanted[name]:
            ctx.fail('result depends on first use', f'{name} got {engine.short(got, 600)} want '
                     f'{engine.short(wanted[name], 600)}')
        ctx.n('exceptions as results', error)
        ctx.case((i, n, name), n % 7 == 0)
    ctx.n('results fingerprinted', len(log))
    ctx.n('oracle checks', len(log))
    ctx.n('operations in a new process', len(log))
    ctx.n('line switches between threads', switches)
    for pair in pairs:
        ctx.seen('interleavings', pair)
