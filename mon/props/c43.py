import hashlib
import bitcoinx as bx
from bitcoinx import (Address, BIP32PrivateKey, OP_0, OP_RETURN, P2MultiSig_Output, P2PK_Output, P2SH_Address,
                      PrivateKey, PublicKey, Script, SigHash, Signature, Tx, TxInput, TxOutput,
                      bip32_decompose_chain_string, bip32_key_from_string, classify_output_script)
from engine import workload
from lib import COINS
from ref import base58 as b58, bip32, cash, ec, mnemonics, vm, wire
from ref.hashing import dsha, hash160

PROP, LEVEL = 'C43', 'exploration'
FILES = ['tx.py', 'script.py', 'signature.py', 'keys.py', 'address.py', 'bip32.py', 'mnemonic.py', 'base58.py',
         'cashaddr.py', 'hashes.py', 'packing.py', 'coin.py']
RULE = ('whole payments: wallets from mnemonics (with a watching copy that knows only extended public keys), '
        'private key texts, minikeys and tweaked keys; paid at addresses passed as text, public keys, bare and '
        'hashed multisig, and behind dropped data, in transactions passed as hex; found again by classifying the '
        'outputs; spent with every standard signature hash type, inputs signed in any order. Every transaction is '
        'judged from its bytes by an independent node (signature hashes, script interpreter, strict encodings, '
        'finality, conservation of value); then a field is edited, and the library and that node must agree on '
        'which signatures survive. Distinct by the bytes of the transaction.')
REQUIRE = {'payments accepted': 300, 'inputs spent': 700, 'pubkeyhash spent': 200, 'pubkey spent': 60,
           'multisig spent': 60, 'hashed multisig spent': 60, 'spent behind data': 40, 'paid to the watching wallet': 100,
           'uncompressed keys': 60, 'edits that break a signature': 250, 'edits that break none of one': 250,
           'not final': 40, 'stolen refused': 100, 'messages': 100, 'paid to a cash address': 60}
HASH_TYPES = [0x41, 0x41, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3]


class Owned:
    '''A key as its owner has it, and what it should be.'''
    def __init__(self, key, secret, compressed, coin):
        self.key, self.secret, self.compressed = key, secret, compressed
        self.raw = ec.ser(ec.mul_g(secret), compressed)
        self.coin = coin
        self.text = b58.encode_check(bytes([coin.P2PKH_verbyte]) + hash160(self.raw))


class Wallet:
    def __init__(self, ctx, rng, coin):
        self.ctx, self.rng, self.coin = ctx, rng, coin
        words = mnemonics.bip39_encode(rng.randbytes(rng.choice([16, 20, 24, 28, 32])), WORDS)
        phrase = ' '.join(words)
        passphrase = rng.choice(['', '', 'TREZOR', 'naïve'])
        ctx.ok(bx.BIP39Mnemonic.is_valid(phrase, WORDS), 'mnemonic', phrase)
        seed = bx.BIP39Mnemonic.to_seed(phrase, passphrase)
        node = bip32.master(mnemonics.bip39_seed(phrase, passphrase))
        account = rng.choice([0, 1, rng.randrange(2**31)])
        path = rng.choice([f"m/44'/{account}'", f"m/{account}'", f"m/44'/0'/{account}'/0"])
        key = BIP32PrivateKey.from_seed(seed, coin)
        for n in bip32_decompose_chain_string(path):
            key = key.child_safe(n)
            node = node.child(n)
        self.node, self.priv = node, key
        self.watch = bip32_key_from_string(key.public_key.to_extended_key_string())
        self.next = rng.choice([0, 0, 2**31 - 40])

    def new(self):
        '''A key of this wallet.'''
        rng, coin = self.rng, self.coin
        kind = rng.randrange(9)
        if kind < 4:
            n, self.next = self.next, self.next + 1
            node = self.node.child(n)
            seen = self.watch.child_safe(n)
            own = Owned(self.priv.child_safe(n), node.secret, True, coin)
            self.ctx.eq(seen.to_bytes(), own.raw, 'key of the watching wallet', n)
            self.ctx.eq(seen.to_address(coin=coin).to_string(), own.text, 'address of the watching wallet', n)
            self.ctx.n('paid to the watching wallet')
            return own
        secret = rng.randrange(1, ec.N)
        compressed = rng.random() < 0.6
        if kind == 4:
            text = b58.encode_check(bytes([coin.WIF_byte]) + secret.to_bytes(32, 'big') + b'\1' * compressed)
            key = PrivateKey.from_text(text)
        elif kind == 5:
            while True:
                text = 'S' + ''.join(rng.choices(b58.ALPHABET, k=rng.choice([21, 29])))
                if hashlib.sha256((text + '?').encode()).digest()[0] == 0:
                    break
            secret, compressed = int.from_bytes(hashlib.sha256(text.encode()).digest(), 'big'), False
            key = PrivateKey.from_text(text)
        elif kind == 6:
            compressed = True
            key = PrivateKey.from_text(secret.to_bytes(32, 'big').hex())
        elif kind == 7:
            compressed = True
            raw = rng.randbytes(rng.choice([1, 31, 32, 33, 40]))
            secret = int.from_bytes(raw, 'big') % ec.N or 1
            key = PrivateKey.from_arbitrary_bytes(raw) if int.from_bytes(raw, 'big') else PrivateKey.from_int(1)
        else:
            # the payer makes a new key of the owner's public key
            tweak = rng.randrange(1, ec.N)
            base = PrivateKey(((secret - tweak) % ec.N or 1).to_bytes(32, 'big'), compressed, coin)
            secret = ((secret - tweak) % ec.N or 1) + tweak
            secret %= ec.N
            key = base.add(tweak.to_bytes(32, 'big'))
            self.ctx.eq(base.public_key.add(tweak.to_bytes(32, 'big')), key.public_key, 'the payer\'s key')
        return Owned(key, secret, compressed, coin)


class Coins:
    '''Outputs that can be spent, by what is on the chain.'''
    def __init__(self, ctx, rng, coin):
        self.ctx, self.rng, self.coin = ctx, rng, coin
        self.unspent = {}       # (hash, index) -> (value, script)
        self.spender = {}       # the same -> (kind, keys, threshold, redeem script)
        self.by_address = {}    # as the wallet recognises its outputs
        self.by_script = {}
        self.height, self.time = 600_000, 1_600_000_000

    def pay(self, wallet):
        '''An output script, made by the payer of what it is given, and who can spend it.'''
        rng, coin, ctx = self.rng, self.coin, self.ctx
        kind = rng.choice(['pubkeyhash', 'pubkeyhash', 'pubkey', 'multisig', 'hashed multisig', 'behind data'])
        own = wallet.new()
        ctx.n('uncompressed keys', not own.compressed)
        if kind in ('pubkeyhash', 'behind data'):
            if rng.random() < 0.3:
                text = cash.encode(coin.cashaddr_prefix, 0, hash160(own.raw))
                ctx.n('paid to a cash address')
            else:
                text = own.text
            address = Address.from_string(text, coin)
            script = address.to_script()
            self.by_address[own.key.public_key.to_address(coin=coin)] = kind, [own], 1, None
            if kind == 'behind data':
                data = [rng.randbytes(rng.choice([0, 1, 20, 75, 76, 300])) for _ in range(rng.choice([1, 2, 3]))]
                script = Script(bx.push_and_drop_items(data) + bytes(script))
        elif kind == 'pubkey':
            script = P2PK_Output(PublicKey.from_hex(own.raw.hex()), coin).to_script()
            self.by_script[P2PK_Output(own.key.public_key, coin)] = kind, [own], 1, None
        else:
            keys = [own] + [wallet.new() for _ in range(rng.choice([0, 1, 2, 2]))]
            need = rng.randrange(1, len(keys) + 1)
            output = P2MultiSig_Output([rng.choice([o.key.public_key, o.raw, o.raw.hex()]) for o in keys], need)
            script = output.to_script()
            if kind == 'hashed multisig':
                address = P2SH_Address(output.hash160(), coin)
                self.by_address[address] = kind, keys, need, bytes(script)
                script = Address.from_string(address.to_string(), coin).to_script()
            else:
                self.by_script[P2MultiSig_Output([o.key.public_key for o in keys], need)] = kind, keys, need, None
        return script

    def receive(self, text):
        '''A transaction arrives.'''
        tx = Tx.from_hex(text)
        raw = bytes.fromhex(text)
        t, _ = wire.parse_tx(raw)
        self.ctx.eq(tx.hash(), dsha(raw), 'transaction hash')
        for index, (output, (value, script)) in enumerate(zip(tx.outputs, t[2])):
            found = classify_output_script(output.script_pubkey, self.coin)
            spender = None
            if isinstance(found, Address):
                spender = self.by_address.get(found)
            elif isinstance(found, (P2PK_Output, P2MultiSig_Output)):
                spender = self.by_script.get(found)
            if spender:
                self.unspent[tx.hash(), index] = value, script
                self.spender[tx.hash(), index] = spender
                self.ctx.eq(output.value, value, 'value')
            else:
                self.ctx.ok(script[:1] == b'\x6a' or script[:2] == b'\0\x6a', 'output not recognised', script.hex())
        return tx


def sign(ctx, rng, coins, tx, index, hash_type, thief=None):
    '''Sign an input in place.'''
    txin = tx.inputs[index]
    point = txin.prev_hash, txin.prev_idx
    value, script = coins.unspent[point]
    kind, keys, need, redeem = coins.spender[point]
    code = Script(redeem or script)
    sighash = SigHash(hash_type)
    signers = keys
    if kind in ('multisig', 'hashed multisig'):
        signers = [keys[n] for n in sorted(rng.sample(range(len(keys)), need))]
    sigs = []
    for n, own in enumerate(signers):
        msg_hash = tx.signature_hash(index, value, code, sighash=sighash)
        key = own.key if not thief or n else thief.key
        sigs.append(Signature.from_der_sig(key.sign(msg_hash, None), sighash))
    push = rng.random() < 0.5
    result = Script()
    if len(keys) > 1 or 'multisig' in kind:
        result = result << OP_0
    if push:
        result = result.push_many([bytes(s) for s in sigs])
    else:
        for s in sigs:
            result = result << bytes(s)
    if kind in ('pubkeyhash', 'behind data'):
        owner = thief or keys[0]
        result = result << owner.key.public_key.to_bytes()
    if redeem:
        result = result << redeem
    txin.script_sig = result
    return signers, sigs, code


def survives(ctx, tx, index, value, signed):
    '''Whether the signatures of an input are still good, according to the library.'''
    signers, sigs, code = signed
    return all(own.key.public_key.verify_der_signature(
        s.der_signature, tx.signature_hash(index, value, code, sighash=s.sighash), None)
        for own, s in zip(signers, sigs))


def edit(rng, tx):
    '''Change something in a transaction.'''
    kind = rng.randrange(12)
    ins, outs = tx.inputs, tx.outputs
    n, m = rng.randrange(len(ins)), rng.randrange(len(outs))
    if kind == 0:
        tx.version += 1
    elif kind == 1:
        tx.locktime ^= 1
    elif kind == 2:
        ins[n].sequence ^= 1
    elif kind == 3:
        outs[m].value ^= 1
    elif kind == 4:
        outs[m].script_pubkey = outs[m].script_pubkey << OP_0
    elif kind == 5:
        outs.append(TxOutput(0, Script() << OP_0 << OP_RETURN))
    elif kind == 6:
        outs.pop(m)
    elif kind == 7:
        ins.append(TxInput(rng.randbytes(32), 0, Script(), 0xffffffff))
    elif kind == 8:
        ins[n].prev_idx ^= 1
    elif kind == 9:
        a = rng.randrange(len(outs))
        outs[a], outs[m] = outs[m], outs[a]
    elif kind == 10:
        ins.insert(rng.randrange(len(ins)), TxInput(rng.randbytes(32), 0, Script(), 1))
    else:
        ins[n].script_sig = Script()
    return kind


def whole(ctx, coins, tx):
    '''The independent node's verdict.'''
    raw = bytes.fromhex(tx.to_hex())
    ctx.case(raw)
    try:
        return vm.valid(raw, coins.unspent, coins.height, coins.time), None
    except vm.Bad as e:
        return None, str(e)


@workload(320, 24000)
def payments(ctx, rng, i):
    coin = rng.choice(COINS)
    wallet = Wallet(ctx, rng, coin)
    coins = Coins(ctx, rng, coin)
    for _ in range(rng.choice([1, 2])):
        # Of unknown origin
        tx = Tx(rng.choice([1, 2]), [TxInput(rng.randbytes(32), rng.randrange(4), Script(), 0xffffffff)],
                [TxOutput(rng.randrange(1000, 10**rng.choice([5, 9, 14])), coins.pay(wallet))
                 for _ in range(rng.choice([1, 2, 4]))], 0)
        if rng.random() < 0.3:
            tx.outputs.insert(0, TxOutput(0, Script() << OP_0 << OP_RETURN << rng.randbytes(40)))
        coins.receive(tx.to_hex())
    for _ in range(2):
        spend(ctx, rng, wallet, coins)


def spend(ctx, rng, wallet, coins):
    points = rng.sample(sorted(coins.unspent), rng.randrange(1, min(4, len(coins.unspent)) + 1))
    total = sum(coins.unspent[p][0] for p in points)
    outs = []
    for _ in range(rng.choice([1, 2, 3])):
        value = rng.choice([total // 4, total // 3, rng.randrange(total // 3 + 1)])
        outs.append(TxOutput(value, coins.pay(wallet)))
    if rng.random() < 0.2:
        outs.append(TxOutput(0, Script() << OP_0 << OP_RETURN << b'data'))
    locktime = rng.choice([0, 0, 0, coins.height - 1, coins.height, coins.time - 1, coins.time, 499_999_999])
    tx = Tx(rng.choice([1, 2]), [TxInput(*p, Script(), rng.choice([0xffffffff, 0xffffffff, 0xfffffffe]))
                                 for p in points], outs, locktime)
    signed = {}
    order = list(range(len(points)))
    rng.shuffle(order)
    for index in order:
        signed[index] = sign(ctx, rng, coins, tx, index, rng.choice(HASH_TYPES))
    final = bool(tx.is_final_for_block(coins.height, coins.time))
    text = tx.to_hex()
    t, why = whole(ctx, coins, tx)
    ctx.eq(t is not None, final, 'payment judged', why, text, [coins.spender[p][0] for p in points])
    if not final:
        ctx.eq(why, 'not final', 'payment judged', text)
        ctx.n('not final')
        coins.height, coins.time = 500_000_000, 2**32
        t, why = whole(ctx, coins, tx)
        coins.height, coins.time = 600_000, 1_600_000_000
        ctx.ok(t is not None, 'payment judged', why, text)
    ctx.n('payments accepted')
    ctx.eq(len(text), 2 * tx.size(), 'size')
    ctx.ok(tx.total_output_value() <= total, 'total')
    for index, p in enumerate(points):
        kind = coins.spender[p][0]
        ctx.n('inputs spent')
        ctx.n('spent behind data' if kind == 'behind data' else f'{kind} spent')
    # Someone else's key
    index = rng.randrange(len(points))
    thief = wallet.new()
    stolen = Tx.from_hex(text)
    sign(ctx, rng, coins, stolen, index, rng.choice(HASH_TYPES), thief)
    t, why = whole(ctx, coins, stolen)
    ctx.ok(t is None, 'stolen', stolen.to_hex(), coins.spender[points[index]][0])
    ctx.n('stolen refused')
    # Edits: what was signed no longer is, and nothing else
    for _ in range(4):
        edited = Tx.from_hex(text)
        kind = edit(rng, edited)
        e, _ = wire.parse_tx(edited.to_bytes())
        for txin_index, txin in enumerate(edited.inputs):
            p = txin.prev_hash, txin.prev_idx
            if p not in points:
                continue
            index = points.index(p)
            value, script = coins.unspent[p]
            code = bytes(signed[index][2])
            good = survives(ctx, edited, txin_index, value, signed[index])
            want = all(vm.check_signature(bytes(s), own.raw, (e, txin_index, value, code))
                       for own, s in zip(*signed[index][:2]))
            ctx.eq(good, want, 'signature after an edit', kind, 'input', txin_index, 'hash type',
                   [hex(s.sighash) for s in signed[index][1]], text, edited.to_hex())
            ctx.n('edits that break none of one' if want else 'edits that break a signature')
    # Who was paid can prove it
    own = coins.spender[points[0]][1][0]
    message = rng.choice(['', 'owner', 'ünï', 'x' * 300])
    proof = own.key.sign_message_to_base64(message)
    ctx.ok(PublicKey.verify_message_and_address(proof, message, own.text), 'proof of ownership')
    ctx.ok(not PublicKey.verify_message_and_address(proof, message + '.', own.text), 'proof of another')
    ctx.n('messages')
    ctx.sample(tx=text, kinds=[coins.spender[p][0] for p in points])
    coins.receive(text)
    for p in points:
        del coins.unspent[p]


WORDS = bx.Wordlists.bip39_wordlist('english.txt')
