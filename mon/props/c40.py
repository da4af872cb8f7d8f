import importlib
import bitcoinx as bx
import cmon
from bitcoinx import PrivateKey, PublicKey, Signature
import engine
from engine import workload
from lib import COINS
from props import c35
from ref import ec

PROP, LEVEL = 'C40', 'exploration'
FILES = ['keys.py', 'signature.py', 'misc.py']
RULE = ('the C library is entered through a monitor that judges every call: the size of each buffer against what '
        'the library reads or writes, outputs that are not immutable objects, forms and recovery ids that it would '
        'abort on. Under it: every operation on keys and signatures with buffers of 0 to 140 bytes and of other '
        'types; hashers that return other sizes and types; cases of the other checks; the operations of C35. The '
        'death of the process is a violation. Distinct by (operation, argument).')
REQUIRE = {'functions called': 17, 'calls judged': 40000, 'hostile operations': 15000,
           'other cases': 250, 'buffer sizes seen': 120}
ASSUMPTIONS = ['the C library itself is right: it is judged by how it is called, not inside']


def run(ctx, what, fn, *args, **kwargs):
    '''Call; any Python exception will do, a fault will not.'''
    before = sum(cmon.calls.values())
    try:
        result = fn(*args, **kwargs)
        if hasattr(result, '__next__'):
            list(result)
    except cmon.Refused:
        pass
    except Exception:
        ctx.n('exceptions')
    judge(ctx, before, what, args, kwargs)


def judge(ctx, before, what, *info):
    ctx.n('calls judged', sum(cmon.calls.values()) - before)
    for name in cmon.calls:
        ctx.seen('functions called', name)
    for s in cmon.sizes_seen:
        ctx.seen('buffer sizes seen', s)
    cmon.sizes_seen.clear()
    if cmon.faults:
        fault = list(cmon.faults)
        cmon.faults.clear()
        ctx.fail('C call', f'{fault} in {what} with {engine.short(info, 600)}')
    ctx.n('oracle checks')


def buffer(rng, size=None):
    if size is None:
        size = rng.choice([0, 1, 8, 20, 31, 32, 33, 63, 64, 65, 66, 70, 71, 72, 73, rng.randrange(140)])
    raw = rng.choice([rng.randbytes, bytes, lambda n: b'\xff' * n, lambda n: (b'\2' + rng.randbytes(n))[:n],
                      lambda n: (b'\x30' + bytes([max(n - 2, 0) & 127]) + b'\2\1\1\2\1\1' + rng.randbytes(n))[:n],
                      lambda n: (b'\4' + bytes(n))[:n]])(size)
    if rng.random() < .25:
        raw = rng.choice([bytearray(raw), memoryview(raw), list(raw), tuple(raw), raw.hex(), raw.decode('latin-1'),
                          None, size, bx.Script(raw), set(raw), cmon.ffi.new('unsigned char[]', raw or b'\0'),
                          cmon.ffi.from_buffer(raw)])
    return raw


def hasher_of(rng):
    out = buffer(rng)
    return rng.choice([None, bx.sha256, bx.double_sha256, bx.sha512, bx.hash160, lambda m: out, lambda m: out,
                       lambda m: m])


OPS = {
    'PrivateKey': lambda p, rng: PrivateKey(buffer(rng)),
    'from_bytes': lambda p, rng: PublicKey.from_bytes(buffer(rng)),
    'pub from_hex': lambda p, rng: PublicKey.from_hex(buffer(rng)),
    'priv from_hex': lambda p, rng: PrivateKey.from_hex(buffer(rng)),
    'from_int': lambda p, rng: PrivateKey.from_int(rng.getrandbits(rng.choice([0, 1, 255, 256, 257, 600]))),
    'from_text': lambda p, rng: PrivateKey.from_text(buffer(rng)),
    'from_random': lambda p, rng: PrivateKey.from_random(source=iter_source(rng)),
    'from_point': lambda p, rng: PublicKey.from_point(rng.getrandbits(256), rng.getrandbits(rng.choice([1, 256]))),
    'add': lambda p, rng: p.priv.add(buffer(rng)),
    'multiply': lambda p, rng: p.priv.multiply(buffer(rng)),
    'pub add': lambda p, rng: p.pub.add(buffer(rng)),
    'pub multiply': lambda p, rng: p.pub.multiply(buffer(rng)),
    'extended add': lambda p, rng: p.master.add(buffer(rng)),
    'extended pub multiply': lambda p, rng: p.master.public_key.multiply(buffer(rng)),
    'child': lambda p, rng: p.master.child(rng.choice([0, -1, 1 << 31, 1 << 32, 5])),
    'combine': lambda p, rng: PublicKey.combine_keys(rng.choice([[], [p.pub], [p.pub] * 3, [p.pub, p.pub2], (),
                                                                 iter([p.pub]), [None], p.pub])),
    'combine cancelling': lambda p, rng: PublicKey.combine_keys([p.pub, p.minus]),
    'sign': lambda p, rng: p.priv.sign(buffer(rng), hasher_of(rng)),
    'sign_recoverable': lambda p, rng: p.priv.sign_recoverable(buffer(rng), hasher_of(rng)),
    'sign_message': lambda p, rng: p.priv.sign_message(buffer(rng), hasher_of(rng)),
    'sign_message_to_base64': lambda p, rng: p.priv.sign_message_to_base64(buffer(rng), hasher_of(rng)),
    'verify der': lambda p, rng: p.pub.verify_der_signature(buffer(rng), buffer(rng), hasher_of(rng)),
    'verify der hash': lambda p, rng: p.pub.verify_der_signature(p.der, buffer(rng), hasher_of(rng)),
    'verify recoverable': lambda p, rng: p.pub.verify_recoverable_signature(compact(rng, p), buffer(rng),
                                                                            hasher_of(rng)),
    'recover': lambda p, rng: PublicKey.from_recoverable_signature(compact(rng, p), buffer(rng), hasher_of(rng)),
    'from_signed_message': lambda p, rng: PublicKey.from_signed_message(header(rng, p), buffer(rng), hasher_of(rng)),
    'verify_message': lambda p, rng: p.pub.verify_message(header(rng, p), buffer(rng), hasher_of(rng)),
    'verify_message_and_address': lambda p, rng: PublicKey.verify_message_and_address(
        header(rng, p), buffer(rng), p.pub.to_address(), hasher=hasher_of(rng)),
    'shared_secret': lambda p, rng: p.priv.shared_secret(p.pub2, buffer(rng), hasher_of(rng)),
    'ecdh': lambda p, rng: p.priv.ecdh_shared_secret(rng.choice([p.pub2, p.pub, None, buffer(rng)])),
    'der to compact': lambda p, rng: bx.der_signature_to_compact(rng.choice([buffer(rng), mangle(rng, p.der)])),
    'compact to der': lambda p, rng: bx.compact_signature_to_der(rng.choice([buffer(rng), mangle(rng, bytes(64))])),
    'Signature': lambda p, rng: parts(Signature(rng.choice([buffer(rng), mangle(rng, p.der + b'\x41')]))),
    'decrypt': lambda p, rng: p.priv.decrypt_message(rng.choice([buffer(rng), mangle(rng, p.cipher)])),
    'encrypt': lambda p, rng: p.pub.encrypt_message(buffer(rng), rng.choice([b'BIE1', b'', b'xy'])),
    'to_bytes': lambda p, rng: p.pub.to_bytes(compressed=rng.choice([None, True, False, 0, 1, 2, 'x', []])),
    'to_hex': lambda p, rng: p.pub.to_hex(compressed=rng.choice([None, True, False, 0])),
    'odd compression': lambda p, rng: PrivateKey(p.priv.to_bytes(), rng.choice([0, 2, None, 'x'])).public_key.to_bytes(),
    'complement': lambda p, rng: p.pub.complement().to_bytes(),
    'xkey': lambda p, rng: bx.bip32_key_from_string(bx.base58_encode_check(
        rng.choice(COINS).xpub_verbytes + rng.randbytes(41) + bytes(buffer(rng, rng.choice([33, 33, 32, 34, 0]))))),
    'xprv': lambda p, rng: bx.bip32_key_from_string(bx.base58_encode_check(
        rng.choice(COINS).xprv_verbytes + rng.randbytes(41) + b'\0' + rng.choice(
            [bytes(32), b'\xff' * 32, rng.randbytes(32), rng.randbytes(31), b'']))),
    'WIF': lambda p, rng: PrivateKey.from_WIF(bx.base58_encode_check(
        b'\x80' + rng.randbytes(rng.choice([0, 1, 31, 32, 33, 34, 64])) + rng.choice([b'', b'\1']))),
    'classify': lambda p, rng: classified(rng),
}


def classified(rng):
    keys = [rng.choice([b'\2', b'\3', b'\4', b'\6', b'']) + rng.randbytes(rng.choice([32, 64, 31, 0])) for _ in range(3)]
    for raw in (bx.Script() << keys[0] << bx.OP_CHECKSIG,
                bx.Script() << 1 << keys[0] << keys[1] << keys[2] << 3 << bx.OP_CHECKMULTISIG):
        for coin in COINS[:2]:
            raw.classify_output_script(coin)


def iter_source(rng):
    left = [bytes(32), b'\xff' * 32]

    def source(n):
        return left.pop() if left else rng.randbytes(n)
    return source


def mangle(rng, raw):
    raw = bytearray(raw)
    r = rng.randrange(5)
    if r == 0 and raw:
        raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
    elif r == 1:
        del raw[rng.randrange(len(raw) + 1):]
    elif r == 2:
        raw += rng.randbytes(rng.randrange(80))
    elif r == 3 and raw:
        raw[:4] = rng.randbytes(4)
    return bytes(raw)


def compact(rng, p):
    r = rng.random()
    if r < .4:
        return buffer(rng)
    if r < .7:
        return p.rec[:64] + bytes([rng.choice([0, 1, 2, 3, 4, 5, 27, 31, 128, 255])])
    return mangle(rng, p.rec)


def header(rng, p):
    r = rng.random()
    if r < .3:
        return buffer(rng)
    if r < .7:
        return bytes([rng.randrange(256)]) + p.msg[1:]
    return mangle(rng, p.msg)


def parts(s):
    for fn in (s.der_signature, s.to_compact, s.r_value, s.s_value, s.is_missing):
        try:
            fn()
        except Exception:
            pass
    return s.sighash


class Parties:
    def __init__(self, rng):
        k = ec.rand_scalar(rng)
        self.priv = PrivateKey(k.to_bytes(32, 'big'), rng.random() < .5)
        self.pub = self.priv.public_key
        self.minus = PrivateKey((ec.N - k).to_bytes(32, 'big')).public_key
        self.pub2 = PrivateKey(ec.rand_scalar(rng).to_bytes(32, 'big')).public_key
        self.master = bx.BIP32PrivateKey.from_seed(rng.randbytes(16), bx.Bitcoin)
        self.der = self.priv.sign(b'm')
        self.rec = self.priv.sign_recoverable(b'm')
        self.msg = self.priv.sign_message(b'm')
        self.cipher = self.pub.encrypt_message(b'm')


@workload(560, 30000)
def hostile(ctx, rng, i):
    ctx.ok(isinstance(cmon.package.lib, cmon.Lib), 'harness: the monitor is not installed')
    before = sum(cmon.calls.values())
    p = Parties(rng)
    judge(ctx, before, 'setting up')
    images = p.priv.to_bytes(), p.pub.to_bytes(), p.pub2.to_bytes(), p.master.to_extended_key_string()
    for name, op in OPS.items():
        state = rng.getrandbits(64)
        ctx.n('hostile operations')
        ctx.case((name, state))
        run(ctx, f'{name} {state}', op, p, engine.random.Random(state))
    now = p.priv.to_bytes(), p.pub.to_bytes(), p.pub2.to_bytes(), p.master.to_extended_key_string()
    ctx.eq(now, images, 'a key was written to')


@workload(300, 6000)
def other_checks(ctx, rng, i):
    '''Cases of other checks under the monitor; their own oracles judge the rest, elsewhere.'''
    prop = OTHERS[i % len(OTHERS)]
    module = importlib.import_module(f'props.{prop.lower()}')
    work = rng.choice(module.WORKLOADS)
    index = rng.randrange(max(1, min(work.quick, 300)))
    other = engine.Ctx(prop, 'quick', ctx.seed, ctx.tmp)
    other.workload, other.index = work.name, index
    before = sum(cmon.calls.values())
    try:
        work.fn(other, engine.case_rng(ctx.seed, prop, work.name, index), index)
    except engine.Violation:
        ctx.n('cases that fail')
    except cmon.Refused:
        pass
    except Exception:
        ctx.n('cases that fail')
    ctx.n('other cases')
    ctx.seen('other workloads', (prop, work.name))
    ctx.case((prop, work.name, index))
    judge(ctx, before, f'{prop} {work.name} {index}')


OTHERS = ['C09', 'C12', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C22', 'C23', 'C24', 'C36']


@workload(24, 1000)
def operations(ctx, rng, i):
    before = sum(cmon.calls.values())
    names = [n for n in c35.OPS if n not in c35.SLOW]
    pool = c35.Pool(f'{ctx.seed}-c40-{i}')
    for name in names:
        run(ctx, f'C35 {name} {i}', c35.OPS[name], pool)
        ctx.case((name, i))
    judge(ctx, before, 'operations')
