'''Monitor of the calls into the C library: every buffer handed over must be as large as the library takes it to be,
outputs must be the callee's to write, and enumerated arguments must be ones it does not abort on.

Installed over electrumsv_secp256k1.lib before bitcoinx is imported, so it sees the calls of the real code.'''
import electrumsv_secp256k1 as package

ffi, real = package.ffi, package.lib
NAMED = {'secp256k1_pubkey': 64, 'secp256k1_ecdsa_signature': 64, 'secp256k1_ecdsa_recoverable_signature': 65}
calls = {}              # function: how often
faults = []             # (function, what) seen and not yet reported
sizes_seen = set()      # (function, argument, size)


def size_of(x):
    '''Bytes behind an argument; None if that cannot be told.'''
    if isinstance(x, (bytes, list, tuple)):
        return len(x)
    if not isinstance(x, ffi.CData):
        return None                 # refused by cffi itself
    t = ffi.typeof(x)
    if t.kind == 'array':
        return ffi.sizeof(x)
    if t.kind == 'pointer':
        if x == ffi.NULL:
            return 0
        if t.item.kind == 'struct':
            return ffi.sizeof(t.item)
        if t.item.kind == 'primitive' and ffi.sizeof(t.item) > 1:
            return ffi.sizeof(t.item)
    return None


def R(n):
    return lambda x, args: None if size_of(x) is None or size_of(x) >= n else f'reads {n} bytes of {size_of(x)}'


def W(n):
    def rule(x, args):
        if isinstance(x, bytes):
            return 'writes to a bytes object'
        size = size_of(x)
        return None if size is None or size >= n else f'writes {n} bytes to {size}'
    return rule


def counted(which):
    '''A buffer whose length is another argument.'''
    def rule(x, args):
        size, n = size_of(x), args[which]
        if isinstance(n, int) and size is not None and n > size:
            return f'reads {n} bytes of {size}'
    return rule


def out_buffer(x, args):
    '''An output whose room is a size_t pointed at by the next argument.'''
    if isinstance(x, bytes):
        return 'writes to a bytes object'
    n = args[2]
    if isinstance(n, ffi.CData) and size_of(n) == ffi.sizeof('size_t') and size_of(x) is not None:
        if n[0] > size_of(x):
            return f'may write {n[0]} bytes to {size_of(x)}'


def room(x, args):
    '''The room for a serialized key: the library aborts if it is too small, or on an unknown form.'''
    compressed, full = real.SECP256K1_EC_COMPRESSED, real.SECP256K1_EC_UNCOMPRESSED
    if args[4] not in (compressed, full):
        return f'unknown form {args[4]}'
    if isinstance(x, ffi.CData) and size_of(x) == ffi.sizeof('size_t'):
        if x[0] < (33 if args[4] == compressed else 65):
            return f'too little room, {x[0]}'


def listed(x, args):
    if isinstance(x, (list, tuple)):
        if args[3] > len(x):
            return f'reads {args[3]} keys of {len(x)}'
        for key in x:
            if isinstance(key, ffi.CData) and key == ffi.NULL:
                return 'null key'
        if not x:
            return 'no keys'


def recid(x, args):
    if isinstance(x, int) and not 0 <= x <= 3:
        return f'recovery id {x}'


PK, SIG, REC = 64, 64, 65
RULES = {
    'secp256k1_ec_seckey_verify': {1: R(32)},
    'secp256k1_ec_pubkey_create': {1: W(PK), 2: R(32)},
    'secp256k1_ec_privkey_tweak_add': {1: W(32), 2: R(32)},
    'secp256k1_ec_privkey_tweak_mul': {1: W(32), 2: R(32)},
    'secp256k1_ec_pubkey_serialize': {1: out_buffer, 2: room, 3: R(PK)},
    'secp256k1_ec_pubkey_parse': {1: W(PK), 2: counted(3)},
    'secp256k1_ec_pubkey_tweak_add': {1: W(PK), 2: R(32)},
    'secp256k1_ec_pubkey_tweak_mul': {1: W(PK), 2: R(32)},
    'secp256k1_ec_pubkey_combine': {1: W(PK), 2: listed},
    'secp256k1_ecdh': {1: W(32), 2: R(PK), 3: R(32)},
    'secp256k1_ecdsa_recover': {1: W(PK), 2: R(REC), 3: R(32)},
    'secp256k1_ecdsa_recoverable_signature_convert': {1: W(SIG), 2: R(REC)},
    'secp256k1_ecdsa_recoverable_signature_parse_compact': {1: W(REC), 2: R(64), 3: recid},
    'secp256k1_ecdsa_recoverable_signature_serialize_compact': {1: W(64), 2: W(4), 3: R(REC)},
    'secp256k1_ecdsa_sign': {1: W(SIG), 2: R(32), 3: R(32)},
    'secp256k1_ecdsa_sign_recoverable': {1: W(REC), 2: R(32), 3: R(32)},
    'secp256k1_ecdsa_signature_parse_compact': {1: W(SIG), 2: R(64)},
    'secp256k1_ecdsa_signature_parse_der': {1: W(SIG), 2: counted(3)},
    'secp256k1_ecdsa_signature_serialize_compact': {1: W(64), 2: R(SIG)},
    'secp256k1_ecdsa_signature_serialize_der': {1: out_buffer, 3: R(SIG)},
    'secp256k1_ecdsa_verify': {1: R(SIG), 2: R(32), 3: R(PK)},
}


class Refused(BaseException):
    '''Raised instead of making a call that would touch memory it must not.'''


def monitored(name, fn, rules):
    def call(*args):
        calls[name] = calls.get(name, 0) + 1
        for n, rule in rules.items():
            if n < len(args):
                sizes_seen.add((name, n, size_of(args[n])))
                what = rule(args[n], args)
                if what:
                    faults.append((name, f'argument {n}: {what}'))
                    raise Refused(f'{name} argument {n}: {what}')
        if args and isinstance(args[0], ffi.CData) and args[0] == ffi.NULL:
            faults.append((name, 'no context'))
            raise Refused(f'{name}: no context')
        return fn(*args)
    return call


class Lib:
    def __init__(self):
        for name in dir(real):
            value = getattr(real, name)
            if name in RULES:
                value = monitored(name, value, RULES[name])
            setattr(self, name, value)


def install():
    package.lib = Lib()
