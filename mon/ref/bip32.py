'''BIP32 from the text of the proposal.'''
import hashlib

from ref import base58, ec
from ref.hashing import hash160
import taps

HARD = 1 << 31


def hmac512(key, msg):
    return taps.real_hmac_digest(key, msg, 'sha512')


class Node:
    '''Private if secret is not None.'''

    def __init__(self, secret, point, chain, depth=0, index=0, fingerprint=bytes(4)):
        self.secret = secret
        self.point = ec.mul_g(secret) if point is None else point
        self.chain = chain
        self.depth = depth
        self.index = index
        self.parent_fingerprint = fingerprint

    @property
    def identifier(self):
        return hash160(ec.ser(self.point))

    def neuter(self):
        return Node(None, self.point, self.chain, self.depth, self.index, self.parent_fingerprint)

    def child(self, n, result=None):
        '''None if the derivation is invalid.  result replaces the HMAC.'''
        if n >= HARD:
            msg = b'\0' + self.secret.to_bytes(32, 'big')
        else:
            msg = ec.ser(self.point)
        I = result or hmac512(self.chain, msg + n.to_bytes(4, 'big'))    # noqa: E741
        L = int.from_bytes(I[:32], 'big')
        if L >= ec.N:
            return None
        secret = point = None
        if self.secret is not None:
            secret = (self.secret + L) % ec.N
            if not secret:
                return None
        else:
            point = ec.add(self.point, ec.mul_g(L) if L else ec.INF)
            if point is ec.INF:
                return None
        return Node(secret, point, I[32:], self.depth + 1, n, self.identifier[:4])

    def payload(self, coin):
        if self.secret is None:
            ver, key = coin.xpub_verbytes, ec.ser(self.point)
        else:
            ver, key = coin.xprv_verbytes, b'\0' + self.secret.to_bytes(32, 'big')
        return ver + bytes([self.depth]) + self.parent_fingerprint + \
            self.index.to_bytes(4, 'big') + self.chain + key

    def text(self, coin):
        return base58.encode_check(self.payload(coin))


def master(seed):
    I = hmac512(b'Bitcoin seed', seed)     # noqa: E741
    secret = int.from_bytes(I[:32], 'big')
    return Node(secret, None, I[32:]) if 0 < secret < ec.N else None


def rand_node(rng, private):
    depth = rng.choice([0, 1, 2, 3, 5, 127, 128, 253, 254])
    chain = rng.choice([rng.randbytes(32), rng.randbytes(32), bytes(32), b'\xff' * 32])
    index, fingerprint = rand_index(rng, True), rng.randbytes(4)
    if depth == 0:
        index, fingerprint = 0, bytes(4)
    node = Node(ec.rand_scalar(rng), None, chain, depth, index, fingerprint)
    return node if private else node.neuter()


def rand_index(rng, hardened):
    n = rng.choice([0, 1, 2, 44, 255, 256, 65535, 65536, HARD - 1, HARD - 2, rng.randrange(HARD),
                    rng.randrange(1 << rng.randrange(1, 32))])
    return n + HARD if hardened and rng.random() < .4 and n < HARD else n % HARD
