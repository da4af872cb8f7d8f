'''A model of a tree of block headers, coins under which headers are easily made, and the comparison of
everything a Headers object shows with the model.'''
import hashlib
import os
import struct

import bitcoinx as bx
from bitcoinx import CheckPoint, Headers
from ref import work

HEADER = struct.Struct('<i32s32sIII')
BITS = [0x207fffff, 0x2000ffff, 0x1f00ffff, 0x1d00ffff, 0x1b0404cb, 0x180696f4, 0x1d00fffe, 0x0f008000,
        0x1c7fffff, 0x1d008000, 0x107fffff, 0x1e0377ae]
WORK = {bits: work.work(bits) for bits in BITS}
NETWORK = (0, 5, 128, b'\x04\x88\xb2\x1e', b'\x04\x88\xad\xe4', 'bitcoincash')

# How a header's nonce sets its hash in a SimCoin
LOW, EXACT, OVER, HIGH = range(4)


def header_bits(raw):
    return int.from_bytes(raw[72:76], 'little')


class SimCoin(bx.Coin):
    '''Hashes are chosen: the nonce's low 2 bits say whether the hash is below, at, just above or far above
    the target, and the short hash (the first four bytes) is from the coin's alphabet.'''

    def __init__(self, genesis, rule, alphabet=None):
        super().__init__('simulated', genesis.hex(), rule, *NETWORK)
        self.alphabet = alphabet
        self.calls = 0

    def header_hash(self, raw_header):
        self.calls += 1
        digest = hashlib.blake2b(raw_header, digest_size=32).digest()
        short = digest[:4]
        if self.alphabet:
            short = bytes(self.alphabet[b % len(self.alphabet)] for b in short)
        kind = raw_header[76] & 3
        target = work.decode(header_bits(raw_header))[0]
        if kind == LOW:
            return short + digest[4:12] + bytes(20)
        if kind == EXACT:
            value = target
        elif kind == OVER:
            value = target + 1
        else:
            return digest[:31] + b'\xff'
        return (value & work.MAX256).to_bytes(32, 'little')


class RealCoin(bx.Coin):
    '''Real hashes, at the lowest difficulty.'''

    def __init__(self, genesis, rule):
        super().__init__('easy', genesis.hex(), rule, *NETWORK)


# Difficulty rules, as (for the library, for the model) pairs

def rule_constant(bits):
    return (lambda headers, chain, height, timestamp: bits), (lambda parent, timestamp: bits)


def rule_timestamp(table):
    return (lambda headers, chain, height, timestamp: table[timestamp % len(table)],
            lambda parent, timestamp: table[timestamp % len(table)])


def rule_branch(table, depth):
    '''Depends on the headers of the branch, through the queries the real rules use.'''
    def library(headers, chain, height, timestamp):
        total = timestamp
        for h in range(height - 1, max(headers.checkpoint.height, height - depth) - 1, -1):
            header = headers.header_at_height(chain, h)
            total += header.timestamp + header.nonce
        return table[total % len(table)]

    def model(parent, timestamp):
        total, node = timestamp, parent
        for _ in range(depth):
            if node is None:
                break
            total += node.time + node.nonce
            node = node.parent
        return table[total % len(table)]
    return library, model


class Node:
    __slots__ = ('raw', 'hash', 'height', 'parent', 'bits', 'time', 'nonce', 'work', 'chain', 'index', 'position')

    def __init__(self, raw, hash_, height, parent, prev_work):
        self.raw, self.hash, self.height, self.parent = raw, hash_, height, parent
        _v, _p, _m, self.time, self.bits, self.nonce = HEADER.unpack(raw)
        self.work = prev_work + work.work(self.bits)
        self.chain = self.index = self.position = None

    def ancestor(self, height):
        node = self
        while node is not None and node.height > height:
            # Jump over a whole chain at a time
            chain = node.chain
            if height < chain.first_height:
                node = chain.nodes[0].parent
            else:
                return chain.nodes[height - chain.first_height]
        return node


class ModelChain:
    __slots__ = ('id', 'parent', 'first_height', 'nodes')

    def __init__(self, id_, parent, node):
        self.id, self.parent, self.first_height, self.nodes = id_, parent, node.height, [node]

    @property
    def tip(self):
        return self.nodes[-1]

    def at(self, height):
        '''The node at a height not below the root's, or None.'''
        if height > self.tip.height:
            return None
        return self.tip.ancestor(height)


class Tree:
    '''What a Headers object should hold.  Headers below the root may be set, by height.'''

    def __init__(self, coin, required, raw, height, prev_work):
        self.coin, self.required = coin, required
        self.prev_work = prev_work
        self.root = Node(raw, coin.header_hash(raw), height, None, prev_work)
        self.by_hash = {}
        self.order = []
        self.chains = []
        self.below = {}
        self._add(self.root)

    @property
    def checkpoint(self):
        return CheckPoint(self.root.raw, self.root.height, self.prev_work)

    def _add(self, node):
        node.position = len(self.order)
        node.index = node.position + self.root.height
        parent = node.parent
        if parent is not None and parent.chain.tip is parent:
            node.chain = parent.chain
            node.chain.nodes.append(node)
        else:
            node.chain = ModelChain(len(self.chains), parent and parent.chain, node)
            self.chains.append(node.chain)
        self.order.append(node)
        self.by_hash[node.hash] = node

    def judge(self, raw):
        '''(verdict, node, required bits)'''
        parent = self.by_hash.get(raw[4:36])
        if parent is None:
            return 'missing', None, None
        hash_ = self.coin.header_hash(raw)
        known = self.by_hash.get(hash_)
        if known is not None:
            return 'known', known, None
        bits, time = header_bits(raw), int.from_bytes(raw[68:72], 'little')
        required = self.required(parent, time)
        if bits != required:
            return 'bits', None, required
        if int.from_bytes(hash_, 'little') > work.decode(bits)[0]:
            return 'pow', None, None
        return 'new', Node(raw, hash_, parent.height + 1, parent, parent.work), None

    def add(self, node):
        self._add(node)

    def len(self):
        return self.root.height + len(self.order)

    def longest(self):
        return max(self.chains, key=lambda c: (c.tip.work, -c.id))

    def fork_heights(self, chain):
        '''{chain id: last height on it} from a chain to the base.'''
        result = {chain.id: chain.tip.height}
        while chain.parent is not None:
            result[chain.parent.id] = chain.first_height - 1
            chain = chain.parent
        return result

    def common(self, a, b):
        '''(chain id, height) of the last common ancestor of two tips.'''
        x, y = a.tip, b.tip
        while x is not y:
            # The later chain can only be an ancestor of nothing earlier
            if x.chain is y.chain:
                x = y = min(x, y, key=lambda n: n.height)
            elif x.chain.id > y.chain.id:
                x = x.chain.nodes[0].parent
            else:
                y = y.chain.nodes[0].parent
        return x.chain.id, x.height


def make_raw(rng, prev_hash, time, bits, kind=LOW, version=None):
    nonce = rng.getrandbits(30) << 2 | kind
    return HEADER.pack(rng.getrandbits(32) - (1 << 31) if version is None else version, prev_hash, rng.randbytes(32),
                       time, bits, nonce)


def mine(rng, coin, prev_hash, time, bits, good=True):
    '''Grind a header of a RealCoin.'''
    target = work.decode(bits)[0]
    while True:
        raw = make_raw(rng, prev_hash, time, bits)
        if (int.from_bytes(coin.header_hash(raw), 'little') <= target) == good:
            return raw


def close(headers):
    '''Unmap the file, as a program that ends does.'''
    for part in [getattr(headers, '_storage', None), *vars(headers).values()]:
        if hasattr(part, 'close'):
            part.close()
            return


class Sim:
    '''A coin, a difficulty rule, a tree and the library's Headers on a file.'''

    def __init__(self, ctx, rng, path, height=0, alphabet=None, rule=None, cache=None, real=False,
                 prev_work=0):
        self.ctx, self.rng, self.path = ctx, rng, path
        self.real = real
        if real:
            table = [0x207fffff, 0x2000ffff, 0x1f7fffff] if rule == 'branch' else [0x207fffff]
        else:
            table = rng.sample(BITS, rng.randrange(2, 6))
        if rule == 'branch':
            library, self.required = rule_branch(table, rng.randrange(1, 8))
        elif rule == 'timestamp':
            library, self.required = rule_timestamp(table)
        else:
            library, self.required = rule_constant(table[0])
        raw = make_raw(rng, rng.randbytes(32), rng.getrandbits(32), table[0])
        self.coin = RealCoin(raw, library) if real else SimCoin(raw, library, alphabet)
        self.table = table
        self.cls = type('SmallCache', (Headers,), {'max_cache_size': cache}) if cache is not None else Headers
        self.tree = Tree(self.coin, self.required, raw, height, prev_work)
        self.headers = self.open()

    def open(self, checkpoint=None):
        return self.cls.from_file(self.coin, self.path, checkpoint or self.tree.checkpoint)

    def child(self, parent, time=None, kind=LOW, bits=None):
        '''A raw header on a node or, if bytes, on a hash.'''
        rng = self.rng
        time = rng.getrandbits(32) if time is None else time
        if isinstance(parent, bytes):
            prev = parent
            bits = rng.choice(self.table) if bits is None else bits
        else:
            prev = parent.hash
            bits = self.required(parent, time) if bits is None else bits
        if self.real and bits in self.table:
            return mine(rng, self.coin, prev, time, bits, kind == LOW)
        return make_raw(rng, prev, time, bits, kind)

    def connect(self, raw, key='connect'):
        '''Connect for real and in the model, and compare.  Returns (verdict, node).'''
        ctx, tree = self.ctx, self.tree
        verdict, node, required = tree.judge(raw)
        before = len(self.headers), self.headers.chain_count()
        got, error = ctx.outcome(self.headers.connect, raw)
        ctx.n('connect ' + verdict)
        if verdict in ('new', 'known'):
            if error is not None:
                ctx.fail(key, f'{verdict} header raised {error!r}')
            if verdict == 'new':
                tree.add(node)
            header, chain = got
            check_header(ctx, header, node, key)
            ctx.ok(chain is self.headers.chains()[node.chain.id], 'chain of a connected header',
                   verdict, f'want chain {node.chain.id} height {node.height}')
            ctx.eq(len(self.headers), tree.len(), 'length after connect', verdict)
            ctx.eq(self.headers.chain_count(), len(tree.chains), 'chain count after connect', verdict)
        else:
            kinds = {'missing': bx.MissingHeader, 'bits': bx.IncorrectBits, 'pow': bx.InsufficientPoW}
            if error is None:
                ctx.fail(key, f'{verdict} header was accepted')
            if type(error) is not kinds[verdict]:
                ctx.fail(key, f'{verdict} header raised {error!r}')
            if verdict == 'bits':
                ctx.eq(error.required_bits, required, 'required bits in the error')
            if verdict in ('bits', 'pow'):
                ctx.eq(error.header.raw, raw, 'header in the error')
            ctx.eq((len(self.headers), self.headers.chain_count()), before, 'counts after a rejection')
        return verdict, node

    def extend(self, node, count=1):
        for _ in range(count):
            node = self.connect(self.child(node))[1]
        return node

    def file_bytes(self):
        with open(self.path, 'rb') as f:
            return f.read()

    def close(self, unlink=True):
        close(self.headers)
        if unlink:
            os.unlink(self.path)


FIELDS = ('version', 'prev_hash', 'merkle_root', 'timestamp', 'bits', 'nonce', 'hash', 'raw', 'height')


def check_header(ctx, header, node, key):
    got = tuple(getattr(header, name) for name in FIELDS)
    want = HEADER.unpack(node.raw) + (node.hash, node.raw, node.height)
    if got != want:
        bad = [name for name, a, b in zip(FIELDS, got, want) if a != b]
        ctx.fail(key, f'header fields {bad} differ: {got} want {want}')
    ctx.n('headers compared')


def check_lookup(ctx, headers, node, key='lookup'):
    got, error = ctx.outcome(headers.lookup, node.hash)
    if error is not None:
        ctx.fail(key, f'lookup of a header at height {node.height} raised {error!r}')
    check_header(ctx, got[0], node, key)
    ctx.ok(got[1] is headers.chains()[node.chain.id], 'chain of a lookup',
           f'height {node.height} want chain {node.chain.id}')
    ctx.n('lookups')


def check_chains(ctx, headers, tree, key='chains'):
    '''Each chain's tip, height, work and parent, and the longest.'''
    ctx.eq(len(headers), tree.len(), 'length')
    chains = headers.chains()
    ctx.eq(headers.chain_count(), len(tree.chains), 'chain count')
    ctx.eq(len(chains), len(tree.chains), 'chain count')
    for chain, model in zip(chains, tree.chains):
        check_header(ctx, chain.tip, model.tip, 'chain tip')
        ctx.eq(chain.height, model.tip.height, 'chain height', f'chain {model.id}')
        ctx.eq(chain.work, model.tip.work, 'chain work', f'chain {model.id}')
        ctx.eq(chain.first_height, model.first_height, 'first height', f'chain {model.id}')
        ctx.ok((chain.parent is None) if model.parent is None else chain.parent is chains[model.parent.id],
               'parent chain', f'chain {model.id}')
        ctx.n('chains compared')


def check_heights(ctx, headers, tree, model, heights):
    '''Look up by height along a chain.'''
    chain = headers.chains()[model.id]
    for height in heights:
        if height < tree.root.height:
            raw = tree.below.get(height)
            if raw is None:
                ctx.raises(bx.MissingHeader, 'height below the checkpoint', headers.header_at_height, chain,
                           height)
                ctx.raises(bx.MissingHeader, 'height below the checkpoint', headers.raw_header_at_height,
                           chain, height)
            else:
                ctx.eq(headers.raw_header_at_height(chain, height), raw, 'raw header below the checkpoint')
                header = headers.header_at_height(chain, height)
                ctx.eq((header.raw, header.height, header.hash), (raw, height, tree.coin.header_hash(raw)),
                       'header below the checkpoint')
            ctx.n('heights below the checkpoint')
            continue
        node = model.at(height)
        if node is None:
            ctx.raises(bx.MissingHeader, 'height above the tip', headers.header_at_height, chain, height)
            ctx.raises(bx.MissingHeader, 'height above the tip', headers.raw_header_at_height, chain, height)
            ctx.n('heights above the tip')
            continue
        ctx.n('heights on a parent chain', node.chain is not model)
        check_header(ctx, headers.header_at_height(chain, height), node, 'header at height')
        ctx.eq(headers.raw_header_at_height(chain, height), node.raw, 'raw header at height')
        ctx.n('heights')


def interesting_heights(rng, tree, model, count):
    '''Heights about forks and tips.'''
    tip = model.tip.height
    heights = {tip, tip + 1, tip + 2, tip + 1000, tree.root.height, tree.root.height - 1, -1, -tip - 1, -2,
               tree.root.height + 1}
    chain = model
    while chain is not None and len(heights) < 60:
        heights |= {chain.first_height, chain.first_height - 1, chain.first_height + 1}
        chain = chain.parent
    heights |= {rng.randrange(tree.root.height, tip + 1) for _ in range(count)}
    return sorted(heights)


def check_unknown(ctx, rng, headers, tree, count=3):
    for _ in range(count):
        node = rng.choice(tree.order)
        hash_ = rng.choice([rng.randbytes(32), bytes(32), node.hash[:4] + rng.randbytes(8) + bytes(20),
                            node.hash[:31] + b'\x01', rng.randbytes(1) + node.hash[1:], b'\xff' * 32,
                            node.raw[36:68], node.hash[::-1]])
        if hash_ not in tree.by_hash:
            ctx.raises(bx.MissingHeader, 'unknown hash', headers.lookup, hash_)
            ctx.n('unknown hashes')


def check_state(ctx, rng, headers, tree, nodes=None, heights=6, chains=None):
    '''Everything (or samples) that can be seen.'''
    check_chains(ctx, headers, tree)
    order = tree.order
    if nodes is not None and nodes < len(order):
        order = [order[0], order[-1]] + rng.sample(order, nodes)
    else:
        order = rng.sample(order, len(order))
    for node in order:
        check_lookup(ctx, headers, node)
    models = tree.chains
    if chains is not None and chains < len(models):
        models = rng.sample(models, chains) + [models[0], models[-1]]
    for model in models:
        check_heights(ctx, headers, tree, model, interesting_heights(rng, tree, model, heights))
    check_unknown(ctx, rng, headers, tree)
    ctx.n('states compared')


def snapshot(headers, hashes, full=True):
    '''The observable state in plain values.'''
    chains = headers.chains()
    ids = {chain: n for n, chain in enumerate(chains)}
    state = [len(headers), headers.chain_count()]
    for chain in chains:
        state.append((chain.tip.raw, chain.tip.height, chain.tip.hash, chain.height, chain.first_height,
                      chain.work, ids.get(chain.parent)))
    state.append(ids[headers.longest_chain()])
    for hash_ in hashes:
        header, chain = headers.lookup(hash_)
        state.append((header.raw, header.height, ids[chain]))
    return state
