'''Compact bits, work and difficulty rules, after the reference nodes.'''

MAX256 = (1 << 256) - 1


def decode(bits):
    '''arith_uint256::SetCompact.  (value, negative, overflow)'''
    size, word = bits >> 24, bits & 0x7fffff
    value = word >> 8 * (3 - size) if size <= 3 else word << 8 * (size - 3)
    return value, bool(word and bits & 0x800000), value > MAX256


def encode(target):
    '''arith_uint256::GetCompact'''
    size = (target.bit_length() + 7) // 8
    word = target << 8 * (3 - size) if size <= 3 else target >> 8 * (size - 3)
    if word & 0x800000:
        word >>= 8
        size += 1
    return word | size << 24


def canonical(bits):
    '''The target if bits is what encode() gives for some target below 2^256, else None.'''
    if not 0 <= bits < 1 << 32:
        return None
    value, negative, overflow = decode(bits)
    if negative or overflow or encode(value) != bits:
        return None
    return value


def successor(bits):
    '''The next representable target above that of canonical bits, or None.'''
    size, word = bits >> 24, bits & 0x7fffff
    if bits == 0:
        return 1
    unit = 8 * (size - 3)
    value = decode(bits)[0]
    result = value + (1 << unit if unit > 0 else 1)
    return result if result <= MAX256 else None


def work(bits):
    return (1 << 256) // (decode(bits)[0] + 1)


class Block:
    '''Enough of a header for the rules; prev may be None.'''
    __slots__ = ('prev', 'height', 'time', 'bits')

    def __init__(self, prev, height, time, bits):
        self.prev, self.height, self.time, self.bits = prev, height, time, bits

    def ancestor(self, height):
        block = self
        while block.height > height:
            block = block.prev
        return block


def median_time_past(block):
    times = []
    while block is not None and len(times) < 11:
        times.append(block.time)
        block = block.prev
    times.sort()
    return times[len(times) // 2]


def retarget(prev, limit):
    first = prev.ancestor(prev.height - 2015)
    span = prev.time - first.time
    day14 = 14 * 24 * 60 * 60
    if span < day14 // 4:
        span = day14 // 4
    if span > day14 * 4:
        span = day14 * 4
    target = decode(prev.bits)[0] * span // day14
    return encode(min(target, limit))


def fortnightly(prev, limit):
    if (prev.height + 1) % 2016:
        return prev.bits
    return retarget(prev, limit)


def emergency(prev, limit):
    if (prev.height + 1) % 2016 == 0:
        return retarget(prev, limit)
    if prev.bits == encode(limit):
        return prev.bits
    six = prev.ancestor(prev.height - 6)
    if median_time_past(prev) - median_time_past(six) < 12 * 3600:
        return prev.bits
    target = decode(prev.bits)[0]
    return encode(min(target + target // 4, limit))


def suitable(block):
    b = [block.prev.prev, block.prev, block]
    if b[0].time > b[2].time:
        b[0], b[2] = b[2], b[0]
    if b[0].time > b[1].time:
        b[0], b[1] = b[1], b[0]
    if b[1].time > b[2].time:
        b[1], b[2] = b[2], b[1]
    return b[1]


def day_average(prev, limit):
    last = suitable(prev)
    first = suitable(prev.ancestor(prev.height - 144))
    total, block = 0, last
    while block.height > first.height:
        total += work(block.bits)
        block = block.prev
    span = last.time - first.time
    span = max(72 * 600, min(288 * 600, span))
    power = total * 600 // span
    return encode(min(((1 << 256) - power) // power, limit))


def mainnet(prev, _time, limit):
    height = prev.height + 1
    if height < 478558:
        return fortnightly(prev, limit)
    if height <= 504031:
        return emergency(prev, limit)
    return day_average(prev, limit)


def testnet(prev, time, limit, daa=1188697, daa_minimum=True):
    height = prev.height + 1
    slow = time > prev.time + 1200
    if height > daa:
        if daa_minimum and slow:
            return encode(limit)
        return day_average(prev, limit)
    if height % 2016 == 0:
        return retarget(prev, limit)
    if slow:
        return encode(limit)
    block = prev
    while block.height % 2016 and block.bits == encode(limit):
        block = block.prev
    return block.bits


def scaling(prev, time, limit):
    return testnet(prev, time, limit, 2200, False)
