"""MurmurHash3_x86_32, the published algorithm (only used to choose keys, never as an oracle)"""
M = 0xffffffff


def murmur32(data, seed=13):
    h = seed
    n = len(data)
    c1, c2 = 0xcc9e2d51, 0x1b873593
    for i in range(0, n - n % 4, 4):
        k = int.from_bytes(data[i:i + 4], "little")
        k = (k * c1) & M
        k = ((k << 15) | (k >> 17)) & M
        h ^= (k * c2) & M
        h = ((h << 13) | (h >> 19)) & M
        h = (h * 5 + 0xe6546b64) & M
    t = data[n - n % 4:]
    if t:
        k = int.from_bytes(t, "little")
        k = (k * c1) & M
        k = ((k << 15) | (k >> 17)) & M
        h ^= (k * c2) & M
    h ^= n
    h ^= h >> 16
    h = (h * 0x85ebca6b) & M
    h ^= h >> 13
    h = (h * 0xc2b2ae35) & M
    return h ^ (h >> 16)


def _inv(x, m=1 << 32):
    return pow(x, -1, m)


_I1, _I2, _I5 = _inv(0xcc9e2d51), _inv(0x1b873593), _inv(5)
_F1, _F2 = _inv(0x85ebca6b), _inv(0xc2b2ae35)


def _unshift(h, s):
    r = h
    for _ in range(32 // s + 1):
        r = h ^ (r >> s)
    return r & M


def unfinal(h):
    """the state before the final mix"""
    h = _unshift(h, 16)
    h = (h * _F2) & M
    h = _unshift(h, 13)
    h = (h * _F1) & M
    return _unshift(h, 16)


def _state(data, seed):
    h = seed
    for i in range(0, len(data), 4):
        k = int.from_bytes(data[i:i + 4], "little")
        k = (k * 0xcc9e2d51) & M
        k = ((k << 15) | (k >> 17)) & M
        h ^= (k * 0x1b873593) & M
        h = ((h << 13) | (h >> 19)) & M
        h = (h * 5 + 0xe6546b64) & M
    return h


def solve(prefix, suffix, target, seed=13):
    """4 bytes x such that prefix + x + suffix has the hash target; prefix a multiple of 4 bytes, suffix at most 3"""
    n = len(prefix) + 4 + len(suffix)
    h = unfinal(target) ^ n
    if suffix:
        k = int.from_bytes(suffix, "little")
        k = (k * 0xcc9e2d51) & M
        k = ((k << 15) | (k >> 17)) & M
        h ^= (k * 0x1b873593) & M
    h = ((h - 0xe6546b64) * _I5) & M
    h = ((h >> 13) | (h << 19)) & M
    k = h ^ _state(prefix, seed)
    k = (k * _I2) & M
    k = ((k >> 15) | (k << 17)) & M
    k = (k * _I1) & M
    x = k.to_bytes(4, "little")
    return x


def collide(r, target, alphabet, prefix=b"", length=None):
    """A name over the alphabet, starting with prefix, whose hash is target"""
    while True:
        n = length or r.randrange(max(8, len(prefix) + 8), len(prefix) + 24)
        body = n - 4 - n % 4
        p = prefix + bytes(r.choice(alphabet) for _ in range(body - len(prefix)))
        s = bytes(r.choice(alphabet) for _ in range(n % 4))
        x = solve(p, s, target)
        if all(b in alphabet for b in x):
            v = p + x + s
            assert murmur32(v) == target
            return v


