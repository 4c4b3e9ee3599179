"""Specification functions (from the standards), written once over Word so that they run on integers and
in the symbolic domains alike.  Nothing here is taken from /repo's code; constants are recomputed."""
from math import isqrt

from anf import Word


def _primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _icbrt(n):
    x = 1 << (-(-n.bit_length() // 3))
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x:
            return x
        x = y


# FIPS 180-4: fractional parts of square and cube roots of primes
K512 = [_icbrt(p << 192) & (2**64 - 1) for p in _primes(80)]
K256 = [_icbrt(p << 96) & (2**32 - 1) for p in _primes(64)]
IV = {
    "sha512": [isqrt(p << 128) & (2**64 - 1) for p in _primes(8)],
    "sha384": [isqrt(p << 128) & (2**64 - 1) for p in _primes(16)[8:]],
    "sha256": [isqrt(p << 64) & (2**32 - 1) for p in _primes(8)],
}
IV["sha224"] = [x & 0xFFFFFFFF for x in IV["sha384"]]
DIGEST = {"sha512": 64, "sha384": 48, "sha256": 32, "sha224": 28}
BLOCK = {"sha512": 128, "sha384": 128, "sha256": 64, "sha224": 64}
ROT = {64: ((28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)), 32: ((2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))}


def sha_compress(w, state, block):
    """state: 8 Words, block: 16 Words of width w."""
    K = K512 if w == 64 else K256
    (B0, B1, S0, S1) = ROT[w]
    big = lambda x, r: x.rotr(r[0]) ^ x.rotr(r[1]) ^ x.rotr(r[2])
    small = lambda x, r: x.rotr(r[0]) ^ x.rotr(r[1]) ^ (x >> r[2])
    W = list(block)
    for t in range(16, len(K)):
        W.append(small(W[t - 2], S1) + W[t - 7] + small(W[t - 15], S0) + W[t - 16])
    a, b, c, d, e, f, g, h = state
    for k, x in zip(K, W):
        t1 = h + big(e, B1) + ((e & f) ^ (~e & g)) + k + x
        t2 = big(a, B0) + ((a & b) ^ (a & c) ^ (b & c))
        h, g, f, e, d, c, b, a = g, f, e, d + t1, c, b, a, t1 + t2
    return [x + y for x, y in zip(state, (a, b, c, d, e, f, g, h))]


def be_words(d, cells, w):
    """Big-endian words from byte values."""
    n = w // 8
    return [Word(d, w, join(d, cells[i : i + n][::-1])) for i in range(0, len(cells), n)]


def join(d, cells):
    """Little-endian join of 8-bit values."""
    if all(type(c) is int for c in cells):
        return int.from_bytes(bytes(cells), "little")
    return d.concat([c if type(c) is int else (c, 0) for c in cells])


def split(d, v, n):
    return [d.byte_of(v, i) for i in range(n)]


CHACHA_CONST = [int.from_bytes(b"expand 32-byte k"[i : i + 4], "little") for i in range(0, 16, 4)]


def chacha_block(d, key, counter, nonce):
    """key: 8 values, nonce: 3 values (32-bit), counter: value -> 16 Words."""
    s = [Word(d, 32, v) for v in CHACHA_CONST + list(key) + [counter] + list(nonce)]
    w = list(s)

    def qr(a, b, c, dd):
        w[a] = w[a] + w[b]; w[dd] = (w[dd] ^ w[a]).rotl(16)
        w[c] = w[c] + w[dd]; w[b] = (w[b] ^ w[c]).rotl(12)
        w[a] = w[a] + w[b]; w[dd] = (w[dd] ^ w[a]).rotl(8)
        w[c] = w[c] + w[dd]; w[b] = (w[b] ^ w[c]).rotl(7)

    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return [x + y for x, y in zip(w, s)]
