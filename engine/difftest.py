"""Boundary-directed differential cases: the replay / counterexample-search layer.

Each suite_<property>(rng, thorough) yields (command, expected answer line).  The commands are run on
the real code (runner/, built from /repo's working tree with and without overflow checks); the expected
answers come from the independent references in ref.py.  These cases do not decide a property - the
proof obligations do - they supply replayable failing inputs and guard the engine against vacuity.
"""
import random
import struct

import ref

HASHES = ["sha512", "sha384", "sha256", "sha224"]
GCMS = [("gcm128", 16), ("gcm192", 24), ("gcm256", 32)]


def h(b):
    return b.hex() or "-"


def ok(out, *fields):
    return ("OK " + h(out) + " " + " ".join(map(str, fields))).strip()


def panic(out=b""):
    return "PANIC " + h(out)


def sp(l):
    return ",".join(map(str, l)) or "-"


def edges(alg):
    b = ref.BLOCK[alg]
    p = b // 8
    s = {0, 1, 2, 3}
    for k in (1, 2, 3, 4):
        for d in (-p - 1, -p, -p + 1, -p - 2, -9, -8, -7, -1, 0, 1):
            if k * b + d >= 0:
                s.add(k * b + d)
    return sorted(s)


def pieces(rng, n, b):
    """A random split of n bytes, biased to block boundaries and empty calls."""
    out, left = [], n
    while left and len(out) < 12:
        c = rng.choice([0, 1, b - 1, b, b + 1, 2 * b, rng.randrange(0, 3 * b), rng.randrange(0, b)])
        c = min(c, left)
        out.append(c)
        left -= c
    if rng.random() < 0.3:
        out.append(0) if not left else None
    return out


def suite_C01(rng, thorough):
    for a in HASHES:
        for n in edges(a) + list(range(0, 300)) + [rng.randrange(1000, 9000) for _ in range(4)]:
            m = rng.randbytes(n)
            yield f"sha1 {a} {h(m)}", ok(ref.sha(a, m))
        for m in (b"\xff" * 1000, b"\0" * 777):
            yield f"sha {a} - {h(m)}", ok(ref.sha(a, m))
        for n in (65536, 70001, 1 << 21, (1 << 24) + 1):
            yield f"shagen {a} {n} 3 -", ok(ref.sha(a, ref.pattern(n, 3)))
    # lengths whose bit count needs more than 32 bits
    for a in ("sha256", "sha512"):
        n = (1 << 29) + 77
        yield f"shagen {a} {n} 5 -", ok(ref.sha(a, ref.pattern(n, 5)))


def suite_C02(rng, thorough):
    for a in HASHES:
        b = ref.BLOCK[a]
        for x in sorted({0, 1, 2, b // 2, b - b // 8 - 1, b - b // 8, b - 2, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1}):
            for y in sorted({0, 1, b - x % b, (b - x % b) + 1, max(0, b - x % b - 1), b, b + 1, 2 * b, 2 * b + 3, 3 * b - 1}):
                m = rng.randbytes(x + y)
                yield f"sha {a} {sp([x, y])} {h(m)}", ok(ref.sha(a, m))
        for _ in range(600 if thorough else 150):
            n = rng.randrange(0, 6 * b)
            m = rng.randbytes(n)
            yield f"sha {a} {sp(pieces(rng, n, b))} {h(m)}", ok(ref.sha(a, m))
        m = rng.randbytes(3 * b + 5)
        yield f"sha {a} {sp([1] * len(m))} {h(m)}", ok(ref.sha(a, m))
        yield f"sha {a} {sp([0] * 5 + [len(m)])} {h(m)}", ok(ref.sha(a, m))
        yield f"shagen {a} 5000001 3 {sp([1, 4999999])}", ok(ref.sha(a, ref.pattern(5000001, 3)))
    n = (1 << 29) + 200
    e = ref.pattern(n, 5)
    for a in ("sha256", "sha512"):
        yield f"shagen {a} {n} 5 {sp([1, 1 << 28, 63, 1 << 20])}", ok(ref.sha(a, e))


def suite_C03(rng, thorough):
    for a in HASHES:
        b, d = ref.BLOCK[a], ref.DIGEST[a]
        for kl in sorted({0, 1, d - 1, d, d + 1, b - 2, b - 1, b, b + 1, b + 2, 2 * b - 1, 2 * b, 2 * b + 1, 5 * b + 7, b - b // 8, b - b // 8 - 1, b // 2}):
            k = rng.randbytes(kl)
            for n in (0, 1, b - 1, b, b + 1, 2 * b + 5):
                m = rng.randbytes(n)
                yield f"hmac1 {a} {h(k)} {h(m)}", ok(ref.hmac(a, k, m))
                yield f"hmac {a} {h(k)} {sp(pieces(rng, n, b))} {h(m)}", ok(ref.hmac(a, k, m))
        for kl in range(0, 2 * b + 2, 1 if thorough else 3):
            k, m = rng.randbytes(kl), rng.randbytes(rng.randrange(0, 3 * b))
            yield f"hmac {a} {h(k)} {sp(pieces(rng, len(m), b))} {h(m)}", ok(ref.hmac(a, k, m))
        k = bytes(5) + rng.randbytes(3) + bytes(7)
        yield f"hmac1 {a} {h(k)} -", ok(ref.hmac(a, k, b""))


def mutations(rng, t):
    """Tags that must be refused."""
    yield b""
    for n in (1, 2, len(t) // 2, len(t) - 1):
        yield t[:n]
    yield t + b"\0"
    yield t + t[:1]
    yield t + t
    yield b"\0" * len(t)
    yield b"\xff" * len(t)
    yield t[::-1]
    for i in range(len(t)):
        for bit in (range(8) if i in (0, len(t) - 1) else (rng.randrange(8),)):
            x = bytearray(t)
            x[i] ^= 1 << bit
            yield bytes(x)
    for _ in range(20):  # two equal differences cancel under xor-folding, opposite ones under sums
        i, j = rng.sample(range(len(t)), 2)
        dlt = rng.randrange(1, 256)
        x = bytearray(t)
        x[i] ^= dlt
        x[j] ^= dlt
        yield bytes(x)
        x = bytearray(t)
        x[i] = (x[i] + dlt) & 255
        x[j] = (x[j] - dlt) & 255
        if bytes(x) != t:
            yield bytes(x)
        x = bytearray(t)
        x[i], x[j] = x[j], x[i]
        if bytes(x) != t:
            yield bytes(x)
    x = bytearray(t)
    for i in range(len(t)):
        x[i] ^= 0x80
    yield bytes(x)
    for w in (2, 4, 8):  # a difference repeated so that it sums to 0 modulo 256
        x = bytearray(t)
        for i in range(w):
            x[i] ^= 256 // w & 255
        yield bytes(x)


def suite_C04(rng, thorough):
    for a in HASHES:
        b = ref.BLOCK[a]
        for kl, n in ((0, 0), (b + 1, 3), (20, b), (b, 200)):
            k, m = rng.randbytes(kl), rng.randbytes(n)
            t = ref.hmac(a, k, m)
            yield f"hmacv {a} {h(k)} {h(m)} {h(t)}", ok(b"", 1)
            for x in mutations(rng, t):
                if x != t:
                    yield f"hmacv {a} {h(k)} {h(m)} {h(x)}", ok(b"", 0)
            m2 = m + b"\0"
            yield f"hmacv {a} {h(k)} {h(m2)} {h(t)}", ok(b"", 0)
            yield f"hmacv {a} {h(k + bytes([1]))} {h(m)} {h(t)}", ok(b"", 0)


def suite_C05(rng, thorough):
    for a in HASHES:
        d, b = ref.DIGEST[a], ref.BLOCK[a]
        for sl in (0, 1, d, b, b + 1):
            for il in (0, 1, b, 2 * b + 1):
                s, i = rng.randbytes(sl), rng.randbytes(il)
                yield f"extract {a} {h(s)} {h(i)} {d}", ok(ref.hkdf_extract(a, s, i))
        for n in (0, 1, d - 1, d + 1, 2 * d, b):
            yield f"extract {a} 00 00 {n}", panic(b"\xa5" * n)
        for pl in (d, d + 1, b, b + 1):
            for il in (0, 1, d, b, 3 * b):
                p, i = rng.randbytes(pl), rng.randbytes(il)
                for n in (0, 1, d - 1, d, d + 1, 2 * d - 1, 2 * d, 2 * d + 1, 3 * d, 5 * d + 3):
                    yield f"expand {a} {h(p)} {h(i)} {n}", ok(ref.hkdf_expand(a, p, i, n))
        p, i = rng.randbytes(d), rng.randbytes(7)
        for n in (127 * d, 128 * d, 129 * d + 1, 200 * d, 253 * d, 254 * d - 1, 254 * d, 254 * d + 1, 255 * d - 1, 255 * d):
            yield f"expand {a} {h(p)} {h(i)} {n}", ok(ref.hkdf_expand(a, p, i, n))
        for n in (255 * d + 1, 255 * d + d, 256 * d, 257 * d, 300 * d):
            yield f"expand {a} {h(p)} {h(i)} {n}", panic(b"\xa5" * n)
        for pl in (0, 1, d - 1):
            for n in (0, 1, d, 2 * d):
                yield f"expand {a} {h(rng.randbytes(pl))} 00 {n}", panic(b"\xa5" * n)


def np_chacha(key, nonce, first, nblocks):
    import numpy as np
    s = [np.full(nblocks, v, dtype=np.uint32) for v in struct.unpack("<4I", b"expand 32-byte k") + struct.unpack("<8I", key)]
    s.append((np.arange(nblocks, dtype=np.uint64) + first).astype(np.uint32))
    s += [np.full(nblocks, v, dtype=np.uint32) for v in struct.unpack("<3I", nonce)]
    w = list(s)

    def rotl(x, n):
        return (x << np.uint32(n)) | (x >> np.uint32(32 - n))

    def qr(a, b, c, d):
        w[a] = w[a] + w[b]; w[d] = rotl(w[d] ^ w[a], 16)
        w[c] = w[c] + w[d]; w[b] = rotl(w[b] ^ w[c], 12)
        w[a] = w[a] + w[b]; w[d] = rotl(w[d] ^ w[a], 8)
        w[c] = w[c] + w[d]; w[b] = rotl(w[b] ^ w[c], 7)

    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return np.stack([x + y for x, y in zip(w, s)], axis=1).astype("<u4").tobytes()


def fast_xor(a, b):
    return (int.from_bytes(a, "little") ^ int.from_bytes(b, "little")).to_bytes(len(a), "little")


def suite_C06(rng, thorough):
    ks = [(bytes(32), bytes(12)), (b"\xff" * 32, b"\xff" * 12)] + [(rng.randbytes(32), rng.randbytes(12)) for _ in range(8)]
    for k, n in ks:
        yield f"stream {h(k)} {h(n)} " + " ".join(["n"] * 130), ok(ref.chacha_stream(k, n, 0, 130))
        for l in (0, 1, 63, 64, 65, 127, 128, 129, 300):
            m = rng.randbytes(l)
            yield f"stream {h(k)} {h(n)} e{h(m) if m else ''}", ok(ref.xor(m, ref.chacha_stream(k, n, 0, l)))
            yield f"stream {h(k)} {h(n)} d{h(m) if m else ''}", ok(ref.xor(m, ref.chacha_stream(k, n, 0, l)))
    k, n = ks[3]
    for pos in (64 * 255, 64 * 256 - 1, 64 * 65535, 64 * 65536 - 3, 64 * 65536, 1 << 25):
        yield f"stream {h(k)} {h(n)} s{pos} " + " ".join(["n"] * 70), ok(ref.chacha_stream(k, n, pos, 70))
    N = 64 * 65536 + 200
    yield f"streamgen {h(k)} {h(n)} {N} 1000", ok(fast_xor(ref.pattern(N, 1), np_chacha(k, n, 0, N // 64 + 1)[:N]))
    if thorough:
        pos = (1 << 32) - 10
        yield f"stream {h(k)} {h(n)} s{pos} " + " ".join(["n"] * 70), ok(ref.chacha_stream(k, n, pos, 70))


def suite_C07(rng, thorough):
    for _ in range(800 if thorough else 250):
        k, n = rng.randbytes(32), rng.randbytes(12)
        ops, out, pos = [], b"", 0
        for _ in range(rng.randrange(1, 9)):
            o = rng.choice("nneeedm w".replace(" ", ""))
            if o == "n":
                for _ in range(rng.choice([1, 1, 2, 63, 64])):
                    ops.append("n")
                    out += ref.chacha_stream(k, n, pos, 1)
                    pos += 1
            elif o in "ed":
                l = rng.choice([0, 1, 1, 31, 63, 64, 65, 128, 64 - pos % 64, 64 - pos % 64 + 1, max(0, 64 - pos % 64 - 1), rng.randrange(0, 200)])
                m = rng.randbytes(l)
                ops.append(o + (m.hex()))
                out += ref.xor(m, ref.chacha_stream(k, n, pos, l))
                pos += l
            else:
                a = rng.choice([0, 1, 5, 64, 70])
                b = rng.choice([x for x in (0, 1, 5, 64, 70, a + 1) if x != a])
                ops.append(f"{o}{a}:{b}")
                out += b"\1" + b"\xa5" * b
        yield f"stream {h(k)} {h(n)} " + " ".join(ops), ok(out)
    # long calls from a block boundary and near it
    for i, (a, l) in enumerate([(a, l) for l in (64 * 256, 64 * 257, 64 * 300 + 5, 64 * 255 + 63) for a in (0, 64, 128, 63, 65, 1)] + ([(a, 64 * 65536 + 1) for a in (0, 64)] if thorough else [])):
        k, n, m = rng.randbytes(32), rng.randbytes(12), rng.randbytes(l)
        o = "ed"[i % 2]
        yield f"stream {h(k)} {h(n)} e{h(bytes(a))} {o}{h(m)} e{h(bytes(130))}", ok(ref.xor(bytes(a) + m + bytes(130), ref.chacha_stream(k, n, 0, a + l + 130)))


def craft_poly(rng, deltas=range(5)):
    """AEAD inputs whose Poly1305 accumulator ends at 2^130-5+delta before reduction."""
    p = ref.P1305
    while True:
        k, n = rng.randbytes(32), rng.randbytes(12)
        r = int.from_bytes(ref.chacha_block(k, 0, n)[:16], "little") & ref.CLAMP
        if not r:
            continue
        ri = pow(r, -1, p)
        for d in deltas:
            x = (d * ri - 2**128 - (16 << 64)) % p
            c = (x * ri - 2**128) % p
            if c < 2**128:
                yield k, n, c.to_bytes(16, "little")


def aead_cases(rng, ex=0):
    L = [0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200]
    for d in (0, 1, 15, 16, 17, 32, 40):
        for m in L:
            yield d, m
    for d in L:
        yield d, 5
    yield 300, 1030
    yield 1, 4096
    yield 70000, 3


def suite_C08(rng, thorough):
    for d, m in aead_cases(rng):
        k, n, D, M = rng.randbytes(32), rng.randbytes(12), rng.randbytes(d), rng.randbytes(m)
        c, t = ref.ccp_encrypt(k, n, D, M)
        yield f"enc ccp {h(k)} {h(n)} {h(D)} {h(M)} {m}", ok(c, h(t))
    for k, n, D, M in ((bytes(32), bytes(12), b"\xff" * 64, b"\xff" * 100), (b"\xff" * 32, b"\xff" * 12, bytes(20), bytes(20))):
        c, t = ref.ccp_encrypt(k, n, D, M)
        yield f"enc ccp {h(k)} {h(n)} {h(D)} {h(M)} {len(M)}", ok(c, h(t))
    g = craft_poly(rng)
    for _ in range(40):
        k, n, ct = next(g)
        M = ref.xor(ct, ref.chacha_stream(k, n, 64, 16))
        c, t = ref.ccp_encrypt(k, n, b"", M)
        yield f"enc ccp {h(k)} {h(n)} - {h(M)} 16", ok(c, h(t))
    # ciphertexts of all-ones blocks: the largest accumulator limbs
    for l in (16, 32, 64, 160, 400):
        for _ in range(6):
            k, n = rng.randbytes(32), rng.randbytes(12)
            ct = b"\xff" * l
            M = ref.xor(ct, ref.chacha_stream(k, n, 64, l))
            c, t = ref.ccp_encrypt(k, n, b"\xff" * 48, M)
            yield f"enc ccp {h(k)} {h(n)} {h(bytes([255]) * 48)} {h(M)} {l}", ok(c, h(t))
    k, n = rng.randbytes(32), rng.randbytes(12)
    for N in (64 * 255 + 1, 64 * 65536 + 321):
        c = fast_xor(ref.pattern(N, 1), np_chacha(k, n, 1, N // 64 + 1)[:N])
        D = ref.pattern(33, 3)
        yield f"encgen ccp {h(k)} {h(n)} 33 {N}", ok(c[-64:], h(ref.ccp_tag(k, n, D, c)), h(fold(c)))


def fold(c):
    """The runner's fold of a ciphertext."""
    import numpy as np
    a = np.zeros(32, dtype=np.uint8)
    x = np.frombuffer(c + bytes(-len(c) % 32), dtype=np.uint8).reshape(-1, 32)
    nb = len(x)
    # rotating left by one each step has period 8: fold the residue classes
    for r in range(8):
        rows = x[(nb - 1 - r) % 8 :: 8] if nb > r else x[:0]
        rows = np.bitwise_xor.reduce(x[[i for i in range(nb) if (nb - 1 - i) % 8 == r]], axis=0) if nb > r else np.zeros(32, dtype=np.uint8)
        a ^= ((rows.astype(np.uint16) << r) | (rows.astype(np.uint16) >> (8 - r))).astype(np.uint8)
    # a short last chunk rotates only the bytes it covers
    rem = len(c) % 32
    if rem:
        b = np.zeros(32, dtype=np.uint8)
        y = x[:-1]
        nb = len(y)
        for r in range(8):
            rows = np.bitwise_xor.reduce(y[[i for i in range(nb) if (nb - 1 - i) % 8 == r]], axis=0) if nb > r else np.zeros(32, dtype=np.uint8)
            b ^= ((rows.astype(np.uint16) << r) | (rows.astype(np.uint16) >> (8 - r))).astype(np.uint8)
        a[rem:] = b[rem:]
    return a.tobytes()


def aead_dec_cases(rng, alg, kl, enc, tagf, crafted=()):
    for d, m in ((0, 0), (0, 1), (7, 0), (16, 16), (20, 50), (1, 64), (0, 65), (33, 130), (5, 400)):
        k, n, D, M = rng.randbytes(kl), rng.randbytes(12), rng.randbytes(d), rng.randbytes(m)
        c, t = enc(k, n, D, M)
        pre = f"dec {alg} {h(k)} {h(n)} {h(D)} {h(c)} "
        yield pre + f"{h(t)} {m} 165", ok(M, 1)
        for x in mutations(rng, t):
            if x != t:
                yield pre + f"{h(x)} {m} 165", ok(b"\xa5" * m, 0)
        if m:
            c2 = bytearray(c)
            c2[rng.randrange(m)] ^= 1 << rng.randrange(8)
            yield f"dec {alg} {h(k)} {h(n)} {h(D)} {h(bytes(c2))} {h(t)} {m} 90", ok(b"\x5a" * m, 0)
            t2 = tagf(k, n, D, bytes(c2))
            yield f"dec {alg} {h(k)} {h(n)} {h(D)} {h(bytes(c2))} {h(t2)} {m} 90", ok(enc(k, n, D, bytes(c2))[0], 1)
        if d:
            D2 = bytearray(D)
            D2[-1] ^= 1
            yield f"dec {alg} {h(k)} {h(n)} {h(bytes(D2))} {h(c)} {h(t)} {m} 90", ok(b"\x5a" * m, 0)
        yield f"dec {alg} {h(k)} {h(n)} {h(D + bytes(1))} {h(c)} {h(t)} {m} 90", ok(b"\x5a" * m, 0)
        # the boundary between data and ciphertext must be authenticated
        if m >= 17 and d:
            yield f"dec {alg} {h(k)} {h(n)} {h(D + c[:16])} {h(c[16:])} {h(t)} {m - 16} 90", ok(b"\x5a" * (m - 16), 0)
        n2 = bytearray(n)
        n2[11] ^= 1
        yield f"dec {alg} {h(k)} {h(bytes(n2))} {h(D)} {h(c)} {h(t)} {m} 90", ok(b"\x5a" * m, 0)
    for k, n, c in crafted:
        t = tagf(k, n, b"", c)
        yield f"dec {alg} {h(k)} {h(n)} - {h(c)} {h(t)} {len(c)} 165", ok(enc(k, n, b"", c)[0], 1)


def suite_C09(rng, thorough):
    g = craft_poly(rng)
    yield from aead_dec_cases(rng, "ccp", 32, ref.ccp_encrypt, ref.ccp_tag, [next(g) for _ in range(20)])


def suite_C10(rng, thorough):
    for a in (128, 192, 256):
        kl = a // 8
        for i in range(1500 if thorough else 300):
            k, b = rng.randbytes(kl), rng.randbytes(16)
            yield f"aes {a} {h(k)} {h(b)}", ok(ref.aes(k, b))
        for i in range(256):  # every S-box input in every key and state position over the sweep
            k = bytes((i + 17 * j) & 255 for j in range(kl))
            b = bytes((i * 3 + j) & 255 for j in range(16))
            yield f"aes {a} {h(k)} {h(b)}", ok(ref.aes(k, b))
        for n in (0, 1, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 64):
            if n != kl:
                yield f"aes {a} {h(bytes(n))} {h(bytes(16))}", panic()


def np_aes_ctr(key, nonce, first, nb):
    import numpy as np
    rk = [np.array(x, dtype=np.uint8) for x in ref.aes_expand(key)]
    S = np.array(list(ref.SBOX), dtype=np.uint8)
    M2 = np.array(ref._MUL2, dtype=np.uint8)
    M3 = np.array(ref._MUL3, dtype=np.uint8)
    s = np.zeros((nb, 16), dtype=np.uint8)
    s[:, :12] = np.frombuffer(nonce, dtype=np.uint8)
    s[:, 12:] = (np.arange(nb, dtype=np.uint64) + first).astype(">u4").view(np.uint8).reshape(nb, 4)
    s ^= rk[0]
    sh = [(i + 4 * (i % 4)) % 16 for i in range(16)]
    for r in range(1, len(rk)):
        s = S[s][:, sh]
        if r < len(rk) - 1:
            a = s.reshape(nb, 4, 4)
            s = (M2[a] ^ M3[np.roll(a, -1, 2)] ^ np.roll(a, -2, 2) ^ np.roll(a, -3, 2)).reshape(nb, 16)
        s = s ^ rk[r]
    return s.tobytes()


def suite_C11(rng, thorough):
    for a, kl in GCMS:
        for d, m in aead_cases(rng):
            if (d, m) == (70000, 3) and a != "gcm128":
                continue
            k, n, D, M = rng.randbytes(kl), rng.randbytes(12), rng.randbytes(d), rng.randbytes(m)
            c, t = ref.gcm_encrypt(k, n, D, M)
            yield f"enc {a} {h(k)} {h(n)} {h(D)} {h(M)} {m}", ok(c, h(t))
        k, n = rng.randbytes(kl), rng.randbytes(12)
        for N in (16 * 256 + 5,) + ((16 * 65536 + 77,) if a == "gcm128" or thorough else ()):
            c = fast_xor(ref.pattern(N, 1), np_aes_ctr(k, n, 2, N // 16 + 1)[:N])
            D = ref.pattern(33, 3)
            yield f"encgen {a} {h(k)} {h(n)} 33 {N}", ok(c[-64:], h(ref.gcm_tag(k, n, D, c)), h(fold(c)))


def suite_C12(rng, thorough):
    for a, kl in GCMS:
        yield from aead_dec_cases(rng, a, kl, ref.gcm_encrypt, ref.gcm_tag)


LOW_ORDER = [0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504,
             39382357235489614581723060781553021112529911719440698176882885853963445705823,
             ref.P - 1, ref.P, ref.P + 1, 2 * ref.P - 1, 2 * ref.P, 2 * ref.P + 1]


def field_edges(rng):
    p = ref.P
    for v in LOW_ORDER + [2, 9, 19, 18, p - 2, p - 19, p + 9, p + 18, 2**255 - 1, 2**254, 2**254 - 1, 2**256 - 1, 2**255, 2**255 + 9, (1 << 128) - 1]:
        if v < 2**256:
            yield v.to_bytes(32, "little")
    for i in range(32):
        yield bytes(0xFF if j == i else 0 for j in range(32))
        yield bytes(0x00 if j == i else 0xFF for j in range(32))


def suite_C13(rng, thorough):
    us = list(field_edges(rng)) + [rng.randbytes(32) for _ in range(80)]
    sks = [bytes(32), b"\xff" * 32, b"\x07" + bytes(31), bytes(31) + b"\x80"] + [rng.randbytes(32) for _ in range(4)]
    # neighbours of the distinguished values, and values tied to the key
    for u in (0, 1, 2, 8, 9, 16, ref.P - 1, ref.P, ref.P + 9, 2**255 - 1, 121665, 39382357235489614581723060781553021112529911719440698176882885853963445705823, 325606250916557431795983626356110631294008115727848805560023387167927233504):
        for j in ((0, 1, 15, 16, 30, 31) if not thorough else range(32)):
            b = bytearray((u % 2**256).to_bytes(32, "little"))
            b[j] ^= 1 << rng.randrange(7 if j == 31 else 8)
            us.append(bytes(b))
    for sk in sks:
        for u in (sk, ref.clamp(sk).to_bytes(32, "little"), ref.x25519(sk, (9).to_bytes(32, "little")), bytes(x ^ 255 for x in sk)):
            yield f"x25519 {h(u)} {h(sk)}", ok(ref.x25519(sk, u))
    for i, u in enumerate(us):
        for sk in ([sks[i % len(sks)], rng.randbytes(32)] if not thorough else sks):
            yield f"x25519 {h(u)} {h(sk)}", ok(ref.x25519(sk, u))
    for sk in sks + list(field_edges(rng)) + [rng.randbytes(32) for _ in range(30)]:
        yield f"x25519pk {h(sk)}", ok(ref.x25519(sk, (9).to_bytes(32, "little")))


def suite_C14(rng, thorough):
    sks = [bytes(32), b"\xff" * 32] + [rng.randbytes(32) for _ in range(120 if thorough else 40)]
    for i, sk in enumerate(sks):
        yield f"edpk {h(sk)}", ok(ref.ed_pk(sk))
        m = rng.randbytes([0, 1, 63, 64, 127, 128, 129, 200, 32, 33][i % 10])
        yield f"edsign {h(sk)} {h(m)}", ok(ref.ed_sign(sk, m))
    m = rng.randbytes(5000)
    yield f"edsign {h(sks[5])} {h(m)}", ok(ref.ed_sign(sks[5], m))


def ed_sign_scalar(a, pk, r, msg, add=0):
    """A signature made with scalar a and nonce r (S is not reduced when add is given)."""
    R = ref.ed_encode(ref.ed_mul_base(r))
    k = ref.ed_hash(R, pk, msg)
    return R + ((r + k * a) % ref.L + add).to_bytes(32, "little")


def ed_cases(rng, thorough):
    """(public key, signature, message) with edge material."""
    L, p = ref.L, ref.P
    for i in range(60 if thorough else 14):
        sk, m = rng.randbytes(32), rng.randbytes(rng.randrange(0, 150))
        pk, s = ref.ed_pk(sk), ref.ed_sign(sk, m)
        yield pk, s, m
        S = int.from_bytes(s[32:], "little")
        for k in range(1, 16):
            if S + k * L < 2**256:
                yield pk, s[:32] + (S + k * L).to_bytes(32, "little"), m
        if i < 4:
            for n in (0, 1, 31, 32, 33, 63):
                yield pk, s[:n], m
            yield pk, s + b"\0", m
            yield pk, s + s, m
            for b in range(0, 512, 7):
                x = bytearray(s)
                x[b // 8] ^= 1 << b % 8
                yield pk, bytes(x), m
            x = bytearray(s); x[31] ^= 0x80
            yield pk, bytes(x), m
            x = bytearray(pk); x[31] ^= 0x80
            yield bytes(x), s, m
            yield pk, s, m + b"\0"
            yield pk, s[:32] + ((L - S) % L).to_bytes(32, "little"), m
    # [S]B - [k]A with chosen S and small-order A
    torsion = [1, p - 1, 0, p, p + 1]
    for y in torsion:
        for sg in (0, 1):
            pk = (y | sg << 255).to_bytes(32, "little")
            A = ref.ed_decode(pk)
            for j in range(6):
                m = rng.randbytes(8)
                S = [0, 1, L - 1, L, L + 1, rng.randrange(L)][j]
                base = ref.ed_encode(ref.ed_mul_base(S))
                yield pk, base + S.to_bytes(32, "little"), m
                if A:
                    T = A
                    for q in range(4):
                        R = ref.ed_encode(ref.ed_add(ref.ed_mul_base(S), T))
                        yield pk, R + S.to_bytes(32, "little"), m
                        T = ref.ed_add(T, A)
    # a non-canonical R with the right point (y = p + 1, the identity)
    pk = (1).to_bytes(32, "little")
    yield pk, (p + 1).to_bytes(32, "little") + bytes(32), b"x"
    yield pk, (1).to_bytes(32, "little") + bytes(32), b"x"
    yield pk, (1 | 1 << 255).to_bytes(32, "little") + bytes(32), b"x"
    # edge scalars: crafted keys and nonces, S exactly at chosen values
    for S in (0, 1, 2**252, 2**252 - 1, L - 1):
        a = rng.randrange(L)
        pk = ref.ed_encode(ref.ed_mul_base(a))
        m = b"edge"
        r = rng.randrange(L)
        R = ref.ed_encode(ref.ed_mul_base(r))
        k = ref.ed_hash(R, pk, m)
        # choose a such that r + k a = S would change pk; instead choose S by its R: only valid ones
        yield pk, R + ((r + k * a) % L).to_bytes(32, "little"), m
        yield pk, R + S.to_bytes(32, "little"), m
    for v in range(-3, 4):
        yield ref.ed_pk(bytes(32)), ref.ed_sign(bytes(32), b"m")[:32] + (L + v).to_bytes(32, "little"), b"m"
    # undecodable and edge public keys
    n = 0
    while n < 12:
        pk = rng.randbytes(32)
        if ref.ed_decode(pk) is None:
            n += 1
            yield pk, rng.randbytes(32) + rng.randrange(L).to_bytes(32, "little"), b"m"
    for pk in field_edges(rng):
        A = ref.ed_decode(pk)
        m = rng.randbytes(3)
        if A:
            # make the equation hold by solving for R with a small-k trick: S arbitrary, R recomputed fails
            S = rng.randrange(L)
            yield pk, ref.ed_encode(ref.ed_mul_base(S)) + S.to_bytes(32, "little"), m
        else:
            yield pk, rng.randbytes(32) + rng.randrange(L).to_bytes(32, "little"), m


def suite_C15(rng, thorough):
    for pk, s, m in ed_cases(rng, thorough):
        yield f"edverify {h(pk)} {h(s)} {h(m)}", ok(b"", int(ref.ed_verify(pk, s, m)))


def suite_C16(rng, thorough):
    for i in range(120 if thorough else 50):
        sk, m = rng.randbytes(32), rng.randbytes(rng.randrange(0, 200))
        yield f"edround {h(sk)} {h(m)}", ok(b"", 1)
        m2 = bytearray(m or b"\0")
        m2[rng.randrange(len(m2))] ^= 1 << rng.randrange(8)
        yield f"edround2 {h(sk)} {h(m)} {h(bytes(m2))}", ok(b"", 0)


def suite_C17(rng, thorough):
    for i in range(40):
        x = rng.choice([rng.randbytes(16), bytes(16), b"\xff" * 16])
        yield f"v16 {h(x)} {h(x)}", ok(b"", 1)
        for y in mutations(rng, x):
            yield f"v16 {h(x)} {h(y)}", ok(b"", int(x == y))
    for n in range(0, 40):
        yield f"v16 {h(bytes(16))} {h(bytes(n))}", ok(b"", int(n == 16))
    for n in (256 + 16, 65536 + 16, 256, 512, 65536):
        yield f"v16 {h(bytes(16))} {h(bytes(n))}", ok(b"", 0)
    x = rng.randbytes(16)
    for i in range(16):
        for d in range(1, 256):
            y = bytearray(x)
            y[i] ^= d
            yield f"v16 {h(x)} {h(bytes(y))}", ok(b"", 0)


def suite_C18(rng, thorough):
    import itertools
    # the extreme-magnitude inputs of every family
    for a in HASHES:
        d, b = ref.DIGEST[a], ref.BLOCK[a]
        for n in (0, b, 10 * b):
            m = b"\xff" * n
            yield f"sha1 {a} {h(m)}", ok(ref.sha(a, m))
            yield f"hmac1 {a} {h(m)} {h(m)}", ok(ref.hmac(a, m, m))
        p = b"\xff" * b
        for n in (0, 254 * d, 255 * d):
            yield f"expand {a} {h(p)} - {n}", ok(ref.hkdf_expand(a, p, b"", n))
    for s in (suite_C08, suite_C11, suite_C13, suite_C14, suite_C15, suite_C16, suite_C06):
        c = list(itertools.islice(s(rng, False), 400))
        yield from rng.sample(c, min(120, len(c)))


def suite_C19(rng, thorough):
    A5 = lambda n: b"\xa5" * n
    for a in HASHES:
        d = ref.DIGEST[a]
        for n in (0, 1, d - 1, d + 1, d + 4, 2 * d, 64, 32, 28, 48):
            if n != d:
                yield f"shalen {a} {h(b'abc')} {n}", panic(A5(n))
                yield f"extract {a} 00 00 {n}", panic(A5(n))
        for n in (255 * d + 1, 256 * d, 300 * d, 512 * d):
            yield f"expand {a} {h(bytes(d))} 00 {n}", panic(A5(n))
        for pl in (0, 1, d - 1):
            for n in (0, d, 2 * d + 1):
                yield f"expand {a} {h(bytes(pl))} 00 {n}", panic(A5(n))
    for n in (0, 1, 11, 13, 16, 24, 31, 33, 64):
        if n != 32:
            yield f"stream {h(bytes(n))} {h(bytes(12))} n", panic()
            yield f"edsign {h(bytes(n))} 00", panic()
            yield f"edpk {h(bytes(n))}", panic()
            yield f"x25519 {h(bytes(n))} {h(bytes(32))}", panic()
            yield f"x25519 {h(bytes(32))} {h(bytes(n))}", panic()
            yield f"x25519pk {h(bytes(n))}", panic()
            yield f"edverify {h(bytes(n))} {h(bytes(64))} 00", panic()
            yield f"edverify {h(bytes(n))} {h(bytes(63))} 00", panic()
        if n != 12:
            yield f"stream {h(bytes(32))} {h(bytes(n))} n", panic()
    for a, kl in [("ccp", 32)] + GCMS:
        for n in (0, 1, 12, 15, 16, 17, 24, 31, 32, 33, 64):
            if n != kl:
                yield f"enc {a} {h(bytes(n))} {h(bytes(12))} - {h(bytes(5))} 5", panic(A5(5))
                yield f"dec {a} {h(bytes(n))} {h(bytes(12))} - {h(bytes(5))} {h(bytes(16))} 5 165", panic(A5(5))
        k, nn, M = bytes(kl), bytes(12), bytes(40)
        enc, tg = (ref.ccp_encrypt, ref.ccp_tag) if a == "ccp" else (ref.gcm_encrypt, ref.gcm_tag)
        for n in (0, 1, 8, 11, 13, 16, 24):
            for ml in (0, 40):
                yield f"enc {a} {h(k)} {h(bytes(n))} 0102 {h(bytes(ml))} {ml}", panic(A5(ml))
                yield f"dec {a} {h(k)} {h(bytes(n))} 0102 {h(bytes(ml))} {h(bytes(16))} {ml} 165", panic(A5(ml))
        for ml, ol in ((0, 1), (1, 0), (40, 39), (40, 41), (16, 32), (64, 0), (0, 64), (65, 64), (64, 65), (40, 48)):
            m = bytes(ml)
            yield f"enc {a} {h(k)} {h(nn)} 0102 {h(m)} {ol}", panic(A5(ol))
            t = tg(k, nn, b"\1\2", m)
            yield f"dec {a} {h(k)} {h(nn)} 0102 {h(m)} {h(t)} {ol} 165", panic(A5(ol))
            yield f"dec {a} {h(k)} {h(nn)} 0102 {h(m)} {h(bytes(16))} {ol} 165", panic(A5(ol))
            yield f"dec {a} {h(k)} {h(nn)} 0102 {h(m)} - {ol} 165", panic(A5(ol))
    for kl in (128, 192, 256):
        for n in (0, 1, 15, 16, 17, 23, 24, 25, 31, 32, 33, 64):
            if n * 8 != kl:
                yield f"aes {kl} {h(bytes(n))} {h(bytes(16))}", panic()
    for i in range(60):
        a, b = rng.choice([(0, 1), (1, 0), (64, 63), (63, 64), (5, 70), (70, 5), (65, 64)])
        k, n = rng.randbytes(32), rng.randbytes(12)
        pre = rng.choice([[], ["n"], ["e" + "00" * 63], ["e" + "00" * 64], ["e" + "00" * 10]])
        plen = 0 if not pre else 1 if pre == ["n"] else (len(pre[0]) - 1) // 2
        o = ref.chacha_stream(k, n, 0, plen) + b"\1" + A5(b) + ref.chacha_stream(k, n, plen, 5)
        yield f"stream {h(k)} {h(n)} " + " ".join(pre + [f"{rng.choice('mw')}{a}:{b}"] + ["n"] * 5), ok(o)


SUITES = {k[6:]: v for k, v in list(globals().items()) if k.startswith("suite_")}
