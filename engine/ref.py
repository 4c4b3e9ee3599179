"""Reference functions written from the standards (FIPS 180-4, RFC 2104, RFC 5869, RFC 8439, FIPS 197,
SP 800-38D, RFC 7748, RFC 8032), independent of the code under test.  Used as the oracle when a
suspected violation is replayed against the compiled crate, and as the ground truth for constants."""
import hashlib, hmac as _hmac, struct

DIGEST = {"sha512": 64, "sha384": 48, "sha256": 32, "sha224": 28}
BLOCK = {"sha512": 128, "sha384": 128, "sha256": 64, "sha224": 64}


def pattern(n, seed):
    cyc = bytes((((i * i * 7 + i * 13 + seed * 31 + 5) >> 1) & 255) for i in range(251))
    return cyc * (n // 251) + cyc[: n % 251]


def sha(alg, data):
    return hashlib.new(alg, data).digest()


def hmac(alg, key, msg):
    # spelled out rather than taken from the library
    if len(key) > BLOCK[alg]:
        key = sha(alg, key)
    key = key + bytes(BLOCK[alg] - len(key))
    return sha(alg, bytes(k ^ 0x5C for k in key) + sha(alg, bytes(k ^ 0x36 for k in key) + msg))


def hkdf_extract(alg, salt, ikm):
    return hmac(alg, salt, ikm)


def hkdf_expand(alg, prk, info, n):
    if n > 255 * DIGEST[alg] or len(prk) < DIGEST[alg]:
        return None
    t, out, i = b"", b"", 1
    while len(out) < n:
        t = _hmac.new(prk, t + info + bytes([i]), alg).digest()
        out += t
        i += 1
    return out[:n]


# ---------------------------------------------------------------- ChaCha20, Poly1305
def _rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xFFFFFFFF


def chacha_block(key, counter, nonce):
    s = list(struct.unpack("<4I", b"expand 32-byte k") + struct.unpack("<8I", key) + (counter & 0xFFFFFFFF,) + struct.unpack("<3I", nonce))
    w = list(s)

    def qr(a, b, c, d):
        w[a] = (w[a] + w[b]) & 0xFFFFFFFF; w[d] = _rotl(w[d] ^ w[a], 16)
        w[c] = (w[c] + w[d]) & 0xFFFFFFFF; w[b] = _rotl(w[b] ^ w[c], 12)
        w[a] = (w[a] + w[b]) & 0xFFFFFFFF; w[d] = _rotl(w[d] ^ w[a], 8)
        w[c] = (w[c] + w[d]) & 0xFFFFFFFF; w[b] = _rotl(w[b] ^ w[c], 7)

    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack("<16I", *[(x + y) & 0xFFFFFFFF for x, y in zip(w, s)])


def chacha_stream(key, nonce, start, n):
    """n bytes of keystream from byte position start (counter 0 is position 0)."""
    out = b""
    b = start // 64
    skip = start % 64
    while len(out) < n + skip:
        out += chacha_block(key, b, nonce)
        b += 1
    return out[skip : skip + n]


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


P1305 = 2**130 - 5
CLAMP = 0x0FFFFFFC0FFFFFFC0FFFFFFC0FFFFFFF


def poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & CLAMP
    s = int.from_bytes(key[16:], "little")
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i : i + 16] + b"\x01", "little")) * r % P1305
    return ((a + s) % 2**128).to_bytes(16, "little")


def pad16(x):
    return x + bytes(-len(x) % 16)


def ccp_tag(key, nonce, data, ct):
    return poly1305(chacha_block(key, 0, nonce)[:32], pad16(data) + pad16(ct) + struct.pack("<QQ", len(data), len(ct)))


def ccp_encrypt(key, nonce, data, msg):
    ct = xor(msg, chacha_stream(key, nonce, 64, len(msg)))
    return ct, ccp_tag(key, nonce, data, ct)


# ---------------------------------------------------------------- AES, GCM
def xtime(b):
    return ((b << 1) ^ (0x11B if b & 0x80 else 0)) & 0xFF


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = xtime(a)
        b >>= 1
    return r


def _make_sbox():
    t = []
    for x in range(256):
        inv = next((y for y in range(1, 256) if gmul(x, y) == 1), 0)
        s = 0x63
        for k in range(5):
            s ^= ((inv << k) | (inv >> (8 - k))) & 0xFF
        t.append(s)
    return t


SBOX = _make_sbox()


def aes_expand(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i : 4 * i + 4]) for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [SBOX[x] for x in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = xtime(rcon)
        elif nk > 6 and i % nk == 4:
            t = [SBOX[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r : 4 * r + 4], []) for r in range(nr + 1)]


_MUL2 = [gmul(x, 2) for x in range(256)]
_MUL3 = [gmul(x, 3) for x in range(256)]


def aes_enc(rk, block):
    s = [a ^ b for a, b in zip(block, rk[0])]
    n = len(rk) - 1
    for r in range(1, n + 1):
        s = [SBOX[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]  # ShiftRows, column-major
        if r < n:
            o = []
            for c in range(0, 16, 4):
                a = s[c : c + 4]
                for i in range(4):
                    o.append(_MUL2[a[i]] ^ _MUL3[a[(i + 1) % 4]] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4])
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def aes(key, block):
    return aes_enc(aes_expand(key), block)


R_GCM = 0xE1 << 120


def gf_mul(x, y):
    z, v = 0, y
    for i in range(128):
        if (x >> (127 - i)) & 1:
            z ^= v
        v = (v >> 1) ^ (R_GCM if v & 1 else 0)
    return z


class _GHTab:
    """Multiplication by a fixed element with byte tables (linear)."""

    def __init__(self, h):
        self.t = []
        basis = [0] * 128
        v = h
        for i in range(128):
            basis[i] = v  # x^i * h
            v = (v >> 1) ^ (R_GCM if v & 1 else 0)
        for j in range(16):
            row = [0] * 256
            for b in range(256):
                z = 0
                for k in range(8):
                    if b & (0x80 >> k):
                        z ^= basis[8 * j + k]
                row[b] = z
            self.t.append(row)

    def mul(self, x):
        z = 0
        for j, b in enumerate(x.to_bytes(16, "big")):
            z ^= self.t[j][b]
        return z


def ghash(h, data, ct):
    tab = _GHTab(int.from_bytes(h, "big")) if len(data) + len(ct) > 4096 else None
    hi = int.from_bytes(h, "big")
    y = 0
    m = pad16(data) + pad16(ct) + struct.pack(">QQ", 8 * len(data), 8 * len(ct))
    for i in range(0, len(m), 16):
        y ^= int.from_bytes(m[i : i + 16], "big")
        y = tab.mul(y) if tab else gf_mul(y, hi)
    return y.to_bytes(16, "big")


def gcm_ctr(rk, nonce, n, first=2):
    out = b"".join(aes_enc(rk, nonce + struct.pack(">I", (first + i) & 0xFFFFFFFF)) for i in range((n + 15) // 16))
    return out[:n]


def gcm_tag(key, nonce, data, ct):
    rk = aes_expand(key)
    return xor(ghash(aes_enc(rk, bytes(16)), data, ct), aes_enc(rk, nonce + b"\0\0\0\1"))


def gcm_encrypt(key, nonce, data, msg):
    ct = xor(msg, gcm_ctr(aes_expand(key), nonce, len(msg)))
    return ct, gcm_tag(key, nonce, data, ct)


# ---------------------------------------------------------------- X25519, Ed25519
P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, -1, P) % P
SQRTM1 = pow(2, (P - 1) // 4, P)


def clamp(k):
    n = int.from_bytes(k, "little")
    return (n & (2**254 - 8)) | 2**254


def x25519(k, u):
    k = clamp(k)
    x1 = (int.from_bytes(u, "little") & (2**255 - 1)) % P
    x2, z2, x3, z3, swap = 1, 0, x1, 1, 0
    for t in reversed(range(255)):
        kt = (k >> t) & 1
        swap ^= kt
        if swap:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = kt
        A = x2 + z2; AA = A * A % P; B = x2 - z2; BB = B * B % P; E = AA - BB
        C = x3 + z3; Dd = x3 - z3; DA = Dd * A % P; CB = C * B % P
        x3 = (DA + CB) ** 2 % P; z3 = x1 * (DA - CB) ** 2 % P
        x2 = AA * BB % P; z2 = E * (AA + 121665 * E) % P
    if swap:
        x2, x3, z2, z3 = x3, x2, z3, z2
    return (x2 * pow(z2, P - 2, P) % P).to_bytes(32, "little")


def _recover_x(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, -1, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * SQRTM1 % P
    if (x * x - x2) % P:
        return None
    if x % 2 != sign:
        x = (P - x) % P
    return x


BY = 4 * pow(5, -1, P) % P
BX = _recover_x(BY, 0)
B = (BX, BY, 1, BX * BY % P)
ZERO = (0, 1, 1, 0)


def ed_add(p, q):
    A = (p[1] - p[0]) * (q[1] - q[0]) % P
    Bb = (p[1] + p[0]) * (q[1] + q[0]) % P
    C = 2 * p[3] * q[3] * D % P
    Dd = 2 * p[2] * q[2] % P
    E, F, G, H = Bb - A, Dd - C, Dd + C, Bb + A
    return (E * F % P, G * H % P, F * G % P, E * H % P)


def ed_mul(n, p):
    q = ZERO
    while n > 0:
        if n & 1:
            q = ed_add(q, p)
        p = ed_add(p, p)
        n >>= 1
    return q


_btab = []


def ed_mul_base(n):
    global _btab
    if not _btab:
        q = B
        for _ in range(512):
            _btab.append(q)
            q = ed_add(q, q)
    q, i = ZERO, 0
    while n:
        if n & 1:
            q = ed_add(q, _btab[i])
        n >>= 1
        i += 1
    return q


def ed_neg(p):
    return ((P - p[0]) % P, p[1], p[2], (P - p[3]) % P)


def ed_affine(p):
    zi = pow(p[2], -1, P)
    return p[0] * zi % P, p[1] * zi % P


def ed_encode(p):
    x, y = ed_affine(p)
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def ed_decode(s, strict=False):
    """A point of the curve, or None.  strict adds the RFC 8032 checks y < p and no (x = 0, sign = 1)."""
    y = int.from_bytes(s, "little")
    sign = y >> 255
    y &= 2**255 - 1
    if strict and y >= P:
        return None
    y %= P
    x2 = (y * y - 1) * pow(D * y * y + 1, -1, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * SQRTM1 % P
    if (x * x - x2) % P:
        return None
    if strict and x == 0 and sign:
        return None
    if x % 2 != sign:
        x = (P - x) % P
    return (x, y, 1, x * y % P)


def ed_secret(sk):
    h = hashlib.sha512(sk).digest()
    return clamp(h[:32]), h[32:]


def ed_pk(sk):
    return ed_encode(ed_mul_base(ed_secret(sk)[0]))


def ed_hash(*parts):
    return int.from_bytes(hashlib.sha512(b"".join(parts)).digest(), "little") % L


def ed_sign(sk, msg, pk=None):
    a, prefix = ed_secret(sk)
    pk = pk or ed_encode(ed_mul_base(a))
    r = ed_hash(prefix, msg)
    R = ed_encode(ed_mul_base(r))
    k = ed_hash(R, pk, msg)
    return R + ((r + k * a) % L).to_bytes(32, "little")


def ed_verify(pk, sig, msg):
    """The predicate of property C15."""
    if len(sig) != 64:
        return False
    s = int.from_bytes(sig[32:], "little")
    if s >= L:
        return False
    A = ed_decode(pk)
    if A is None:
        return False
    k = ed_hash(sig[:32], pk, msg)
    return ed_encode(ed_add(ed_mul_base(s), ed_mul(k, ed_neg(A)))) == sig[:32]
