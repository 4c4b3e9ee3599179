"""Contracts for the symmetric half: SHA-2, HMAC, HKDF, ChaCha20, AES, GHASH, GCM, AEAD drivers."""
import anf
import specs
from anf import Word
from ir import ExecError, Panic, explore
from prove import Failed, Obligation, Token, get_token, put_token
from specs import BLOCK, DIGEST

HASHES = ["sha512", "sha384", "sha256", "sha224"]
CAP = {h: h.capitalize() for h in HASHES}
PROC = {64: "<crypto_pure::sha2::Processor512>::process", 32: "<crypto_pure::sha2::Processor256>::process"}
WIDTH = {"sha512": 64, "sha384": 64, "sha256": 32, "sha224": 32}
CHACHA_NEW = "<crypto_pure::chacha20::ChaCha20>::new"
CHACHA_BLOCK = "<crypto_pure::chacha20::ChaCha20>::block"
SBOX = "crypto_pure::aes::s_box"
GF = "<crypto_pure::ghash::PolyFunction>::"
P13 = "<crypto_pure::poly1305::PolyFunction>::"
AES = {"aes128": 16, "aes192": 24, "aes256": 32}
V16 = "crypto_pure::util::verify_16"


def fresh_bytes(d, name, n):
    return [d.fresh(f"{name}{i}", 8) for i in range(n)]


def ptr_bytes(ex, cells, name, ro=True):
    p = ex.alloc(len(cells), name)
    ex.put(p, cells)
    if ro:
        ex.objs[p >> 44].ro = True
    return p


# ---------------------------------------------------------------- SHA-2
def ob_sha_process(w):
    def run(R):
        ex = R.exe()
        d = ex.d
        st = [d.fresh(f"s{i}", w) for i in range(8)]
        blk = fresh_bytes(d, "m", 2 * w)
        ps = ex.alloc(w, "state")
        for i, v in enumerate(st):
            ex.st(ps + i * w // 8, w // 8, v)
        pi = ptr_bytes(ex, blk, "block")
        ex.call_dem(PROC[w], ps, pi, 2 * w)
        want = specs.sha_compress(w, [Word(d, w, v) for v in st], specs.be_words(d, blk, w))
        for i in range(8):
            R.same(d, ex.ld(ps + i * w // 8, w // 8), want[i].v, w, f"state word {i} is not the FIPS 180-4 compression")
        R.done(ex)
    return Obligation(f"sha2::Processor{8 * w}::process ensures state' = compress(state, block)", run, cost=3)


def compress_contract(w):
    """Processor::process as an uninterpreted function of (state, block)."""
    def h(ex, ps, pi, n):
        if type(n) is not int and hasattr(ex.d, "entails") and ex.d.entails(n.p, 2 * w, 2 * w):
            n = 2 * w
        if type(n) is not int or n != 2 * w:
            raise ExecError("process called with a partial block")
        d = ex.d
        st = [ex.ld(ps + i * w // 8, w // 8) for i in range(8)]
        blk = ex.get(pi, n)
        out = compress_uf(d, w, st, blk)
        for i, v in enumerate(out):
            ex.st(ps + i * w // 8, w // 8, v)
    return {PROC[w]: h}


def compress_uf(d, w, st, blk):
    args = [(w, v) for v in st] + [(8, b) for b in blk]
    v = d.uf(f"compress{w}", args, 8 * w)
    return [d.mk(v.bits[i * w : (i + 1) * w]) for i in range(8)]


def spec_digest(d, alg, msg, comp):
    """FIPS 180-4 padding (64-bit length) over the compression function comp."""
    w, B = WIDTH[alg], BLOCK[alg]
    m = list(msg) + [0x80]
    m += [0] * ((-(len(m) + 8)) % B if w == 32 else (-(len(m) + 16)) % B + 8)
    m += list((8 * len(msg)).to_bytes(8, "big"))
    st = specs.IV[alg]
    for i in range(0, len(m), B):
        st = comp(st, m[i : i + B])
    out = []
    for v in st:
        out += [d.byte_of(v, w // 8 - 1 - j) for j in range(w // 8)]
    return out[: DIGEST[alg]]


def hash_obj_size(ex, alg):
    n = ex.m.by_dem[f"<crypto_pure::sha2::{CAP[alg]} as core::default::Default>::default"].sret
    if not n:
        raise ExecError("size of hash object")
    return n


def comp_for(R, d, w):
    """(overrides, compression for the specification): the contract where the code has that function."""
    if R.has(PROC[w]):
        return [compress_contract(w)], lambda st, blk: compress_uf(d, w, st, blk)

    def real(st, blk):
        return [x.v for x in specs.sha_compress(w, [Word(d, w, v) for v in st], specs.be_words(d, blk, w))]
    return [], real


def sha_history(R, alg, pieces, d=None, whole=False):
    d = anf.Domain()
    w = WIDTH[alg]
    ov, comp = comp_for(R, d, w)
    ex = R.exe(d, ov)
    n = sum(pieces)
    msg = fresh_bytes(d, "m", n)
    pm = ptr_bytes(ex, msg, "input")
    h = ex.alloc(hash_obj_size(ex, alg), "hash")
    out = ex.alloc(DIGEST[alg], "digest")
    want = spec_digest(d, alg, msg, comp)
    if whole:
        ex.call_dem(f"crypto_pure::sha2::{alg}", out, pm, n) if len(ex.m.by_dem[f"crypto_pure::sha2::{alg}"].params) == 3 else ex.call_dem(f"crypto_pure::sha2::{alg}", pm, n)
    else:
        ex.call(f"@h_{alg}_default", [h])
        o = 0
        for k in pieces:
            ex.call(f"@h_{alg}_update", [h, pm + o, k])
            o += k
        ex.call(f"@h_{alg}_write_digest", [h, out, DIGEST[alg]])
    R.same_cells(d, ex.get(out, DIGEST[alg]), want, f"{alg} digest of pieces {pieces}")
    R.done(ex)


def ob_sha_lengths(alg, lo, hi):
    def run(R):
        for n in range(lo, hi):
            sha_history(R, alg, [n])
            sha_history(R, alg, [n], whole=True)
    return Obligation(f"{alg}: digest(m) = FIPS 180-4 for |m| in [{lo},{hi})", run, bounded=f"message lengths {lo}..{hi - 1}, all contents", cost=4)


def ob_sha_splits(alg, offs):
    B = BLOCK[alg]

    def run(R):
        for o in offs:
            s = B - o
            ns = {0, 1, 2, s - 2, s - 1, s, s + 1, s + 2, s + B - 1, s + B, s + B + 1, s + 2 * B, s + 2 * B + 3, B // 2, B - 1, B, B + 1}
            for n in sorted(x for x in ns if x >= 0):
                sha_history(R, alg, [o, n])
        for o in offs[:: max(1, len(offs) // 3)]:
            for p in ([o, 0, 1, 0, B, 1], [0, 0, o, B - o, B - 1, 1, 1], [o, 2 * B, 3, B - 1], [B, o, B, o]):
                sha_history(R, alg, p)
    return Obligation(f"{alg}: update histories = one call, offsets {offs[0]}..{offs[-1]}", run, bounded="two- to seven-call histories up to 4 blocks at every buffer offset, all contents", cost=6)


def ob_sha_wrong_len(alg):
    def run(R):
        for n in list(range(0, 130)):
            if n != DIGEST[alg]:
                ex = R.exe(None, comp_for(R, anf.Domain(), WIDTH[alg])[0])
                h = ex.alloc(hash_obj_size(ex, alg), "hash")
                out = ex.alloc(n, "digest")
                ex.objs[out >> 44].ro = True  # any write to it is an error
                ex.call(f"@h_{alg}_default", [h])
                R.panics(ex, lambda: ex.call(f"@h_{alg}_write_digest", [h, out, n]), f"write_digest into {n} bytes")
    return Obligation(f"{alg}: write_digest refuses every other length before writing", run, bounded="buffer lengths 0..129", cost=1)


# ---------------------------------------------------------------- HMAC, HKDF over the hash contract
def hash_contract(R, ex, alg):
    """HashFunction for alg as a ghost message: default = [], update appends, write_digest = H(message)."""
    size = hash_obj_size(ex, alg)
    c = f"<crypto_pure::sha2::{CAP[alg]} as "
    D = DIGEST[alg]

    def default(ex, out):
        put_token(ex, out, size, alg, ())

    def update(ex, p, pi, n):
        t = get_token(ex, p, size, alg)
        put_token(ex, p, size, alg, t + (tuple(ex.get(pi, n)) if type(n) is int else (opaque(ex.d, pi, n),)))

    def write(ex, p, po, n):
        if n != D:
            raise Panic("write_digest length")
        ex.put(po, hash_uf(ex.d, alg, get_token(ex, p, size, alg)))
    return {c + "core::default::Default>::default": default, c + "crypto_pure::sha2::HashFunction>::update": update,
            c + "crypto_pure::sha2::HashFunction>::write_digest": write}


class Slice:
    """A byte string of unknown length and contents (an argument that the code only passes on)."""

    def __init__(self, p, n, name):
        self.p, self.n, self.name = p, n, name


def opaque(d, p, n):
    """The slice at pointer p of symbolic length n, as a piece of a message."""
    t = d.__dict__.setdefault("slices", {})
    v = t.get(p)
    if v is None:
        v = t[p] = Slice(p, n, d.fresh("slice", 64))
    if not d.same(v.n, n, 64):
        raise ExecError("part of an opaque slice")
    return v


def opaque_slice(ex, name, lo=0, hi=(1 << 61) - 1):
    """(pointer, symbolic length): any access to its contents is outside the contract."""
    p = ex.alloc(0, "opaque " + name)
    d = ex.d
    return p, d.iatom("len " + name, 64, lo, hi) if hasattr(d, "iatom") else d.fresh("len " + name, 64)


def hash_uf(d, alg, msg):
    v = d.uf(alg, d.message(msg) if hasattr(d, "message") else [(64, b.name) if isinstance(b, Slice) else (8, b) for b in msg], 8 * DIGEST[alg])
    return [d.mk(v.bits[8 * i : 8 * i + 8]) for i in range(DIGEST[alg])]


def spec_hmac(d, alg, key, msg):
    B = BLOCK[alg]
    k = list(key)
    if len(k) > B:
        k = hash_uf(d, alg, k)
    k += [0] * (B - len(k))
    x = lambda b, c: b ^ c if type(b) is int else d.binop("xor", 8, b, c)
    return hash_uf(d, alg, [x(b, 0x5C) for b in k] + hash_uf(d, alg, [x(b, 0x36) for b in k] + list(msg)))


def hm(R, alg):
    d = anf.Domain()
    ex = R.exe(d)
    ex.overrides.update(hash_contract(R, ex, alg))
    return d, ex


def key_lengths(alg, step=1):
    B = BLOCK[alg]
    return sorted(set(range(0, B + 4, step)) | {B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 5, DIGEST[alg] - 1, DIGEST[alg], DIGEST[alg] + 1})


def ob_hmac(alg):
    B, D = BLOCK[alg], DIGEST[alg]

    def run(R):
        for kl in key_lengths(alg):
            for pieces in ([0], [5], [B, 1, 0, 3]) if kl % 16 == 0 or kl > B - 2 else ([5],):
                d, ex = hm(R, alg)
                key, msg = fresh_bytes(d, "k", kl), fresh_bytes(d, "m", sum(pieces))
                pk, pm = ptr_bytes(ex, key, "key"), ptr_bytes(ex, msg, "msg")
                want = spec_hmac(d, alg, key, msg)
                # the object
                h = ex.alloc(2 * hash_obj_size(ex, alg), "hmac")
                out = ex.alloc(D, "tag")
                ex.call(f"@h_{alg}_hmac_new", [h, pk, kl])
                o = 0
                for k in pieces:
                    ex.call(f"@h_{alg}_hmac_update", [h, pm + o, k])
                    o += k
                ex.call(f"@h_{alg}_hmac_tag_copy", [h, out, D])
                R.same_cells(d, ex.get(out, D), want, f"HMAC tag, key length {kl}")
                # the wrapper
                out = ex.alloc(D, "tag")
                ex.call_dem(f"crypto_pure::hmac::hmac_{alg}", out, pk, kl, pm, len(msg))
                R.same_cells(d, ex.get(out, D), want, f"hmac_{alg}, key length {kl}")
                R.done(ex)
    return Obligation(f"hmac::{alg}: tag = RFC 2104", run, bounded="key lengths 0..block+3 and around 2 blocks; messages up to 4 updates; all contents", cost=3)


def ob_hmac_verify(alg):
    B, D = BLOCK[alg], DIGEST[alg]

    def run(R):
        for kl in (0, 3, B, B + 1):
            for tl in list(range(0, D + 3)) + [2 * D, 64, 128, 256 + D]:
                def body(ex):
                    d = ex.d
                    key, msg, tag = fresh_bytes(d, "k", kl), fresh_bytes(d, "m", 4), fresh_bytes(d, "t", tl)
                    r = ex.call(f"@h_{alg}_hmac_verify", [ptr_bytes(ex, key, "key"), kl, ptr_bytes(ex, msg, "msg"), 4, ptr_bytes(ex, tag, "tag"), tl])
                    want = d.equal_bytes(spec_hmac(d, alg, key, msg), tag) if tl == D else 0
                    return r, want
                paths(R, lambda: hm(R, alg)[1], body, f"verify, key {kl}, tag {tl}")
    return Obligation(f"hmac::verify::<{alg}> = (tag = HMAC(key, message))", run, bounded="tag lengths 0..digest+2 and selected; 4 key lengths; all contents", cost=3)


def paths(R, mk, body, msg):
    """Every path of body returns (actual bit, wanted bit); they agree under the path condition."""
    n = 0
    for path, res, ex in explore(mk, body):
        n += 1
        if res[0] != "ok":
            raise Failed(f"{msg}: panics ({res[1]})")
        r, want = res[1]
        d = ex.d
        for c, v in path:  # specialise the wanted bit under the path condition
            pass
        if type(want) is not int:
            k = d.cond_known(want)
            want = want if k is None else k
        if type(r) is not int:
            k = d.cond_known(r)
            r = r if k is None else k
        R.same(d, r, want, 1, msg)
        R.done(ex)
    R.paths += n


def ob_hkdf(alg):
    B, D = BLOCK[alg], DIGEST[alg]

    def run(R):
        for sl in (0, 1, D, B, B + 1):
            for il in (0, 5):
                d, ex = hm(R, alg)
                s, i = fresh_bytes(d, "s", sl), fresh_bytes(d, "i", il)
                out = ex.alloc(D, "prk")
                ex.call(f"@h_{alg}_hkdf_extract", [ptr_bytes(ex, s, "salt"), sl, ptr_bytes(ex, i, "ikm"), il, out, D])
                R.same_cells(d, ex.get(out, D), spec_hmac(d, alg, s, i), "extract")
                R.done(ex)
        for n in list(range(0, 2 * D + 3)) + [3 * B]:
            if n != D:
                d, ex = hm(R, alg)
                out = ex.alloc(n, "prk")
                ex.objs[out >> 44].ro = True
                p = ptr_bytes(ex, [1], "x")
                R.panics(ex, lambda: ex.call(f"@h_{alg}_hkdf_extract", [p, 1, p, 1, out, n]), f"extract into {n} bytes")
        for pl, il, n in [(D, 3, n) for n in range(0, 3 * D + 2, 1)] + [(pl, il, 2 * D + 1) for pl in (D, D + 1, B, B + 1) for il in (0, 1, B)] + \
                [(D, 1, n) for n in (128 * D, 253 * D, 253 * D + 1, 254 * D - 1, 254 * D, 254 * D + 1, 255 * D - 1, 255 * D)]:
            d, ex = hm(R, alg)
            k, info = fresh_bytes(d, "p", pl), fresh_bytes(d, "i", il)
            out = ex.alloc(n, "okm")
            ex.call(f"@h_{alg}_hkdf_expand", [ptr_bytes(ex, k, "prk"), pl, ptr_bytes(ex, info, "info"), il, out, n])
            t, okm = [], []
            for i in range(1, -(-n // D) + 1):
                t = spec_hmac(d, alg, k, t + info + [i])
                okm += t
            R.same_cells(d, ex.get(out, n), okm[:n], f"expand to {n} bytes (prk {pl}, info {il})")
            R.done(ex)
        for pl, n in [(D, 255 * D + k) for k in (1, 2, D - 1, D, D + 1, 2 * D)] + [(pl, 5) for pl in range(0, D)] + [(0, 0), (D - 1, 0)]:
            d, ex = hm(R, alg)
            out = ex.alloc(n, "okm")
            ex.objs[out >> 44].ro = True
            k = ptr_bytes(ex, fresh_bytes(d, "p", pl), "prk")
            R.panics(ex, lambda: ex.call(f"@h_{alg}_hkdf_expand", [k, pl, k, 0, out, n]), f"expand, prk {pl}, okm {n}")
    return Obligation(f"hkdf::<{alg}>: extract, expand = RFC 5869; bad lengths refused before output", run, bounded="okm lengths 0..3 digests and 253..255 digests; several prk/info/salt lengths; all contents", cost=5)


# ---------------------------------------------------------------- ChaCha20
def ob_chacha_block(R_=None):
    def run(R):
        ex = R.exe()
        d = ex.d
        key, nonce = fresh_bytes(d, "k", 32), fresh_bytes(d, "n", 12)
        ctr = d.fresh("ctr", 32)
        size = ex.m.by_dem[CHACHA_NEW].sret
        c = ex.alloc(size, "cipher")
        ex.call_dem(CHACHA_NEW, c, ptr_bytes(ex, key, "key"), 32, ptr_bytes(ex, nonce, "nonce"), 12)
        out = ex.alloc(64, "block")
        ex.objs[c >> 44].ro = True
        ex.call_dem(CHACHA_BLOCK, out, c, ctr)
        want = specs.chacha_block(d, [specs.join(d, key[4 * i : 4 * i + 4]) for i in range(8)], ctr, [specs.join(d, nonce[4 * i : 4 * i + 4]) for i in range(3)])
        cells = sum((specs.split(d, x.v, 4) for x in want), [])
        R.same_cells(d, ex.get(out, 64), cells, "ChaCha20 block")
        for kl, nl in [(k, 12) for k in range(0, 70) if k != 32] + [(32, n) for n in range(0, 40) if n != 12]:
            ex = R.exe()
            c = ex.alloc(size)
            k, n = ex.alloc(kl), ex.alloc(nl)
            R.panics(ex, lambda: ex.call_dem(CHACHA_NEW, c, k, kl, n, nl), f"key {kl}, nonce {nl}")
        R.done(ex)
    return Obligation("chacha20::ChaCha20::{new, block} ensures RFC 8439 block(key, counter, nonce)", run, cost=2)


def chacha_contract(R, ex):
    size = ex.m.by_dem[CHACHA_NEW].sret

    def new(ex, out, k, kl, n, nl):
        if kl != 32 or nl != 12:
            raise Panic("ChaCha20::new length")
        put_token(ex, out, size, "chacha", (tuple(ex.get(k, 32)), tuple(ex.get(n, 12))))

    def block(ex, out, c, ctr):
        key, nonce = get_token(ex, c, size, "chacha")
        ex.put(out, block_uf(ex.d, key, ctr, nonce))
    if not (R.has(CHACHA_NEW) and R.has(CHACHA_BLOCK)):
        raise ExecError("anchor lost: ChaCha20::{new, block}")
    return {CHACHA_NEW: new, CHACHA_BLOCK: block}


def block_uf(d, key, ctr, nonce):
    v = d.uf("chacha", [(8, b) for b in key] + [(32, ctr)] + [(8, b) for b in nonce], 512)
    return [d.mk(v.bits[8 * i : 8 * i + 8]) for i in range(64)]


def ch(R):
    d = anf.Domain()
    ex = R.exe(d)
    ex.overrides.update(chacha_contract(R, ex))
    return d, ex


def xorc(d, a, b):
    return [x ^ y if type(x) is int and type(y) is int else d.binop("xor", 8, x, y) for x, y in zip(a, b)]


def stream_size(ex):
    return ex.m.by_dem["<crypto_pure::chacha20::Stream>::new"].sret


def stream_history(R, ops):
    """ops: ('n',) | ('e'|'d', len) | ('x', inlen, outlen) mismatched, which must panic without effect."""
    d, ex = ch(R)
    key, nonce = fresh_bytes(d, "k", 32), fresh_bytes(d, "n", 12)
    s = ex.alloc(stream_size(ex), "stream")
    ex.call("@h_stream_new", [s, ptr_bytes(ex, key, "key"), 32, ptr_bytes(ex, nonce, "nonce"), 12])
    pos = 0
    ks = lambda a, n: [block_uf(d, key, (a + i) // 64, nonce)[(a + i) % 64] for i in range(n)]
    for op in ops:
        if op[0] == "n":
            r = ex.call("@h_stream_next", [s])
            R.require(r[0] == 1, "next returns Some")
            R.same(d, r[1], ks(pos, 1)[0], 8, f"next at {pos}")
            pos += 1
        elif op[0] in "ed":
            n = op[1]
            m = fresh_bytes(d, f"m{pos}_", n)
            out = ex.alloc(n, "out")
            ex.call("@h_stream_encrypt" if op[0] == "e" else "@h_stream_decrypt", [s, ptr_bytes(ex, m, "in"), n, out, n])
            R.same_cells(d, ex.get(out, n), xorc(d, m, ks(pos, n)), f"{op} at {pos} after {ops}")
            pos += n
        else:
            _, a, b, f = op
            pin, out = ex.alloc(a, "in"), ex.alloc(b, "out")
            ex.objs[out >> 44].ro = True
            R.panics(ex, lambda: ex.call("@h_stream_encrypt" if f == "e" else "@h_stream_decrypt", [s, pin, a, out, b]), f"mismatch {a}/{b}")
    R.done(ex)


def ob_stream(offs):
    def run(R):
        for o in offs:
            s = 64 - o
            for n in sorted({0, 1, 2, max(0, s - 1), s, s + 1, s + 63, s + 64, s + 65, 130}):
                stream_history(R, [("e", o), ("d" if n % 2 else "e", n), ("n",), ("e", 2)])
            stream_history(R, [("d", o), ("x", 5, 4, "e"), ("x", 0, 1, "d"), ("x", 70, 64, "d"), ("x", 64, 70, "e"), ("n",), ("e", 65), ("n",)])
            stream_history(R, [("n",)] * o + [("e", 1), ("e", 0), ("n",), ("d", 64), ("n",), ("n",)])
    return Obligation(f"chacha20::Stream histories consume the RFC 8439 keystream, offsets {offs[0]}..{offs[-1]}", run, bounded="histories of up to 70 calls and 4 blocks at every block offset, all contents", cost=6)


# ---------------------------------------------------------------- AES
def ob_sbox():
    def run(R):
        ex = R.exe()
        d = ex.d
        x = d.fresh("x", 8)
        out = ex.call_dem(SBOX, x)
        # the specification's polynomial from its truth table (Moebius transform)
        import ref
        want = []
        xs = [next(iter(b)) for b in x.bits]
        for b in range(8):
            t = [ref.SBOX[v] >> b & 1 for v in range(256)]
            for i in range(8):
                for v in range(256):
                    if v >> i & 1:
                        t[v] ^= t[v ^ 1 << i]
            p = set()
            for v in range(256):
                if t[v]:
                    m = 0
                    for i in range(8):
                        if v >> i & 1:
                            m = d.mulmono(m, xs[i])
                    p.add(m)
            want.append(frozenset(p))
        R.same(d, out, anf.BV(8, tuple(want)), 8, "s_box is not the FIPS 197 S-box")
        R.done(ex)
    return Obligation("aes::s_box ensures FIPS 197 S-box for all 256 inputs", run, cost=1)


def sbox_contract():
    def h(ex, x):
        if type(x) is int:
            import ref
            return ref.SBOX[x]
        return ex.d.uf("sbox", [(8, x)], 8)
    return {SBOX: h}


def spec_aes(d, key, block):
    import ref
    sb = lambda x: ref.SBOX[x] if type(x) is int else d.uf("sbox", [(8, x)], 8)
    W = lambda v: Word(d, 8, v)

    def xt(x):
        x = x if isinstance(x, Word) else W(x)
        if type(x.v) is int:
            return W(ref.xtime(x.v))
        b = x.v.bits
        t = b[7]
        z = anf.ZERO
        return W(d.mk((z, b[0], b[1], b[2], b[3], b[4], b[5], b[6]))) ^ W(d.mk((t, t, z, t, t, z, z, z)))
    nk = len(key) // 4
    nr = nk + 6
    w = [[W(x) for x in key[4 * i : 4 * i + 4]] for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [W(sb(x.v)) for x in t[1:] + t[:1]]
            t[0] = t[0] ^ rcon
            rcon = ref.xtime(rcon)
        elif nk > 6 and i % nk == 4:
            t = [W(sb(x.v)) for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    rk = [sum(w[4 * r : 4 * r + 4], []) for r in range(nr + 1)]
    s = [W(a) ^ b for a, b in zip(block, rk[0])]
    for r in range(1, nr + 1):
        s = [W(sb(x.v)) for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < nr:
            o = []
            for c in range(0, 16, 4):
                a = s[c : c + 4]
                for i in range(4):
                    o.append(xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4])
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return [x.v for x in s]


def aes_size(ex, a):
    return ex.m.by_dem[f"<crypto_pure::aes::{a.capitalize()} as crypto_pure::aes::BlockCipher>::new"].sret


def ob_aes(a):
    kl = AES[a]

    def run(R):
        if not R.has(SBOX):
            raise ExecError("anchor lost: s_box")
        ex = R.exe(None, [sbox_contract()])
        d = ex.d
        key, blk = fresh_bytes(d, "k", kl), fresh_bytes(d, "b", 16)
        c = ex.alloc(aes_size(ex, a), "cipher")
        ex.call(f"@h_{a}_new", [c, ptr_bytes(ex, key, "key"), kl])
        ex.objs[c >> 44].ro = True
        out = ex.alloc(16, "out")
        ex.call(f"@h_{a}_permute", [c, ptr_bytes(ex, blk, "block"), out])
        R.same_cells(d, ex.get(out, 16), spec_aes(d, key, blk), f"{a} block")
        R.done(ex)
        for n in range(0, 70):
            if n != kl:
                ex = R.exe(None, [sbox_contract()])
                c, k = ex.alloc(aes_size(ex, a)), ex.alloc(n)
                R.panics(ex, lambda: ex.call(f"@h_{a}_new", [c, k, n]), f"key length {n}")
    return Obligation(f"aes::{a}: permute(new(key), block) = FIPS 197", run, cost=3)


def aes_contract(R, ex, a):
    size = aes_size(ex, a)
    c = f"<crypto_pure::aes::{a.capitalize()} as crypto_pure::aes::BlockCipher>::"
    kl = AES[a]

    def new(ex, out, k, n):
        if n != kl:
            raise Panic("key length")
        put_token(ex, out, size, a, tuple(ex.get(k, kl)))

    def permute(ex, out, s, blk):
        ex.put(out, aes_uf(ex.d, a, get_token(ex, s, size, a), ex.get(blk, 16)))
    return {c + "new": new, c + "permute": permute}


def aes_uf(d, a, key, blk):
    v = d.uf(a, [(8, b) for b in key] + [(8, b) for b in blk], 128)
    return [d.mk(v.bits[8 * i : 8 * i + 8]) for i in range(16)]


# ---------------------------------------------------------------- GHASH
def gf_bits(d, cells):
    """16 byte values -> 128 coefficient polynomials, x^0 first (SP 800-38D bit order)."""
    out = []
    for c in cells:
        out += list(reversed(d.bits(c, 8)))
    return out


def gf_mul_spec(d, x, y):
    """x, y: coefficient lists; the product modulo x^128 + x^7 + x^2 + x + 1."""
    n = 128
    acc = [set() for _ in range(2 * n - 1)]
    for i in range(n):
        if not x[i]:
            continue
        for j in range(n):
            if y[j]:
                acc[i + j] ^= d.band(x[i], y[j])
    for k in range(2 * n - 2, n - 1, -1):
        for t in (0, 1, 2, 7):
            acc[k - n + t] ^= acc[k]
    return [frozenset(a) for a in acc[:n]]


def gf_bytes(d, co):
    return [d.mk(tuple(reversed(co[8 * i : 8 * i + 8]))) for i in range(16)]


def ob_gf_process():
    def run(R):
        ex = R.exe()
        d = ex.d
        size = ex.m.by_dem[GF + "new"].sret
        key = fresh_bytes(d, "h", 16)
        p = ex.alloc(size, "poly")
        ex.call_dem(GF + "new", p, ptr_bytes(ex, key, "key"))

        def value():
            q = ex.alloc(size)
            ex.memcpy(q, p, size)
            o = ex.alloc(16)
            nparam = len(ex.m.by_dem[GF + "write_value"].params)
            if nparam == 3:  # self passed as two scalars
                ex.call_dem(GF + "write_value", ex.ld(q, 16), ex.ld(q + 16, 16), o)
            else:
                ex.call_dem(GF + "write_value", q, o)
            return ex.get(o, 16)
        R.same_cells(d, value(), [0] * 16, "value of a new PolyFunction")
        # arbitrary state: havoc the bytes that processing a block changes
        before = [ex.ld(p + i, 1) for i in range(size)]
        ex.call_dem(GF + "process", p, ptr_bytes(ex, fresh_bytes(d, "w", 16), "w"), 16)
        changed = [i for i in range(size) if not d.same(ex.ld(p + i, 1), before[i], 8)]
        R.require(len(changed) == 16, "process changes exactly the 16-byte state")
        for i in changed:
            ex.st(p + i, 1, d.fresh(f"s{i}", 8))
        s = value()
        blk = fresh_bytes(d, "x", 16)
        ex.call_dem(GF + "process", p, ptr_bytes(ex, blk, "block"), 16)
        x = [a ^ b for a, b in zip(gf_bits(d, s), gf_bits(d, blk))]
        R.same_cells(d, value(), gf_bytes(d, gf_mul_spec(d, x, gf_bits(d, key))), "GHASH step")
        R.done(ex)
    return Obligation("ghash::PolyFunction::{new, process, write_value} ensures state' = (state ^ block) * H in GF(2^128)", run, cost=6)


def gf_uf(d, key, st, blk):
    v = d.uf("gfmul", [(8, b) for b in key] + [(8, b) for b in xorc(d, st, blk)], 128)
    return [d.mk(v.bits[8 * i : 8 * i + 8]) for i in range(16)]


def gf_contract(R, ex):
    size = ex.m.by_dem[GF + "new"].sret

    def new(ex, out, k):
        put_token(ex, out, size, "gf", (tuple(ex.get(k, 16)), (0,) * 16))

    def process(ex, p, pi, n):
        if n < 16:
            raise Panic("short block")
        key, st = get_token(ex, p, size, "gf")
        put_token(ex, p, size, "gf", (key, tuple(gf_uf(ex.d, key, st, ex.get(pi, 16)))))
    return {GF + "new": new, GF + "process": process}


def pad16(c):
    return list(c) + [0] * (-len(c) % 16)


def ghash_spec(d, key, data, ct):
    m = pad16(data) + pad16(ct) + list((8 * len(data)).to_bytes(8, "big")) + list((8 * len(ct)).to_bytes(8, "big"))
    st = [0] * 16
    for i in range(0, len(m), 16):
        st = gf_uf(d, key, st, m[i : i + 16])
    return st


LENS = list(range(0, 50)) + [63, 64, 65, 80, 127, 128, 129, 255, 256, 257]


def ob_ghash():
    def run(R):
        GH = "<crypto_pure::ghash::PolyFunction>::write_value"
        for dl, cl in [(a, b) for a in range(0, 34) for b in (0, 1, 15, 16, 17, 31, 32, 33)] + [(a, b) for a in (0, 1, 16, 17) for b in LENS] + [(b, 3) for b in LENS]:
            d = anf.Domain()
            ex = R.exe(d)
            ex.overrides.update(gf_contract(R, ex))
            ex.overrides[GH] = gf_write
            key, data, ct = fresh_bytes(d, "h", 16), fresh_bytes(d, "a", dl), fresh_bytes(d, "c", cl)
            out = ex.alloc(16)
            ex.call_dem("crypto_pure::ghash::ghash", out, ptr_bytes(ex, key, "key"), ptr_bytes(ex, data, "data"), dl, ptr_bytes(ex, ct, "ct"), cl)
            R.same_cells(d, ex.get(out, 16), ghash_spec(d, key, data, ct), f"GHASH of {dl}+{cl} bytes")
            R.done(ex)
    return Obligation("ghash::ghash ensures SP 800-38D GHASH(pad(A) || pad(C) || len)", run, bounded="data and ciphertext lengths 0..257, all contents", cost=4)


def gf_write(ex, *args):
    """write_value: the object's state; self may arrive by pointer or as two halves of the token."""
    out = args[-1]
    if len(args) == 2:
        size = 32
        key, st = get_token(ex, args[0], size, "gf")
    else:
        t = args[0]
        if isinstance(t, Token):
            st = t.data[1]
        elif isinstance(t, Part) and t.tok.kind == "gf":
            st = t.tok.data[1]
        else:
            raise ExecError("write_value on a concrete object")
    ex.put(out, st)


class Part:
    """Some bytes of an abstract value, moved but never looked into."""

    __slots__ = ("w", "tok", "off")

    def __init__(self, tok, off, n):
        self.tok, self.off, self.w = tok, off, 8 * n


def concat_parts(d, cells):
    """Domain.concat extended to runs of abstract values."""
    cells = [(c[0].tok, c[0].off + c[1]) if type(c) is tuple and isinstance(c[0], Part) else c for c in cells]
    if all(type(c) is tuple and isinstance(c[0], Token) for c in cells):
        t, o = cells[0]
        if o == 0 and 8 * len(cells) == t.w and all(c[0] is t and c[1] == i for i, c in enumerate(cells)):
            return t
        if all(c[0] is t and c[1] == o + i for i, c in enumerate(cells)):
            return Part(t, o, len(cells))
    raise ExecError("reading part of an abstract value")


_base_concat = anf.Domain.concat


def _concat(self, cells):
    c0 = cells[0]
    if type(c0) is tuple and isinstance(c0[0], (Token, Part)):
        return concat_parts(self, cells)
    return _base_concat(self, cells)


anf.Domain.concat = _concat
