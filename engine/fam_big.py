"""Contracts over inputs of every length (big.py): stream, AEAD and hash drivers and their loops."""
import time

import anf
import specs
import cut
from big import Big, BigDomain, Induct, Seg, isconst
from fam_aead import *
from fam_sym import *
from intdom import IV, key, padd, pscale
from ir import SHIFT, UNDEF, ExecError, Panic, Postpone, Unproved
from prove import Failed, Obligation, Token, get_token, put_token

MAXLEN = (1 << 61) - 1


def bexe(R):
    d = BigDomain()
    ex = R.exe(d)
    d.ex = ex
    return d, ex


def iv(d, p, w=64):
    return d.mkiv(w, p, *d.range(p))


def length(d, name, lo=0, hi=MAXLEN):
    return d.iatom("len " + name, 64, lo, hi)


class Verdict:
    """Separates a wrong value from a loop that is organised in another way than the contract's argument."""

    def __init__(self, R):
        self.R, self.good, self.struct = R, 0, []

    def check(self, ok, msg):
        self.R.checks += 1
        if not ok:
            raise Failed(msg)

    def same(self, d, a, b, w, msg):
        self.R.same(d, a, b, w, msg)

    def shape(self, ok, msg):
        if not ok:
            self.struct.append(msg)
        else:
            self.good += 1
        return ok

    def done(self):
        if self.struct:
            if self.good:
                raise Failed(self.struct[0])
            raise ExecError("loop structure: " + self.struct[0])
        self.R.require(self.good, "the loop is reached")


def only_bytes(big, d, start, count):
    """The bytes written in this iteration, if they are exactly start .. start+count-1."""
    out = []
    for j in range(count):
        c = big.cells.get(key(padd(start, {(): j} if j else {})))
        if c is None:
            return None
        out.append(c[1])
    return out if len(big.cells) == count else None


def byte_value(d, c):
    if type(c) is int or c is UNDEF:
        return c
    v, i = c
    return v if i == 0 and v.w == 8 else d.byte_of(v, i) if not isinstance(v, Token) else UNDEF


def xor_loop(R, d, ex, dem, args, src, dst, n, unit, ks, maxn, frame=None, last=None, gen=None, havoc=None):
    """dst[unit*i + j] = src[unit*i + j] ^ ks(i)[j] for every index below n, and nothing else is written."""
    V = Verdict(R)

    def step(ex, p):
        if p.kind == "panic":
            V.check(False, "reachable panic: " + p.blk)
        if frame:
            frame(ex, p)
        i = {} if p.i is None else p.i
        if p.i is None and p.kind == "head":
            if not V.shape(not dst.cells, "output written before the loop"):
                return
            return
        start = pscale(i, unit)
        cnt = unit if p.kind == "head" else len(dst.cells)
        cells = only_bytes(dst, d, start, cnt)
        if cells is None or cnt > unit:
            V.shape(False, "an iteration does not write its block")
            return
        if p.kind == "ret" and not d.entails(padd(padd(n.p, start, -1), {(): -cnt}), 0, 0):
            V.shape(False, "the function returns before the last byte")
            return
        if p.kind == "head":
            V.shape(True, "")
        if cnt:
            k = ks(i)
            for j in range(cnt):
                a = src.value_at(padd(start, {(): j} if j else {}))
                V.same(d, byte_value(d, cells[j]), d.binop("xor", 8, a, k[j]), 8, f"byte {j} of a block is not input xor key stream")

    def gen0(ex, i):
        dst.valid = pscale(i, unit)
        if gen:
            gen(ex, i)
    ind = Induct(ex, dem, args, step, havoc=havoc, inv=lambda i: [(padd(n.p, i, -unit), 0, None)] + ([(i, 0, last)] if last is not None else []), gen=gen0, imax=maxn // unit)
    ind.run()
    V.done()
    R.require(ind.inductions, "there is a loop")
    R.paths += ind.paths
    R.done(ex)


# ---------------------------------------------------------------- GCM and ChaCha20-Poly1305 block loops
def gcm_process(a):
    return f"<crypto_pure::gcm::Processor<crypto_pure::aes::{a.capitalize()}>>::process"


GCM_MAX = (1 << 36) - 33
CCP_PROCESS = "<crypto_pure::poly1305::ChaCha20Poly1305>::process"
CCP_MAX = (1 << 38) - 64


def need(R, *names):
    for n in names:
        if not R.has(n):
            raise ExecError("anchor lost: " + n)


def ob_gcm_process(a):
    dem = gcm_process(a)

    def run(R):
        need(R, dem)
        d, ex = bexe(R)
        ex.overrides.update(aes_contract(R, ex, a))
        size = aes_size(ex, a)
        k, nonce = fresh_bytes(d, "k", AES[a]), fresh_bytes(d, "n", 12)
        self = ex.alloc(size, "processor")
        put_token(ex, self, size, a, tuple(k))
        ex.objs[self >> SHIFT].ro = True
        ctr = ex.alloc(16, "counter")
        ex.put(ctr, nonce + fresh_bytes(d, "c", 4))
        n = length(d, "input", 0, GCM_MAX)
        src, dst = Big(ex, "input", n), Big(ex, "output", n, ro=False)

        def ks(i):
            c = iv(d, padd(i, {(): 2}), 32)
            return aes_uf(d, a, k, nonce + [d.byte_of(d.bswap(32, c) if type(c) is not int else int.from_bytes(c.to_bytes(4, "big"), "little"), j) for j in range(4)])

        def frame(ex, p):
            for j in range(12):
                R.same(d, ex.ld(ctr + j, 1), nonce[j], 8, "the nonce in the counter block is kept")
        xor_loop(R, d, ex, dem, [self, ctr, src.base, n, dst.base, n], src, dst, n, 16, ks, GCM_MAX, frame)
    return Obligation(f"gcm::Processor<{a}>::process ensures out[16i+j] = in[16i+j] ^ E(nonce || be32(i+2))[j], all lengths below 2^36-32", run, backend="induction over blocks; z3 (linear integers), ANF", cost=2)


def ob_ccp_process():
    dem = CCP_PROCESS

    def run(R):
        need(R, dem)
        d, ex = bexe(R)
        ex.overrides.update(chacha_contract(R, ex))
        size = ex.m.by_dem[CHACHA_NEW].sret
        k, nonce = fresh_bytes(d, "k", 32), fresh_bytes(d, "n", 12)
        c = ex.alloc(size, "cipher")
        put_token(ex, c, size, "chacha", (tuple(k), tuple(nonce)))
        ex.objs[c >> SHIFT].ro = True
        self = ptr_bytes(ex, k, "self")
        n = length(d, "input", 0, CCP_MAX)
        src, dst = Big(ex, "input", n), Big(ex, "output", n, ro=False)
        xor_loop(R, d, ex, dem, [self, c, src.base, n, dst.base, n], src, dst, n, 64, lambda i: block_uf(d, k, iv(d, padd(i, {(): 1}), 32), nonce), CCP_MAX, last=(1 << 32) - 2)
    return Obligation("poly1305::ChaCha20Poly1305::process ensures out[64i+j] = in[64i+j] ^ block(i+1)[j], all lengths up to 2^38-64", run, backend="induction over blocks; z3 (linear integers), ANF", cost=2)


# ---------------------------------------------------------------- SHA-2 histories of any length
PUPD = {w: f"<crypto_pure::sha2::Processor{8 * w}>::update" for w in (32, 64)}
CORE = {32: "sha256", 64: "sha512"}


class ShaRep:
    """The representation of "q blocks absorbed, o bytes buffered" found by running the code.

    cells[k]: ('state', i) byte i of the chaining value, ('tail', j) byte j of the buffered bytes,
    ('lin', base, delta, n, i): byte i of the n-byte word base + delta q, an int: that byte, None: arbitrary.
    """

    def __init__(self, R, w, o):
        self.w, self.o, B = w, o, 2 * w
        alg = CORE[w]
        snaps = []
        for pieces in ([B + o], [2 * B + o], [B - 1, 1 + o]):
            d, ex, h, _ = sha_begin(R, w)
            m = fresh_bytes(d, "m", sum(pieces))
            pm = ptr_bytes(ex, m, "input")
            p = 0
            for k in pieces:
                ex.call_dem(PUPD[w], h, pm + p, k)
                p += k
            st = specs.IV[alg]
            for i in range(0, len(m) - o, B):
                st = compress_uf(d, w, st, m[i : i + B])
            snaps.append((d, ex, h, st, m[len(m) - o :]))
            self.size = hash_obj_size(ex, alg)
        kinds = []
        for d, ex, h, st, tail in snaps:
            obj, off = ex.obj(h, self.size)
            row, q = [], 0
            stb = [d.byte_of(v, i) for v in st for i in range(w // 8)]
            sk = {d.bits(b, 8): i for i, b in enumerate(stb)}
            tk = {d.bits(b, 8): j for j, b in enumerate(tail)}
            for q in range(self.size):
                c = ex.cell(h + q)
                if type(c) is int:
                    row.append(c)
                    continue
                if c is UNDEF:
                    row.append(None)
                    continue
                b = d.bits(byte_value(d, c), 8)
                row.append(("state", sk[b]) if b in sk else ("tail", tk[b]) if b in tk else None)
            kinds.append(row)
        a, b, c = kinds
        self.cells = [None] * self.size
        q = 0
        while q < self.size:
            if q % 8 == 0 and all(type(r[q + k]) is int for r in kinds for k in range(min(8, self.size - q))):
                va, vb, vc = (int.from_bytes(bytes(r[q : q + 8]), "little") for r in kinds)
                if va == vc and va != vb:
                    n = len(a[q : q + 8])
                    for k in range(n):
                        self.cells[q + k] = ("lin", 2 * va - vb, vb - va, n, k)
                    q += n
                    continue
            x = {a[q], b[q], c[q]}
            self.cells[q] = a[q] if len(x) == 1 else None
            q += 1
        if not {("state", i) for i in range(w)} <= set(self.cells):
            raise ExecError("the chaining value is not in the object")

    def state_at(self):
        return {c[1]: q for q, c in enumerate(self.cells) if type(c) is tuple and c[0] == "state"}

    def put(self, ex, h, q, st, tail):
        """The object for q (polynomial) blocks."""
        d, w = ex.d, self.w
        ex.st(h, self.size, UNDEF)
        words = {}
        for p, c in enumerate(self.cells):
            if c is None:
                ex.st(h + p, 1, UNDEF)
            elif type(c) is int:
                ex.st(h + p, 1, c)
            elif c[0] == "tail":
                ex.put(h + p, [tail[c[1]]])
            elif c[0] == "lin" and c[4] == 0:
                ex.st(h + p, c[3], iv(d, padd(pscale(q, c[2]), {(): c[1]} if c[1] else {}), 8 * c[3]))
        for i, p in self.state_at().items():
            if i % (w // 8) == 0:
                ex.st(h + p, w // 8, st[i // (w // 8)])

    def check(self, V, ex, h, q, st, tail, what):
        d, w = ex.d, self.w
        for p, c in enumerate(self.cells):
            if c is None:
                continue
            v = ex.cell(h + p)
            if type(c) is int:
                want = c
            elif c[0] == "tail":
                want = byte_value(d, tail[c[1]] if type(tail[c[1]]) is tuple else (tail[c[1]], 0) if type(tail[c[1]]) is not int else tail[c[1]])
            elif c[0] == "state":
                x = st[c[1] // (w // 8)]
                want = d.byte_of(x, c[1] % (w // 8))
            else:
                if c[4] == 0:
                    x = ex.ld(h + p, c[3])
                    V.same(d, x, iv(d, padd(pscale(q, c[2]), {(): c[1]} if c[1] else {}), 8 * c[3]), 8 * c[3], f"{what}: the word at offset {p} of the hash object")
                continue
            if v is UNDEF:
                raise ExecError("undefined byte in the hash object")
            if type(c) is int:
                if type(v) is tuple and hasattr(v[0], "p"):
                    f = d.settle(v[0].p)
                    if isconst(f):
                        v = f.get((), 0) >> 8 * v[1] & 255
                if not V.shape(d.same(byte_value(d, v), want, 8), f"{what}: byte {p} of the hash object is not {c}") and not what.startswith("update"):
                    raise ExecError("representation: " + V.struct[0])
            else:
                V.same(d, byte_value(d, v), want, 8, f"{what}: byte {p} of the hash object ({c[0]})")


def sha_begin(R, w, dom=None):
    d = dom if dom is not None else BigDomain()
    ex = R.exe(d)
    if dom is None:
        d.ex = ex
    for n in (PROC[w], PUPD[w]):
        if not R.has(n):
            raise ExecError("anchor lost: " + n)
    ex.overrides.update(compress_contract(w))
    h = ex.alloc(hash_obj_size(ex, CORE[w]), "hash")
    ex.call(f"@h_{CORE[w]}_default", [h])
    return d, ex, h, None


def ob_sha_update(w, offs):
    """update keeps the representation: absorbs exactly tail || input, for every length of input."""
    B = 2 * w

    def run(R):
        reps = {}
        rep = lambda o: reps[o] if o in reps else reps.setdefault(o, ShaRep(R, w, o))
        # a new object represents the empty message
        d, ex, h, _ = sha_begin(R, w)
        V = Verdict(R)
        rep(0).check(V, ex, h, {}, specs.IV[CORE[w]], [], "default()")
        for o in offs:
            d, ex, h, _ = sha_begin(R, w)
            q = d.atom(0, (1 << 61) // B, None, "q")
            q = {(q,): 1}
            st = [d.fresh(f"s{i}", w) for i in range(8)]
            F = [d.fresh(f"f{i}", w) for i in range(8)]
            tail = fresh_bytes(d, "t", o)
            rep(o).put(ex, h, q, st, tail)
            n = length(d, "input", 0, (1 << 61) - 1)
            d.add_fact(padd(padd(n.p, pscale(q, B)), {(): o} if o else {}), 0, (1 << 61) - 1)
            src = Big(ex, "input", n)
            at = rep(o).state_at()
            V = Verdict(R)
            first = B - o if o else 0
            inp = lambda off, k: [src.value_at(padd(off, {(): j} if j else {})) for j in range(k)]
            begun = compress_uf(d, w, st, tail + inp({}, first)) if o else st

            def getst(ex):
                return [ex.ld(h + at[i * w // 8], w // 8) for i in range(8)]

            def step(ex, p, o=o):
                if p.kind == "panic":
                    V.check(False, "reachable panic: " + p.blk)
                if p.kind == "head":
                    want = begun if p.i is None else compress_uf(d, w, F, inp(padd(pscale(p.i, B), {(): first} if first else {}), B))
                    V.shape(all(d.same(x, y, w) for x, y in zip(getst(ex), want)), "an iteration does not absorb one block" if p.i is not None else "the first block is not tail and input")
                    return
                # returned: what is left of the input?
                if p.i is None and o:
                    done, m, blocks, s = {}, tail, {}, st
                    rest = n.p
                    lo, hi = d.bounds(rest)
                    if not (lo == hi and lo + o < B):
                        V.shape(False, "returns early")
                        return
                elif p.i is None:
                    done, m, blocks, s = {}, [], {}, st
                    rest = n.p
                else:
                    done = padd(pscale(p.i, B), {(): first} if first else {})
                    m, blocks, s = [], padd(p.i, {(): 1} if o else {}), F
                    rest = padd(n.p, done, -1)
                lo, hi = d.bounds(rest)
                if lo != hi:
                    for c in range(max(lo, 0), min(hi, B) + 1):
                        if d.entails(rest, c, c):
                            lo = hi = c
                            break
                if lo != hi or lo + len(m) >= B:
                    V.shape(False, "an unknown number of bytes is left")
                    return
                V.shape(True, "")
                rep(lo + len(m)).check(V, ex, h, padd(q, blocks), s, m + inp(done, lo), f"update at offset {o} leaving {lo}")

            def gen(ex, i):
                for i in range(8):
                    ex.st(h + at[i * w // 8], w // 8, F[i])
            ind = Induct(ex, PUPD[w], [h, src.base, n], step, gen=gen, imax=(1 << 61) // B,
                         inv=lambda i: [(padd(padd(n.p, i, -B), {(): -first} if first else {}), 0, None)],
                         havoc=lambda ex: [(h + min(at.values()), w)])
            ind.run()
            V.done()
            R.require(ind.inductions, "there is a loop")
            R.paths += ind.paths
            R.done(ex)
    return Obligation(f"sha2::Processor{8 * w}::update absorbs tail || input, buffer offsets {offs[0]}..{offs[-1]}, every input length", run, backend="induction over blocks; z3 (linear integers), ANF", cost=7)


def ob_sha_digest(alg, offs):
    """write_digest of the representation: FIPS 180-4 padding and truncation, for every message length."""
    w, D = WIDTH[alg], DIGEST[alg]
    B = 2 * w

    def run(R):
        for o in offs:
            d, ex, _, _ = sha_begin(R, w)
            rep = ShaRep(R, w, o)
            a = d.atom(0, ((1 << 61) - 1 - o) // B, None, "q")
            q = {(a,): 1}
            st, tail = [d.fresh(f"s{i}", w) for i in range(8)], fresh_bytes(d, "t", o)
            h = ex.alloc(hash_obj_size(ex, alg), "hash")
            R.require(hash_obj_size(ex, alg) == rep.size, "one representation per processor")
            rep.put(ex, h, q, st, tail)
            out = ex.alloc(D, "digest")
            ex.call(f"@h_{alg}_write_digest", [h, out, D])
            m = tail + [0x80]
            m += [0] * ((-(len(m) + 8)) % B if w == 32 else (-(len(m) + 16)) % B + 8)
            bits = iv(d, padd(pscale(q, 8 * B), {(): 8 * o} if o else {}))
            m += [d.byte_of(bits, 7 - j) for j in range(8)]
            s = st
            for i in range(0, len(m), B):
                s = compress_uf(d, w, s, m[i : i + B])
            want = [d.byte_of(v, w // 8 - 1 - j) for v in s for j in range(w // 8)]
            R.same_cells(d, ex.get(out, D), want[:D], f"{alg} digest with {o} bytes buffered")
            R.done(ex)
    return Obligation(f"{alg}: write_digest = FIPS 180-4 padding of the represented message, buffer offsets {offs[0]}..{offs[-1]}, every length below 2^61", run, backend="z3 (linear integers), ANF", cost=3)


def ob_sha_wrapper(alg):
    """The hash object and the one-call function use the processor as the contracts say."""
    w, D = WIDTH[alg], DIGEST[alg]

    def run(R):
        # the object's update is the processor's
        d, ex, h, _ = sha_begin(R, w)
        size = hash_obj_size(ex, alg)
        rep = ShaRep(R, w, 0)
        h = ex.alloc(size, "hash")
        ex.call(f"@h_{alg}_default", [h])
        rep.check(Verdict(R), ex, h, {}, specs.IV[alg], [], "default()")
        log = []

        def upd(ex, p, pi, n):
            log.append((p, pi, n))
        ex.overrides[PUPD[w]] = upd
        s, n = opaque_slice(ex, "input")
        before = ex.get(h, size)
        ex.call(f"@h_{alg}_update", [h, s, n])
        if len(log) != 1:
            raise ExecError("update does not call the processor once")
        R.require(log[0][0] == h and log[0][1] == s and d.same(log[0][2], n, 64), "update passes its input to the processor")
        for a, b in zip(before, ex.get(h, size)):
            if not (a is UNDEF and b is UNDEF):
                R.same(d, a, b, 8, "update changes the object")
        R.done(ex)
        # one call
        d = BigDomain()
        ex = R.exe(d)
        d.ex = ex
        ex.overrides.update(hash_contract(R, ex, alg))
        s, n = opaque_slice(ex, "message")
        out = ex.alloc(D, "digest")
        f = f"crypto_pure::sha2::{alg}"
        need(R, f)
        ex.call_dem(f, out, s, n)
        R.same_cells(d, ex.get(out, D), hash_uf(d, alg, [Slice_of(d, s)]), f"{alg}(message)")
        R.done(ex)
    return Obligation(f"sha2::{alg} and its hash object are default, update, write_digest of the processor, every length", run, cost=1)


def Slice_of(d, p):
    """The whole opaque slice at p."""
    return d.slices[p]


# ---------------------------------------------------------------- ChaCha20 streams at every position
SNEXT = "<crypto_pure::chacha20::Stream as core::iter::traits::iterator::Iterator>::next"
SPROC = "<crypto_pure::chacha20::Stream>::process"


class StreamRep:
    """The object after 64 c + k bytes (1 <= k <= 64), or a new one (k = 0), found by running the code."""

    def __init__(self, R, k):
        self.k = k
        snaps = []
        for c in (1, 2, 3) if k else (0, 0, 0):
            d = BigDomain()
            ex = R.exe(d)
            d.ex = ex
            ex.overrides.update(chacha_contract(R, ex))
            key, nonce = fresh_bytes(d, "k", 32), fresh_bytes(d, "n", 12)
            self.size = stream_size(ex)
            s = ex.alloc(self.size, "stream")
            ex.call("@h_stream_new", [s, ptr_bytes(ex, key, "key"), 32, ptr_bytes(ex, nonce, "nonce"), 12])
            for _ in range(64 * c + k):
                r = ex.call_dem(SNEXT, s)
            bk = {d.bits(b, 8): j for j, b in enumerate(block_uf(d, key, c, nonce))}
            row = []
            for q in range(self.size):
                x = ex.cell(s + q)
                if type(x) is tuple and isinstance(x[0], Token):
                    row.append(("token", x[1]))
                    self.tok = x[0].w // 8
                elif type(x) is tuple:
                    b = d.bits(byte_value(d, x), 8)
                    row.append(("block", bk[b]) if b in bk else None)
                else:
                    row.append(None if x is UNDEF else x)
            snaps.append(row)
        a, b, c = snaps
        self.cells = [None] * self.size
        q = 0
        while q < self.size:
            for n in (8, 4, 2, 1):
                if q % n or q + n > self.size or not all(type(r[q + j]) is int for r in snaps for j in range(n)):
                    continue
                va, vb, vc = (int.from_bytes(bytes(r[q : q + n]), "little") for r in snaps)
                if va == vb == vc:
                    n = 1
                    self.cells[q] = ("int", a[q])
                    break
                x = vb - va - (1 << 8 * n if vb - va >> 8 * n - 1 else 0)
                up = [bytes(r[q + n // 2 : q + n]) for r in snaps]
                # the narrower reading, unless the upper half could be the sign or the top of the number
                if (vc - vb - x) % (1 << 8 * n) == 0 and n > 1 and up[0] == up[1] == up[2] and up[0] in (bytes(n // 2), b"\xff" * (n // 2)):
                    for j in range(n):
                        self.cells[q + j] = ("lin", va - x, x, n, j)
                    break
            else:
                n = 1
                self.cells[q] = a[q] if a[q] == b[q] == c[q] and type(a[q]) is tuple else None
                if any(x is not None for x in (a[q], b[q], c[q])) and self.cells[q] is None:
                    raise ExecError("representation of Stream")
            q += n

    def word(self, d, x, c):
        w = 8 * x[3]
        v = iv(d, padd(pscale(c, x[2]), {(): x[1]} if x[1] else {}))
        return v if type(v) is int and not v >> w else d.trunc(64, w, v) if w < 64 else v

    def put(self, ex, s, c, key, nonce):
        d = ex.d
        ex.st(s, self.size, UNDEF)
        blk = block_uf(d, key, iv(d, c, 32), nonce)
        for q, x in enumerate(self.cells):
            if x is None:
                continue
            if x[0] == "token" and x[1] == 0:
                put_token(ex, s + q, self.tok, "chacha", (tuple(key), tuple(nonce)))
            elif x[0] == "block":
                ex.put(s + q, [blk[x[1]]])
            elif x[0] == "int":
                ex.st(s + q, 1, x[1])
            elif x[0] == "lin" and x[4] == 0:
                ex.st(s + q, x[3], self.word(d, x, c))

    def check(self, R, ex, s, c, key, nonce, what):
        d = ex.d
        blk = block_uf(d, key, iv(d, c, 32), nonce)
        for q, x in enumerate(self.cells):
            if x is None or x[0] == "token" and x[1]:
                continue
            if x[0] == "token":
                R.require(get_token(ex, s + q, self.tok, "chacha") == (tuple(key), tuple(nonce)), f"{what}: key and nonce")
            elif x[0] == "lin":
                if x[4] == 0:
                    R.same(d, ex.ld(s + q, x[3]), self.word(d, x, c), 8 * x[3], f"{what}: the word at offset {q} of the stream")
            else:
                v = byte_value(d, ex.cell(s + q))
                R.same(d, v, x[1] if x[0] == "int" else blk[x[1]], 8, f"{what}: byte {q} of the stream ({x[0]})")


def single(R, d, ex, body, post, panics=False):
    """Every path of a call: post(path kind, value) under the path's facts."""
    todo, n, facts, t = [[]], 0, [("p",) + f for f in d.facts], time.time()
    saved = {i: cut.copy_obj(o) for i, o in ex.objs.items() if not o.ro}
    while todo:
        n += 1
        if n > 5000 or n > 50 and time.time() - t > 60:
            raise ExecError("too many paths")
        for i, o in saved.items():
            ex.objs[i] = cut.copy_obj(o)
        d.reset_path()
        for b in ex.bigs.values():
            b.reset()
        for f in facts:
            d.add_fact(*f[1:])
        ex.decisions, ex.pending, ex.path = todo.pop(min(range(len(todo)), key=lambda i: len(todo[i]))), [], []
        depth, r, ex.fork_limit, ex.forks = ex.depth, None, len(ex.decisions) + 8, True
        try:
            r = ("ok", body())
        except Panic as e:
            r = ("panic", str(e))
        except Postpone:
            todo.append([p[1] for p in ex.path])
        ex.depth, ex.fork_limit, ex.forks = depth, None, False
        todo.extend(ex.pending)
        if r and d.feasible():
            R.paths += 1
            post(*r)


def check_step(R, fn):
    """The function at position 64 c + k returns byte k of block c and advances the stream by one, for every counter c."""
    reps = {}
    rep = lambda k: reps[k] if k in reps else reps.setdefault(k, StreamRep(R, k))
    for k in range(0, 65):
        d = BigDomain()
        ex = R.exe(d)
        d.ex = ex
        ex.overrides.update(chacha_contract(R, ex))
        key, nonce = fresh_bytes(d, "k", 32), fresh_bytes(d, "n", 12)
        a = d.atom(0, (1 << 32) - (2 if k == 64 else 1), None, "counter")
        c = {(a,): 1} if k else {}
        s = ex.alloc(rep(k).size, "stream")
        rep(k).put(ex, s, c, key, nonce)
        nc, nk = (c, k + 1) if k < 64 else (padd(c, {(): 1}), 1)

        def post(kind, r):
            R.require(kind == "ok", f"next with {k} bytes of a block used: reachable panic: {r}")
            if fn == SNEXT:
                R.require(r[0] == 1, "next returns Some")
                r = r[1]
            R.same(d, r, block_uf(d, key, iv(d, nc, 32), nonce)[nk - 1], 8, f"the byte next returns, {k} bytes of a block used")
            try:
                rep(nk).check(R, ex, s, nc, key, nonce, f"after next, {k} bytes of a block used")
            except Failed as e:
                follow(e, nc, nk)

        def follow(e, nc, nk):
            """The object is not the expected one: the bytes it goes on to return decide."""
            d.add_fact(nc, None, (1 << 32) - 4)
            for j in range(130):
                nc, nk = (nc, nk + 1) if nk < 64 else (padd(nc, {(): 1}), 1)
                r = ex.call_dem(fn, s)
                r = r[1] if fn == SNEXT else r
                R.same(d, r, block_uf(d, key, iv(d, nc, 32), nonce)[nk - 1], 8, f"{e}; the byte returned {j + 1} calls later")
            raise ExecError(f"{e}; the bytes that follow are right")
        single(R, d, ex, lambda: ex.call_dem(fn, s), post)
        R.done(ex)
    # the first byte follows the general rule from here on
    R.require(rep(0).size == rep(1).size, "one representation")


def ob_stream_next():
    """next at position 64 c + k returns byte k of block c, for every counter c."""
    def run(R):
        need(R, SNEXT)
        check_step(R, SNEXT)
    return Obligation("chacha20::Stream::next at 64c+k returns byte k of block(c) and advances by one, every position below 2^38", run, backend="z3 (linear integers), ANF", cost=2)


def byte_steps(R):
    """next, and a function in its place where process does not call next: its step has been checked."""
    m, out = R.module, [SNEXT]
    if SNEXT not in m.callees(SPROC):
        for n in sorted(m.callees(SPROC)):
            f = m.by_dem[n]
            if n.startswith("<crypto_pure::chacha20::Stream>::") and len(f.params) == 1 and f.ret == "i8":
                try:
                    check_step(R, n)
                except (Failed, Panic):
                    continue
                out.append(n)
    return out


def stream_contract(R, ex, steps=(SNEXT,)):
    """next as a contract: the stream is its position."""
    size = stream_size(ex)
    sym = {}

    def ks(d, p):
        k = key(p)
        v = sym.get(k)
        if v is None:
            v = sym[k] = d.fresh(f"keystream{len(sym)}", 8)
        return v

    def nxt(ex, s):
        (p,) = get_token(ex, s, size, "stream")
        p = dict(p)
        d = ex.d
        if not d.entails(p, 0, (1 << 38) - 1):
            raise ExecError("next beyond the end of the stream")
        put_token(ex, s, size, "stream", (tuple(sorted(padd(p, {(): 1}).items())),))
        return (1, ks(d, p))
    return size, ks, {n: nxt if n == SNEXT else lambda ex, s: nxt(ex, s)[1] for n in steps}


def ob_stream_process():
    def run(R):
        need(R, SNEXT, SPROC)
        steps = byte_steps(R)
        d, ex = bexe(R)
        size, ks, ov = stream_contract(R, ex, steps)
        ex.overrides.update(ov)
        pos = d.atom(0, 1 << 38, None, "position")
        P = {(pos,): 1}
        tok = lambda p: (tuple(sorted(p.items())),)
        s = ex.alloc(size, "stream")
        put_token(ex, s, size, "stream", tok(P))
        n = length(d, "input", 0, 1 << 38)
        d.add_fact(padd(P, n.p), 0, 1 << 38)
        src, dst = Big(ex, "input", n), Big(ex, "output", n, ro=False)

        def at(ex, p):
            return dict(get_token(ex, s, size, "stream")[0]), p

        def frame(ex, p):
            got = dict(get_token(ex, s, size, "stream")[0])
            i = {} if p.i is None else p.i
            want = padd(P, n.p) if p.kind == "ret" else padd(padd(P, i), {(): 1}) if p.i is not None else P
            R.require(d.entails(padd(got, want, -1), 0, 0), "the stream advances by one per byte")

        def gen2(ex, i):
            put_token(ex, s, size, "stream", tok(padd(P, i)))
        xor_loop(R, d, ex, SPROC, [s, src.base, n, dst.base, n], src, dst, n, 1, lambda i: [ks(d, padd(P, i))], 1 << 38, frame, gen=gen2, havoc=lambda ex: [(s, size)])
        # lengths that differ
        for less in (True, False):
            d, ex = bexe(R)
            size, ks, ov = stream_contract(R, ex, steps)
            ex.overrides.update(ov)
            P = {(d.atom(0, 1 << 37, None, "position"),): 1}
            s = ex.alloc(size, "stream")
            put_token(ex, s, size, "stream", tok(P))
            n, m = length(d, "input", 0, 1 << 37), length(d, "output", 0, 1 << 37)
            d.add_fact(padd(n.p, m.p, -1) if less else padd(m.p, n.p, -1), None, -1)
            src, dst = Big(ex, "input", n), Big(ex, "output", m, ro=False)

            def post(kind, r):
                R.require(kind == "panic", "lengths that differ are accepted")
                R.require(not dst.cells, "output is written before the refusal")
                R.require(dict(get_token(ex, s, size, "stream")[0]) == P, "keystream is consumed before the refusal")
            single(R, d, ex, lambda: ex.call_dem(SPROC, s, src.base, n, dst.base, m), post)
            R.done(ex)
        # encrypt and decrypt are process
        for f in ("encrypt", "decrypt"):
            d, ex = bexe(R)
            log = []
            ex.overrides[SPROC] = lambda ex, *a: log.append(a)
            s = ex.alloc(size, "stream")
            put_token(ex, s, size, "stream", tok({}))
            (p, n), (q, m) = opaque_slice(ex, "input"), opaque_slice(ex, "output")
            ex.call(f"@h_stream_{f}", [s, p, n, q, m])
            if len(log) != 1:
                raise ExecError(f"{f} does not call process once")
            R.require(log[0][0] == s and log[0][1] == p and log[0][3] == q and d.same(log[0][2], n, 64) and d.same(log[0][4], m, 64), f"{f} passes its arguments on")
            R.done(ex)
    return Obligation("chacha20::Stream::{process, encrypt, decrypt}: out[i] = in[i] ^ keystream[position + i], position advances by the length; other lengths panic without effect; every length and position", run, backend="induction over bytes; z3 (linear integers), ANF", cost=2)


# ---------------------------------------------------------------- GHASH and Poly1305 over data of any length
class Mac:
    """ghash::GHash or poly1305::Poly1305 over the contract of its PolyFunction."""

    def __init__(self, name):
        self.name = name
        self.mod, self.obj, self.F, self.fn, self.kl = {
            "ghash": ("ghash", "<crypto_pure::ghash::GHash>::", GF, GHASH, 16),
            "poly1305": ("poly1305", "<crypto_pure::poly1305::Poly1305>::", P13, POLY, 32)}[name]

    def init(self):
        return (0,) * 16 if self.name == "ghash" else None

    def step(self, d, key, st, blk):
        if self.name == "ghash":
            return tuple(gf_uf(d, key, st, blk))
        return d.uf("p1305", [(8, b) for b in key] + [(8, b) for b in blk] + self.arg(st), 128)

    def arg(self, st):
        return [] if st is None else [(8, b) for b in st] if type(st) is tuple else [(128, st)]

    def value(self, d, key, st):
        if self.name == "ghash":
            return list(st)
        v = d.uf("p1305v", [(8, b) for b in key] + self.arg(st), 128)
        return [d.byte_of(v, i) for i in range(16)]

    def fold(self, d, key, st, s):
        """The state after absorbing a whole byte string in zero-padded blocks of 16."""
        v = d.uf(self.name + " fold", [(8, b) for b in key] + self.arg(st) + [(64, s)], 128)
        return tuple(d.byte_of(v, i) for i in range(16)) if self.name == "ghash" else v

    def generic(self, d, name):
        return tuple(fresh_bytes(d, name, 16)) if self.name == "ghash" else d.fresh(name, 128)

    def contract(self, R, ex):
        F, kl = self.F, self.kl
        need(R, F + "new", F + "process", F + "write_value")
        size = self.size = ex.m.by_dem[F + "new"].sret
        kind = "mac " + self.name

        def new(ex, out, k):
            put_token(ex, out, size, kind, (tuple(ex.get(k, kl)), self.init()))

        def process(ex, p, pi, n):
            if type(n) is not int:
                n = 16 if ex.d.entails(n.p, 16, 16) else None
            if n != 16:
                raise ExecError("PolyFunction::process called with a block that is not 16 bytes")
            key, st = get_token(ex, p, size, kind)
            put_token(ex, p, size, kind, (key, self.step(ex.d, key, st, ex.get(pi, 16))))

        def write(ex, *args):
            t = args[0] if len(args) > 2 else ex.ld(args[0], size)
            if isinstance(t, Part):
                t = t.tok
            if not isinstance(t, Token) or t.kind != kind:
                raise ExecError("write_value on a concrete object")
            ex.put(args[-1], self.value(ex.d, *t.data))
        self.kind = kind
        return {F + "new": new, F + "process": process, F + "write_value": write}

    def token(self, ex, p, key, st):
        put_token(ex, p, self.size, self.kind, (tuple(key), st))

    def same_state(self, d, a, b):
        if (a is None) != (b is None):
            return False
        if type(a) is tuple:
            return all(d.same(x, y, 8) for x, y in zip(a, b))
        return a is None or d.same(a, b, 128)

    def layout(self, R):
        """(object size, offset of the PolyFunction in it)"""
        d, ex = bexe(R)
        ex.overrides.update(self.contract(R, ex))
        need(R, self.obj + "new", self.obj + "process", self.obj + "update", self.obj + "write_tag", self.fn)
        n = ex.m.by_dem[self.obj + "new"].sret
        o = ex.alloc(n, "mac")
        ex.call_dem(self.obj + "new", o, ptr_bytes(ex, fresh_bytes(d, "k", self.kl), "key"), ex.alloc(0), 0)
        cells = [ex.cell(o + q) for q in range(n)]
        at = [q for q, c in enumerate(cells) if type(c) is tuple and (isinstance(c[0], Token) and c[1] == 0 or isinstance(c[0], Part) and c[0].off + c[1] == 0)]
        if len(at) != 1:
            raise ExecError("PolyFunction in " + self.obj)
        return n, at[0]


def ob_mac_absorb(name):
    M = Mac(name)

    def run(R):
        size, fo = M.layout(R)
        d, ex = bexe(R)
        ex.overrides.update(M.contract(R, ex))
        key = fresh_bytes(d, "k", M.kl)
        obj = ex.alloc(size, name)
        rest = [q for q in range(size) if not fo <= q < fo + M.size]
        other = {q: d.fresh(f"o{q}", 8) for q in rest}
        for q, v in other.items():
            ex.st(obj + q, 1, v)
        st, F = M.generic(d, "s"), M.generic(d, "f")
        M.token(ex, obj + fo, key, st)
        n = length(d, "input", 0, (1 << 63) - 1)
        src = Big(ex, "input", n)
        inp = lambda off, k: [src.value_at(padd(off, {(): j} if j else {})) for j in range(k)]
        V = Verdict(R)

        def step(ex, p):
            if p.kind == "panic":
                V.check(False, "reachable panic: " + p.blk)
            key1, s = get_token(ex, obj + fo, M.size, M.kind)
            V.check(key1 == tuple(key), "the key is kept")
            for q, v in other.items():
                V.same(d, byte_value(d, ex.cell(obj + q)), v, 8, "the rest of the object is kept")
            i, cur = ({}, st) if p.i is None else (p.i, F)
            off = pscale(i, 16)
            if p.kind == "head":
                want = M.step(d, key, F, inp(off, 16)) if p.i is not None else st
                V.shape(M.same_state(d, s, want), "an iteration does not absorb one block")
                return
            left = padd(n.p, off, -1)
            lo, hi = d.bounds(left)
            for c in range(max(lo, 0), min(hi, 16)):
                if d.entails(left, c, c):
                    lo = hi = c
                    break
            if lo != hi or lo >= 16:
                V.shape(False, "returns before the last block")
                return
            V.shape(True, "")
            V.check(M.same_state(d, s, M.step(d, key, cur, inp(off, lo) + [0] * (16 - lo)) if lo else cur), f"the last block of {lo} bytes is absorbed zero-padded")

        ind = Induct(ex, M.obj + "process", [obj, src.base, n], step, inv=lambda i: [(padd(n.p, i, -16), 0, None)],
                     gen=lambda ex, i: M.token(ex, obj + fo, key, F), havoc=lambda ex: [(obj + fo, M.size)], imax=1 << 60)
        ind.run()
        V.done()
        R.require(ind.inductions, "there is a loop")
        R.paths += ind.paths
        R.done(ex)
    return Obligation(f"{M.obj[14:-3]}::process absorbs the input in zero-padded blocks of 16, every length", run, backend="induction over blocks; z3 (linear integers), ANF", cost=2)


def ob_mac_driver(name):
    M = Mac(name)
    be = name == "ghash"

    def run(R):
        size, fo = M.layout(R)
        d, ex = bexe(R)
        ex.overrides.update(M.contract(R, ex))

        def process(ex, o, p, n):
            key, st = get_token(ex, o + fo, M.size, M.kind)
            M.token(ex, o + fo, key, M.fold(ex.d, key, st, opaque(ex.d, p, n).name))
        ex.overrides[M.obj + "process"] = process
        key = fresh_bytes(d, "k", M.kl)
        hi = (1 << 61) - 1 if be else (1 << 63) - 1
        (pa, na), (pc, nc) = opaque_slice(ex, "data", 0, hi), opaque_slice(ex, "ciphertext", 0, hi)
        out = ex.alloc(16, "tag")
        ex.call_dem(M.fn, out, ptr_bytes(ex, key, "key"), pa, na, pc, nc)
        st = M.init()
        for p, n in ((pa, na), (pc, nc)):
            st = M.fold(d, key, st, opaque(d, p, n).name)
        L = []
        for n in (na, nc):
            v = iv(d, pscale(n.p, 8)) if be else n
            L += [d.byte_of(v, 7 - j if be else j) for j in range(8)]
        R.same_cells(d, ex.get(out, 16), M.value(d, key, M.step(d, key, st, L)), f"{name} tag")
        R.done(ex)
    what = "be64(8|A|) || be64(8|C|)" if be else "le64(|A|) || le64(|C|)"
    return Obligation(f"{name}(key, A, C) = MAC over pad16(A) || pad16(C) || {what}, every length", run, backend="z3 (linear integers), ANF", cost=1)


# ---------------------------------------------------------------- AEAD drivers with every argument symbolic
def whole(ex, p, n):
    """The Big that starts at p and has length n."""
    b = ex.bigs.get(p >> SHIFT) if type(p) is int else None
    if b is None or p != b.base:
        raise ExecError("a pointer that is not the start of an argument")
    n = n.p if isinstance(n, IV) else {(): n} if n else {}
    if not ex.d.entails(padd(n, b.size, -1), 0, 0):
        raise ExecError("part of an argument")
    return b


def content_of(ex, p, n):
    """The byte string at p of length n: an argument, or an unspecified function of one and where the part lies."""
    b, p = ex.big_at(p)
    if b is None:
        raise ExecError("a byte string that is no argument")
    if b.cells:
        raise ExecError("contents of " + b.name)
    d, off = ex.d, b.off(p)
    np = n.p if isinstance(n, IV) else {(): n} if n else {}
    if d.entails(off, 0, 0) and d.entails(padd(np, b.size, -1), 0, 0):
        return 0 if d.entails(b.size, 0, 0) else b.content
    if not d.entails(off, lo=0) or not d.entails(padd(padd(b.size, off, -1), np, -1), lo=0):
        raise ExecError(f"bounds of {b.name}")
    return d.uf("part", [(64, b.content), (64, iv(d, off)), (64, n)], 64)


def len_is(ex, n, k):
    """Whether a length is k, as a branch of the path."""
    return bool(ex.branch(ex.d.icmp("eq", 64, n, k))) if type(n) is not int else n == k


def big_mac_contract(R, name, fn, kl, hi):
    need(R, fn)

    def h(ex, out, k, pa, na, pc, nc):
        for n, what in ((na, "data"), (nc, "ciphertext")):
            R.require(ex.d.entails(n.p if isinstance(n, IV) else {(): n}, 0, hi), f"precondition of {fn}: length of {what}")
        v = ex.d.uf(name + " of", [(8, x) for x in ex.get(k, kl)] + [(64, content_of(ex, pa, na)), (64, content_of(ex, pc, nc))], 128)
        ex.put(out, [ex.d.byte_of(v, j) for j in range(16)])
    return {fn: h}


def big_v16_contract(R):
    need(R, V16)

    def h(ex, x, y, n):
        if not len_is(ex, n, 16):
            return 0
        return ex.d.equal_bytes(ex.get(x, 16), ex.get(y, 16))
    return {V16: h}


def big_process(R, fn, what, hi, keyof):
    """The contract of the XOR loops proved by ob_gcm_process and ob_ccp_process."""
    need(R, fn)

    def h(ex, *args):
        pi, ni, po, no = args[-4:]
        src, dst = whole(ex, pi, ni), whole(ex, po, no)
        d = ex.d
        R.require(d.entails(padd(src.size, dst.size, -1), 0, 0) and d.entails(src.size, 0, hi), f"precondition of {fn}: lengths")
        if src.cells or dst.cells or dst.ro or src is dst:
            raise ExecError("buffers of " + fn)
        dst.content = d.uf(what, keyof(ex, *args[:-4]) + [(64, src.content)], 64)
    return {fn: h}


def gcm_all(R, ex, a):
    size = aes_size(ex, a)
    c = f"<crypto_pure::aes::{a.capitalize()} as crypto_pure::aes::BlockCipher>::"
    need(R, c + "new", c + "permute")
    ov = dict(aes_contract(R, ex, a))

    def new(ex, out, k, n):
        if not len_is(ex, n, AES[a]):
            raise Panic("key length")
        put_token(ex, out, size, a, tuple(ex.get(k, AES[a])))
    ov[c + "new"] = new

    def keyof(ex, proc, ctr):
        key, nonce = get_token(ex, proc, size, a), ex.get(ctr, 12)
        ex.put(ctr + 12, fresh_bytes(ex.d, "counter", 4))
        return [(8, x) for x in key] + [(8, x) for x in nonce]
    ov.update(big_process(R, gcm_process(a), "gcm stream " + a, GCM_MAX, keyof))
    ov.update(big_mac_contract(R, "ghash", GHASH, 16, (1 << 61) - 1))
    ov.update(big_v16_contract(R))

    def spec(d, key, nonce, src, data, ct):
        stream = d.uf("gcm stream " + a, [(8, x) for x in key] + [(8, x) for x in nonce] + [(64, src)], 64)
        h = d.uf("ghash of", [(8, x) for x in aes_uf(d, a, key, [0] * 16)] + [(64, data), (64, stream if ct is None else ct)], 128)
        return stream, xorc(d, [d.byte_of(h, j) for j in range(16)], aes_uf(d, a, key, list(nonce) + [0, 0, 0, 1]))
    return f"@h_{a}_gcm", AES[a], size, GCM_MAX, (1 << 61) - 1, ov, spec


def ccp_all(R, ex):
    size = ex.m.by_dem[CHACHA_NEW].sret
    ov = dict(chacha_contract(R, ex))

    def new(ex, out, k, kl, n, nl):
        if not len_is(ex, kl, 32) or not len_is(ex, nl, 12):
            raise Panic("ChaCha20::new length")
        put_token(ex, out, size, "chacha", (tuple(ex.get(k, 32)), tuple(ex.get(n, 12))))
    ov[CHACHA_NEW] = new

    def keyof(ex, self, cipher):
        key, nonce = get_token(ex, cipher, size, "chacha")
        return [(8, x) for x in key] + [(8, x) for x in nonce]
    ov.update(big_process(R, CCP_PROCESS, "ccp stream", CCP_MAX, keyof))
    ov.update(big_mac_contract(R, "poly1305", POLY, 32, (1 << 63) - 1))
    ov.update(big_v16_contract(R))

    def spec(d, key, nonce, src, data, ct):
        stream = d.uf("ccp stream", [(8, x) for x in key] + [(8, x) for x in nonce] + [(64, src)], 64)
        h = d.uf("poly1305 of", [(8, x) for x in block_uf(d, key, 0, nonce)[:32]] + [(64, data), (64, stream if ct is None else ct)], 128)
        return stream, [d.byte_of(h, j) for j in range(16)]
    return "@h_ccp", 32, ccp_size(ex), CCP_MAX, (1 << 63) - 1, ov, spec


LENMAX = (1 << 63) - 1


def ob_aead_driver(a, op):
    """encrypt or decrypt over the contracts of their parts; a: an AES variant or 'ccp'."""
    title = "poly1305::ChaCha20Poly1305" if a == "ccp" else f"gcm::Gcm<{a}>"

    def run(R):
        d, ex = bexe(R)
        pre, kl, size, mmax, dmax, ov, spec = ccp_all(R, ex) if a == "ccp" else gcm_all(R, ex, a)
        if a == "ccp":
            size = ccp_size(ex)
        else:
            size = ex.m.by_dem[f"<crypto_pure::gcm::Gcm<crypto_pure::aes::{a.capitalize()}> as crypto_pure::gcm::AeadCipher>::new"].sret
        ex.overrides.update(ov)
        key = fresh_bytes(d, "k", kl)
        c = ex.alloc(size, "cipher")
        ex.call(f"{pre}_new", [c, ptr_bytes(ex, key, "key"), kl])
        ex.objs[c >> SHIFT].ro = True
        L = {n: length(d, n, 0, LENMAX) for n in ("input", "nonce", "data", "output", "tag")}
        B = {n: Big(ex, n, L[n], ro=n != "output") for n in L}
        was = {n: B[n].content for n in B}
        tag = ex.alloc(16, "tag out")
        nonce = [B["nonce"].value_at({(): j} if j else {}) for j in range(12)]
        P = {n: L[n].p for n in L}
        seen = set()

        def body():
            for n in B:
                B[n].content = was[n]
            for n in ("input", "data"):  # the contents of an empty argument are those of any other
                len_is(ex, L[n], 0)
            s = lambda n: [B[n].base, L[n]]
            r = ex.call(f"{pre}_{op}", [c] + s("input") + s("nonce") + s("data") + (s("output") + [tag] if op == "encrypt" else s("tag") + s("output")))
            if op == "decrypt" and len_is(ex, L["tag"], 16):
                ex.branch(right())
            return r

        def content(n):
            return 0 if d.entails(P[n], 0, 0) else was[n]

        def right():
            """Whether the tag is the specified one."""
            return d.equal_bytes(spec(d, key, nonce, was["input"], content("data"), content("input"))[1], [B["tag"].value_at({(): j} if j else {}) for j in range(16)])
        facts = [(P["nonce"], 12, 12), (padd(P["input"], P["output"], -1), 0, 0), (P["input"], 0, mmax), (P["data"], 0, dmax)]

        def post(kind, r):
            out = B["output"]
            if kind == "panic":
                R.require(d.solve({}, 1, 1, facts), f"{op} panics although the lengths are the documented ones: {r}")
                R.require(out.content is was["output"] and not out.cells, f"{op} writes output before it refuses")
                seen.add("panic")
                return
            for p, lo, hi in facts:
                R.require(d.entails(p, lo, hi), f"{op} accepts lengths that are documented to be refused")
            if out.cells:
                if op == "decrypt" and (not d.entails(P["tag"], 16, 16) or d.cond_known(right()) == 0):
                    for q, c in list(out.cells.values()):
                        R.same(d, byte_value(d, c), out.value_at(q), 8, "the output is written although the tag is wrong")
                raise ExecError("output written outside the contract of process")
            empty = d.entails(P["input"], 0, 0)
            stream, t = spec(d, key, nonce, was["input"], content("data"), None if op == "encrypt" and not empty else content("input"))
            if op == "encrypt":
                empty or R.same(d, out.content, stream, 64, "the output is not the input xor the key stream")
                R.same_cells(d, ex.get(tag, 16), t, "tag")
                seen.add("ok")
                return
            good = right() if d.entails(P["tag"], 16, 16) else 0
            fix = lambda v: v if type(v) is int or d.cond_known(v) is None else d.cond_known(v)
            r, good = fix(r), fix(good)
            R.same(d, r, good, 1, "the result of decrypt is not whether the tag is right")
            if type(good) is not int:
                raise ExecError("tag comparison not decided on a path")
            empty or R.same(d, out.content, stream if good else was["output"], 64, "the output is not the input xor the key stream" if good else "the output is written although the tag is wrong")
            seen.add(good)
        single(R, d, ex, body, post)
        R.require(seen == ({"ok", "panic"} if op == "encrypt" else {0, 1, "panic"}), "every outcome is reachable")
        R.done(ex)
    return Obligation(f"{title}::{op} over the contracts of its parts: every key, nonce, data, message{', tag' if op == 'decrypt' else ''}, every length; other lengths panic before output", run, backend="z3 (linear integers), ANF", cost=1)


# ---------------------------------------------------------------- HMAC and HKDF
def pieces(ex, p, n):
    """The byte string at p of length n as a piece of a message: its bytes, or a part of an argument."""
    d = ex.d
    b, q = ex.big_at(p)
    if b is None:
        n = d.concretise(ex, n)
        if n > 1 << 16:
            raise ExecError("a byte string of excessive length")
        return tuple(byte_value(d, c) if type(c) is tuple else c for c in ex.get(p, n))
    if b.cells or not b.init or b.valid is not None:
        n = d.concretise(ex, n)
        return tuple(byte_value(d, c) if type(c) is tuple else c for c in ex.get(p, n))
    np, off = n.p if isinstance(n, IV) else {(): n} if n else {}, b.off(q)
    if np and (not d.entails(off, lo=0) or not d.entails(padd(padd(b.size, off, -1), np, -1), lo=0)):
        raise ExecError(f"bounds of {b.name}")
    return (Seg(b, off, np),)


def all_of(b):
    return Seg(b, {}, b.size)


def hash_big_contract(R, ex, alg):
    """hash_contract with messages of any length."""
    ov = hash_contract(R, ex, alg)
    size = hash_obj_size(ex, alg)
    c = f"<crypto_pure::sha2::{CAP[alg]} as "
    U, W = c + "crypto_pure::sha2::HashFunction>::update", c + "crypto_pure::sha2::HashFunction>::write_digest"
    need(R, U, W)

    def update(ex, p, pi, n):
        put_token(ex, p, size, alg, get_token(ex, p, size, alg) + pieces(ex, pi, n))
    ov[U] = update
    w0 = ov[W]

    def write(ex, p, po, n):
        if not len_is(ex, n, DIGEST[alg]):
            raise Panic("write_digest length")
        return w0(ex, p, po, DIGEST[alg])
    ov[W] = write
    return ov


def hmac_names(alg):
    return {f: f"<crypto_pure::hmac::Hmac<crypto_pure::sha2::{CAP[alg]}>>::{f}" for f in ("new", "update", "write_tag")}


def ob_hmac_object(alg):
    """Hmac::new for every key length; update and the tag for every state."""
    B, D, N = BLOCK[alg], DIGEST[alg], hmac_names(alg)

    def run(R):
        need(R, *N.values())
        at = None

        def layout(ex, h, size, I, O):
            """Offsets of the inner and outer hash objects."""
            hs = hash_obj_size(ex, alg)
            pos = {}
            for q in range(0, size):
                c = ex.cell(h + q)
                if type(c) is tuple and isinstance(c[0], (Token, Part)):
                    k = c[1] + (c[0].off if isinstance(c[0], Part) else 0)
                    if k == 0:
                        pos[q] = get_token(ex, h + q, hs, alg)
            inner = [q for q, t in pos.items() if ex.d.same_message(t, I)]
            outer = [q for q, t in pos.items() if ex.d.same_message(t, O)]
            if len(pos) != 2:
                raise ExecError("representation of Hmac")
            R.require(len(inner) == 1 and len(outer) == 1, "the keyed hash objects are not those of K0 xor ipad and K0 xor opad")
            return inner[0], outer[0]

        def x(d, k, c):
            return [b ^ c if type(b) is int else d.binop("xor", 8, b, c) for b in k]
        for kl in list(range(0, B + 1)) + [None]:
            d, ex = bexe(R)
            ex.overrides.update(hash_big_contract(R, ex, alg))
            size = ex.m.by_dem[N["new"]].sret
            if kl is None:
                n = length(d, "key", B + 1, LENMAX)
                K = Big(ex, "key", n)
                p, k0 = K.base, hash_uf(d, alg, [all_of(K)])
            else:
                n, k0 = kl, fresh_bytes(d, "k", kl)
                p = ptr_bytes(ex, k0, "key")
            k0 = list(k0) + [0] * (B - len(k0))
            I, O = x(d, k0, 0x36), x(d, k0, 0x5C)
            h = ex.alloc(size, "hmac")

            def post(kind, r):
                nonlocal at
                R.require(kind == "ok", f"Hmac::new panics: {r}")
                w = layout(ex, h, size, I, O)
                at = at or w
                R.require(w == at, "one representation")
            single(R, d, ex, lambda: ex.call(f"@h_{alg}_hmac_new", [h, p, n]), post)
            R.done(ex)
        # any state
        hs = hash_obj_size(ex, alg)

        def begin():
            d, ex = bexe(R)
            ex.overrides.update(hash_big_contract(R, ex, alg))
            h = ex.alloc(size, "hmac")
            I, O = fresh_bytes(d, "i", B), fresh_bytes(d, "o", B)
            X = Slice(None, None, d.fresh("message so far", 64))
            put_token(ex, h + at[0], hs, alg, tuple(I) + (X,))
            put_token(ex, h + at[1], hs, alg, tuple(O))
            return d, ex, h, I, O, X
        d, ex, h, I, O, X = begin()
        n = length(d, "input", 0, LENMAX)
        S = Big(ex, "input", n)

        def post(kind, r):
            R.require(kind == "ok", f"Hmac::update panics: {r}")
            R.require(d.same_message(get_token(ex, h + at[0], hs, alg), I + [X, all_of(S)]), "update appends the input to the inner hash")
            R.require(d.same_message(get_token(ex, h + at[1], hs, alg), O), "update keeps the outer hash")
        single(R, d, ex, lambda: ex.call(f"@h_{alg}_hmac_update", [h, S.base, n]), post)
        R.done(ex)
        d, ex, h, I, O, X = begin()
        out = ex.alloc(D, "tag")

        def post(kind, r):
            R.require(kind == "ok", f"Hmac::tag panics: {r}")
            R.same_cells(d, ex.get(out, D), hash_uf(d, alg, O + hash_uf(d, alg, I + [X])), "tag")
        single(R, d, ex, lambda: ex.call(f"@h_{alg}_hmac_tag_copy", [h, out, D]), post)
        R.done(ex)
        d, ex, h, I, O, X = begin()
        out = ex.alloc(D, "tag")
        single(R, d, ex, lambda: ex.call_dem(N["write_tag"], h, out, D), post)
        R.done(ex)
    return Obligation(f"hmac::Hmac<{alg}>::{{new, update, tag, write_tag}} = RFC 2104: every key length, every history of messages of every length", run, backend="z3 (linear integers), ANF", cost=3)


def hmac_uf(d, alg, key, msg):
    k, m = d.message(key), d.message(msg)
    v = d.uf(f"hmac {alg} {len(k)},{len(m)}", k + m, 8 * DIGEST[alg])
    return [d.mk(v.bits[8 * i : 8 * i + 8]) for i in range(DIGEST[alg])]


def hmac_contract(R, ex, alg):
    """What ob_hmac_object proves: the object is (key, message so far)."""
    N = hmac_names(alg)
    need(R, *N.values())
    size = ex.m.by_dem[N["new"]].sret
    kind = "hmac " + alg

    def new(ex, out, p, n):
        put_token(ex, out, size, kind, (pieces(ex, p, n), ()))

    def update(ex, h, p, n):
        k, m = get_token(ex, h, size, kind)
        put_token(ex, h, size, kind, (k, m + pieces(ex, p, n)))

    def write(ex, h, out, n):
        if not len_is(ex, n, DIGEST[alg]):
            raise Panic("write_tag length")
        ex.put(out, hmac_uf(ex.d, alg, *get_token(ex, h, size, kind)))
    return size, {N["new"]: new, N["update"]: update, N["write_tag"]: write}


def ob_hmac_calls(alg):
    """hmac_<alg>, verify and extract over the contract of Hmac."""
    D = DIGEST[alg]

    def begin(R, *names):
        d, ex = bexe(R)
        _, ov = hmac_contract(R, ex, alg)
        ex.overrides.update(ov)
        B = [Big(ex, n, length(d, n, 0, LENMAX)) for n in names]
        S = [(all_of(b),) for b in B]
        return d, ex, B, S
    A = lambda b: [b.base, iv(b.d, b.size)]

    def run(R):
        d, ex, (k, m), (ks, ms) = begin(R, "key", "message")
        out = ex.alloc(D, "tag")

        def post(kind, r):
            R.require(kind == "ok", f"hmac_{alg} panics: {r}")
            R.same_cells(d, ex.get(out, D), hmac_uf(d, alg, ks, ms), f"hmac_{alg}")
        need(R, f"crypto_pure::hmac::hmac_{alg}")
        single(R, d, ex, lambda: ex.call_dem(f"crypto_pure::hmac::hmac_{alg}", out, *A(k), *A(m)), post)
        R.done(ex)
    return Obligation(f"hmac::hmac_{alg} = HMAC(key, message), every length", run, backend="z3 (linear integers), ANF")


def ob_hmac_verify_all(alg):
    D = DIGEST[alg]

    def run(R):
        d, ex = bexe(R)
        ex.overrides.update(hmac_contract(R, ex, alg)[1])
        k, m, t = [Big(ex, n, length(d, n, 0, LENMAX)) for n in ("key", "message", "tag")]
        A = lambda b: [b.base, iv(d, b.size)]
        S = lambda b: (all_of(b),)
        seen = set()

        def post(kind, r):
            R.require(kind == "ok", f"verify panics: {r}")
            if len_is(ex, iv(d, t.size), D):
                good = d.equal_bytes(hmac_uf(d, alg, S(k), S(m)), [t.value_at({(): j} if j else {}) for j in range(D)])
            else:
                good = 0
            fix = lambda v: v if type(v) is int or d.cond_known(v) is None else d.cond_known(v)
            r, good = fix(r), fix(good)
            R.same(d, r, good, 1, "the result of verify is not whether the tag is right")
            seen.add(good if type(good) is int else "open")
        def body():
            r = ex.call(f"@h_{alg}_hmac_verify", A(k) + A(m) + A(t))
            len_is(ex, iv(d, t.size), D)
            return r
        single(R, d, ex, body, post)
        R.require(0 in seen and (1 in seen or "open" in seen), "both outcomes are reachable")
        R.done(ex)
    return Obligation(f"hmac::verify::<{alg}> = (tag = HMAC(key, message)), every length of key, message and tag", run, backend="z3 (linear integers), ANF", cost=2)


def ob_hkdf_extract(alg):
    D = DIGEST[alg]

    def run(R):
        d, ex = bexe(R)
        ex.overrides.update(hmac_contract(R, ex, alg)[1])
        s, i = [Big(ex, n, length(d, n, 0, LENMAX)) for n in ("salt", "ikm")]
        o = Big(ex, "prk", length(d, "prk", 0, LENMAX), ro=False)
        A = lambda b: [b.base, iv(d, b.size)]
        S = lambda b: (all_of(b),)
        seen = set()

        def post(kind, r):
            seen.add(kind)
            if kind == "panic":
                R.require(d.solve({}, 1, 1, [(o.size, D, D)]), f"extract panics: {r}")
                R.require(not o.cells, "extract writes output before it refuses")
                return
            R.require(d.entails(o.size, D, D), "extract accepts an output of another length")
            cells = only_bytes(o, d, {}, D)
            R.require(cells is not None, "extract writes the whole output")
            R.same_cells(d, [byte_value(d, c) for c in cells], hmac_uf(d, alg, S(s), S(i)), "extract")
        single(R, d, ex, lambda: ex.call(f"@h_{alg}_hkdf_extract", A(s) + A(i) + A(o)), post)
        R.require(seen == {"ok", "panic"}, "both outcomes are reachable")
        R.done(ex)
    return Obligation(f"hkdf::extract::<{alg}> = HMAC(salt, ikm), every length; other output lengths refused before output", run, backend="z3 (linear integers), ANF")


def ob_hkdf_expand(alg):
    D = DIGEST[alg]

    def run(R):
        # refused lengths
        for what in ("prk", "okm"):
            d, ex = bexe(R)
            ex.overrides.update(hmac_contract(R, ex, alg)[1])
            p, i = Big(ex, "prk", length(d, "prk", 0, D - 1 if what == "prk" else LENMAX)), Big(ex, "info", length(d, "info", 0, LENMAX))
            o = Big(ex, "okm", length(d, "okm", 255 * D + 1 if what == "okm" else 0, LENMAX), ro=False)

            def post(kind, r):
                R.require(kind == "panic", f"expand accepts a {what} of undocumented length")
                R.require(not o.cells, "expand writes output before it refuses")
            single(R, d, ex, lambda: ex.call(f"@h_{alg}_hkdf_expand", [p.base, iv(d, p.size), i.base, iv(d, i.size), o.base, iv(d, o.size)]), post)
            R.done(ex)
        # documented lengths
        d, ex = bexe(R)
        size, ov = hmac_contract(R, ex, alg)
        kind = "hmac " + alg
        ex.overrides.update(ov)
        n = length(d, "okm", 0, 255 * D)
        p, s = Big(ex, "prk", length(d, "prk", D, LENMAX)), Big(ex, "info", length(d, "info", 0, LENMAX))
        o = Big(ex, "okm", n, ro=False)
        key_, info = (all_of(p),), (all_of(s),)
        F = (Slice(None, None, d.fresh("T(i)", 64)),)
        where = []
        V = Verdict(R)

        def find(ex):
            """The live hash objects at the head of the loop."""
            out = []
            for k, ob in ex.objs.items():
                for q, c in sorted((ob.s or {}).items()):
                    if type(c) is tuple and isinstance(c[0], Token) and c[0].kind == kind and c[1] == 0:
                        out.append(((k << SHIFT) + q, size))
            return out

        def havoc(ex):
            where[:] = [q for q, _ in find(ex)]
            return [(q, size) for q in where]

        def gen(ex, i):
            o.valid = pscale(i, D)
            for q in where:
                put_token(ex, q, size, kind, (key_, F))

        def state(ex, q):
            c = ex.ld(q, size)
            if not isinstance(c, Token) or c.kind != kind:
                raise ExecError("the HMAC object at the loop head")
            return c.data

        def step(ex, pt):
            if pt.kind == "panic":
                V.check(False, "reachable panic: " + pt.blk)
            if pt.i is None and pt.kind == "head":
                V.shape(not o.cells, "output written before the loop")
                for q, _ in find(ex):
                    k, m = state(ex, q)
                    V.shape(d.same_message(k, key_) and not m, "the first HMAC object is not that of the prk")
                return
            i = {} if pt.i is None else pt.i
            T = F if pt.i is not None else ()
            start = pscale(i, D)
            want = hmac_uf(d, alg, key_, T + info + (iv(d, padd(i, {(): 1}), 8),))
            cnt = D if pt.kind == "head" else len(o.cells)
            cells = only_bytes(o, d, start, cnt)
            if cells is None or cnt > D:
                V.shape(False, "an iteration does not write its block")
                return
            cells = [byte_value(d, c) for c in cells]
            if pt.kind == "ret" and not d.entails(padd(padd(n.p, start, -1), {(): -cnt}), 0, 0):
                V.shape(False, "the function returns before the last byte")
                return
            for j in range(cnt):
                V.same(d, cells[j], want[j], 8, f"byte {j} of a block is not HMAC(prk, T(i-1) || info || i)")
            if pt.kind == "head":
                V.shape(True, "")
                for q in where:
                    k, m = state(ex, q)
                    V.shape(d.same_message(k, key_) and d.same_message(m, cells), "the next HMAC object does not start with the block")
        ind = Induct(ex, f"crypto_pure::hkdf::expand::<crypto_pure::sha2::{CAP[alg]}>", [p.base, iv(d, p.size), s.base, iv(d, s.size), o.base, n], step,
                     havoc=havoc, gen=gen, inv=lambda i: [(padd(n.p, i, -D), 0, None), (i, 0, 254)], imax=255)
        ind.run()
        V.done()
        R.require(ind.inductions, "there is a loop")
        R.paths += ind.paths
        R.done(ex)
    return Obligation(f"hkdf::expand::<{alg}> = T(1) || T(2) || ..., every length up to 255 digests, every prk and info; other lengths refused before output", run, backend="induction over blocks; z3 (linear integers), ANF", cost=2)


# ---------------------------------------------------------------- arguments of undocumented lengths
def ob_refuse(title, dem, args, ret=0, before=None, contracts=None, ghost=None, out=None):
    """dem(args) panics whenever an argument's length is not the documented one, and writes nothing.

    args: [(name, documented length or None)]; ret: bytes of the returned object (0: none); out: the name
    of the output argument; before(R, ex): leading arguments; contracts(R, ex): callees under contract.
    """
    def run(R):
        need(R, dem)
        for bad, k in args:
            if k is None:
                continue
            for less in (True, False):
                if less and k == 0:
                    continue
                d, ex = bexe(R)
                if contracts:
                    ex.overrides.update(contracts(R, ex))
                L = {n: length(d, n, 0, LENMAX) for n, _ in args}
                d.add_fact(L[bad].p, *((0, k - 1) if less else (k + 1, None)))
                B = {n: Big(ex, n, L[n], ro=n != out) for n, _ in args}
                lead = before(R, ex) if before else []
                o = [ex.alloc(ret, "result")] if ret else []

                def post(kind, r):
                    R.require(kind == "panic", f"accepts a {bad} of another length")
                    for b in B.values():
                        R.require(not b.cells, "writes output before it refuses")
                try:
                    single(R, d, ex, lambda: ex.call_dem(dem, *o, *lead, *[x for n, _ in args for x in (B[n].base, L[n])]), post)
                except ExecError:
                    accepts(R, bad, k, less)
                    raise
                R.done(ex)

    def accepts(R, bad, k, less):
        """The body goes on with a refused length, on contents beyond reach: some lengths, on concrete contents."""
        if before:
            return
        for n in (k - 1, 0) if less else (k + 1, 2 * k):
            ex = R.exe(None)
            a = [ptr_bytes(ex, [(7 * j + 1) % 251 for j in range(m)], x) for x, q in args for m in [n if x == bad else q or 5]]
            ls = [n if x == bad else q or 5 for x, q in args]
            try:
                ex.call_dem(dem, *([ex.alloc(ret, "result")] if ret else []), *[y for z in zip(a, ls) for y in z])
            except Panic:
                continue
            R.require(False, f"accepts a {bad} of {n} bytes")

    return Obligation(f"{title}: refuses every other length of {', '.join(n for n, k in args if k is not None)} with a panic before output", run, backend="z3 (linear integers)")


def refusals():
    out = []
    for a, k in AES.items():
        out.append(ob_refuse(f"aes::{a.capitalize()}::new", f"<crypto_pure::aes::{a.capitalize()} as crypto_pure::aes::BlockCipher>::new", [("key", k)], ret=1024))
        out.append(ob_refuse(f"gcm::Gcm<{a}>::new", f"<crypto_pure::gcm::Gcm<crypto_pure::aes::{a.capitalize()}> as crypto_pure::gcm::AeadCipher>::new", [("key", k)], ret=1024,
                             contracts=lambda R, ex, a=a: gcm_all(R, ex, a)[5]))
    out.append(ob_refuse("chacha20::ChaCha20::new", CHACHA_NEW, [("key", 32), ("nonce", 12)], ret=1024))
    out.append(ob_refuse("chacha20::Stream::new", "<crypto_pure::chacha20::Stream>::new", [("key", 32), ("nonce", 12)], ret=1024, contracts=lambda R, ex: ccp_all(R, ex)[5]))
    out.append(ob_refuse("poly1305::ChaCha20Poly1305::new", "<crypto_pure::poly1305::ChaCha20Poly1305 as crypto_pure::gcm::AeadCipher>::new", [("key", 32)], ret=1024))
    C, E = "crypto_pure::curve25519::", "crypto_pure::ed25519::"
    out.append(ob_refuse("curve25519::gen_pk", C + "gen_pk", [("secret_key", 32)], ret=32))
    out.append(ob_refuse("curve25519::dh", C + "dh", [("public_key", 32), ("secret_key", 32)], ret=32))
    out.append(ob_refuse("ed25519::gen_pk", E + "gen_pk", [("secret_key", 32)], ret=32))
    out.append(ob_refuse("ed25519::sign", E + "sign", [("message", None), ("secret_key", 32)], ret=64))
    out.append(ob_refuse("ed25519::verify", E + "verify", [("message", None), ("signature", None), ("public_key", 32)]))
    for a in HASHES:
        def before(R, ex, a=a):
            d = ex.d
            w = WIDTH[a]
            rep = ShaRep(R, w, 3)
            h = ex.alloc(rep.size, "hash")
            q = {(d.atom(0, 1 << 40, None, "q"),): 1}
            rep.put(ex, h, q, [d.fresh(f"s{i}", w) for i in range(8)], fresh_bytes(d, "t", 3))
            return [h]
        out.append(ob_refuse(f"sha2::{CAP[a]}::write_digest", f"<crypto_pure::sha2::{CAP[a]} as crypto_pure::sha2::HashFunction>::write_digest", [("digest", DIGEST[a])], before=before, out="digest",
                             contracts=lambda R, ex, a=a: compress_contract(WIDTH[a])))
    return out
