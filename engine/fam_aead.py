"""Contracts for verify_16, AES-GCM and ChaCha20-Poly1305 drivers over the contracts of their parts."""
import anf
import specs
from fam_sym import *
from fam_sym import _base_concat
from ir import ExecError, Panic, explore

VI = "crypto_pure::util::verify_inner::<[u8; 16]>"


# ---------------------------------------------------------------- constant-time comparison
def ob_verify16():
    def run(R):
        if not R.has(V16):
            raise ExecError("anchor lost: util::verify_16")

        def body(ex, n=16):
            d = ex.d
            x, y = fresh_bytes(d, "x", 16), fresh_bytes(d, "y", n)
            r = ex.call_dem(V16, ptr_bytes(ex, x, "x"), ptr_bytes(ex, y, "y"), n)
            return r, (d.equal_bytes(x, y) if n == 16 else 0)
        paths(R, R.exe, body, "verify_16 of 16 bytes")

        def other(ex):
            # a slice of unknown length n != 16: nothing of it may be read
            d = ex.d
            n = d.fresh("len", 64)
            d.assume(d.icmp("eq", 64, n, 16), 0)
            p = ex.alloc(0, "y")
            return ex.call_dem(V16, ptr_bytes(ex, fresh_bytes(d, "x", 16), "x"), p, n), 0
        try:
            paths(R, R.exe, other, "verify_16 of any other length")
        except ExecError:
            for n in list(range(0, 300)) + [16 + (1 << k) for k in range(1, 63)]:
                if n != 16:
                    def body(ex):
                        d = ex.d
                        p = ex.alloc(min(n, 300), "y")
                        ex.put(p, fresh_bytes(d, "y", min(n, 300)))
                        return ex.call_dem(V16, ptr_bytes(ex, fresh_bytes(d, "x", 16), "x"), p, n), 0
                    paths(R, R.exe, body, f"verify_16 of {n} bytes")
            R.bounded = "lengths other than 16: 0..299 and 16 + powers of two"
    return Obligation("util::verify_16 ensures result = (y = x), for every length of y", run, cost=1)


def v16_contract(R):
    def h(ex, x, y, n):
        if type(n) is not int:
            raise ExecError("symbolic tag length")
        if n != 16:
            return 0
        return ex.d.equal_bytes(ex.get(x, 16), ex.get(y, 16))
    return {V16: h} if R.has(V16) else {}


# ---------------------------------------------------------------- AES-GCM
GHASH = "crypto_pure::ghash::ghash"


def ghash_contract(R):
    def h(ex, out, k, pa, na, pc, nc):
        ex.put(out, mac_uf(ex.d, "ghash", ex.get(k, 16), ex.get(pa, na), ex.get(pc, nc)))
    return {GHASH: h} if R.has(GHASH) else {}


def mac_uf(d, name, key, a, c):
    v = d.uf(f"{name}{len(a)},{len(c)}", [(8, b) for b in list(key) + list(a) + list(c)], 128)
    return [d.mk(v.bits[8 * i : 8 * i + 8]) for i in range(16)]


def gcm_exe(R, a):
    d = anf.Domain()
    ex = R.exe(d)
    ex.overrides.update(aes_contract(R, ex, a))
    ex.overrides.update(ghash_contract(R))
    if not R.has(GHASH):
        raise ExecError("anchor lost: ghash::ghash")
    ex.overrides.update(v16_contract(R))
    return ex


def gcm_spec(d, a, key, nonce, data, msg, decrypt=False):
    """(output text, tag)."""
    blk = lambda i: aes_uf(d, a, key, list(nonce) + list(i.to_bytes(4, "big")))
    ks = sum((blk(2 + i) for i in range(-(-len(msg) // 16))), [])
    out = xorc(d, msg, ks[: len(msg)])
    ct = msg if decrypt else out
    h = mac_uf(d, "ghash", aes_uf(d, a, key, [0] * 16), data, ct)
    return out, xorc(d, h, blk(1))


def gcm_size(ex, a):
    return aes_size(ex, a)


GLENS = [(dl, ml) for dl in (0, 1, 16, 33) for ml in list(range(0, 50)) + [63, 64, 65, 127, 128, 129]] + [(dl, 5) for dl in range(0, 50)] + [(3, 16 * 258 + 7)]


def ob_gcm_encrypt(a):
    def run(R):
        for dl, ml in GLENS:
            ex = gcm_exe(R, a)
            d = ex.d
            c = ex.alloc(gcm_size(ex, a), "cipher")
            key, nonce, data, msg = fresh_bytes(d, "k", AES[a]), fresh_bytes(d, "n", 12), fresh_bytes(d, "a", dl), fresh_bytes(d, "m", ml)
            ex.call(f"@h_{a}_gcm_new", [c, ptr_bytes(ex, key, "key"), AES[a]])
            ex.objs[c >> 44].ro = True
            out, tag = ex.alloc(ml, "out"), ex.alloc(16, "tag")
            ex.call(f"@h_{a}_gcm_encrypt", [c, ptr_bytes(ex, msg, "in"), ml, ptr_bytes(ex, nonce, "nonce"), 12, ptr_bytes(ex, data, "data"), dl, out, ml, tag])
            w, t = gcm_spec(d, a, key, nonce, data, msg)
            R.same_cells(d, ex.get(out, ml), w, f"GCM ciphertext ({dl},{ml})")
            R.same_cells(d, ex.get(tag, 16), t, f"GCM tag ({dl},{ml})")
            R.done(ex)
    return Obligation(f"gcm::Gcm<{a}>::encrypt = SP 800-38D", run, bounded="message and data lengths 0..49 and selected up to 4135, all contents", cost=3)


def ob_gcm_decrypt(a):
    def run(R):
        for dl, ml, tl in [(3, m, 16) for m in list(range(0, 35)) + [64, 100]] + [(dl, 20, 16) for dl in (0, 16, 40)] + [(3, 20, t) for t in list(range(0, 36)) + [48, 272] if t != 16] + [(0, 0, t) for t in (0, 15, 17)]:
            aead_decrypt(R, lambda: gcm_exe(R, a), f"@h_{a}_gcm", gcm_size, a, AES[a], dl, ml, tl, lambda d, k, n, da, m: gcm_spec(d, a, k, n, da, m, True))
    return Obligation(f"gcm::Gcm<{a}>::decrypt = (tag correct), plaintext only then", run, bounded="lengths 0..35 and selected, tag lengths 0..35 and selected, all contents", cost=3)


def aead_decrypt(R, mk, pre, size, a, kl, dl, ml, tl, spec):
    seen = set()
    for path, res, ex in explore(mk, lambda ex: _dec_body(ex, pre, size, a, kl, dl, ml, tl, spec)):
        if res[0] != "ok":
            raise Failed(f"decrypt panics: {res[1]} (lengths {dl},{ml}, tag {tl})")
        r, good, got, pt, was = res[1]
        d = ex.d
        fix = lambda v: v if type(v) is int or d.cond_known(v) is None else d.cond_known(v)
        r, good = fix(r), fix(good)
        R.same(d, r, good, 1, f"decrypt result (lengths {dl},{ml}, tag {tl})")
        if type(good) is not int:
            raise ExecError("tag comparison not decided on a path")
        seen.add(good)
        R.same_cells(d, got, pt if good else was, "plaintext" if good else "output buffer after a rejected tag")
        R.done(ex)
    R.require(seen == ({0, 1} if tl == 16 else {0}), "both outcomes are reachable")


def _dec_body(ex, pre, size, a, kl, dl, ml, tl, spec):
    d = ex.d
    c = ex.alloc(size(ex, a), "cipher")
    key, nonce, data, msg, tag = fresh_bytes(d, "k", kl), fresh_bytes(d, "n", 12), fresh_bytes(d, "a", dl), fresh_bytes(d, "c", ml), fresh_bytes(d, "t", tl)
    ex.call(f"{pre}_new", [c, ptr_bytes(ex, key, "key"), kl])
    was = fresh_bytes(d, "o", ml)
    out = ex.alloc(ml, "out")
    ex.put(out, was)
    r = ex.call(f"{pre}_decrypt", [c, ptr_bytes(ex, msg, "in"), ml, ptr_bytes(ex, nonce, "nonce"), 12, ptr_bytes(ex, data, "data"), dl, ptr_bytes(ex, tag, "tag"), tl, out, ml])
    pt, t = spec(d, key, nonce, data, msg)
    good = d.equal_bytes(t, tag) if tl == 16 else 0
    return r, good, ex.get(out, ml), pt, was


def refuse(R, mk, pre, size, a, kl, limit, huge_data=()):
    """Wrong lengths panic before any write: the output buffer is read-only, buffers of absurd length are empty."""
    def call(op, ml, nl, dl, ol, tl=16):
        ex = mk()
        c = ex.alloc(size(ex, a), "cipher")
        ex.call(f"{pre}_new", [c, ptr_bytes(ex, fresh_bytes(ex.d, "k", kl), "key"), kl])
        buf = lambda n, nm: ptr_bytes(ex, fresh_bytes(ex.d, nm, n) if n < 1000 else [], nm)
        out = ex.alloc(ol if ol < 1000 else 0, "out")
        ex.objs[out >> 44].ro = True
        common = [c, buf(ml, "in"), ml, buf(nl, "nonce"), nl, buf(dl, "data"), dl]
        what = f"{op} with message {ml}, nonce {nl}, data {dl}, output {ol}"
        if op == "encrypt":
            R.panics(ex, lambda: ex.call(f"{pre}_encrypt", common + [out, ol, ex.alloc(16)]), what)
        else:
            R.panics(ex, lambda: ex.call(f"{pre}_decrypt", common + [buf(tl, "tag"), tl, out, ol]), what)
    for op in ("encrypt", "decrypt"):
        for nl in list(range(0, 40)) + [268, 12 + 65536, (1 << 32) + 12]:
            if nl != 12:
                call(op, 20, nl, 3, 20)
                call(op, 0, nl, 0, 0)
        for ml, ol in [(0, 1), (1, 0), (15, 16), (16, 15), (16, 32), (32, 16), (20, 21), (21, 20), (5, 40), (64, 63), (64, 65), (256, 0), (0, 256), ((1 << 32) + 5, 5), (5, (1 << 32) + 5)]:
            call(op, ml, 12, 3, ol)
        for n in limit:
            call(op, n, 12, 3, n)
        for n in huge_data:
            call(op, 5, 12, n, 5)
    for n in list(range(0, 70)) + [kl + 256, kl + 65536, kl + (1 << 32)]:
        if n != kl:
            ex = mk()
            c, k = ex.alloc(size(ex, a)), ptr_bytes(ex, fresh_bytes(ex.d, "k", min(n, 70)), "key")
            R.panics(ex, lambda: ex.call(f"{pre}_new", [c, k, n]), f"key of {n} bytes")


def ob_gcm_refuse(a):
    lim = 1 << 36

    def run(R):
        refuse(R, lambda: gcm_exe(R, a), f"@h_{a}_gcm", gcm_size, a, AES[a], [lim - 31, lim, lim + 1, 1 << 37, (1 << 62)], [1 << 61, (1 << 61) + 1, 1 << 62])
    return Obligation(f"gcm::Gcm<{a}>: undocumented lengths panic before output", run, bounded="the enumerated length combinations, all contents", cost=1)


# ---------------------------------------------------------------- ChaCha20-Poly1305
POLY = "crypto_pure::poly1305::poly1305"


def poly_contract(R):
    def h(ex, out, k, pa, na, pc, nc):
        ex.put(out, mac_uf(ex.d, "poly1305", ex.get(k, 32), ex.get(pa, na), ex.get(pc, nc)))
    if not R.has(POLY):
        raise ExecError("anchor lost: poly1305::poly1305")
    return {POLY: h}


def ccp_exe(R):
    d = anf.Domain()
    ex = R.exe(d)
    ex.overrides.update(chacha_contract(R, ex))
    ex.overrides.update(poly_contract(R))
    ex.overrides.update(v16_contract(R))
    return ex


def ccp_spec(d, key, nonce, data, msg, decrypt=False):
    ks = sum((block_uf(d, key, 1 + i, nonce) for i in range(-(-len(msg) // 64))), [])
    out = xorc(d, msg, ks[: len(msg)])
    return out, mac_uf(d, "poly1305", block_uf(d, key, 0, nonce)[:32], data, msg if decrypt else out)


def ccp_size(ex, a=None):
    return ex.m.by_dem["<crypto_pure::poly1305::ChaCha20Poly1305 as crypto_pure::gcm::AeadCipher>::new"].sret


CLENS = [(dl, ml) for dl in (0, 1, 16, 33) for ml in list(range(0, 20)) + [62, 63, 64, 65, 66, 126, 127, 128, 129, 191, 192, 193, 256, 257]] + [(dl, 5) for dl in range(0, 50)] + [(3, 64 * 258 + 7)]


def ob_ccp_encrypt():
    def run(R):
        for dl, ml in CLENS:
            ex = ccp_exe(R)
            d = ex.d
            c = ex.alloc(ccp_size(ex), "cipher")
            key, nonce, data, msg = fresh_bytes(d, "k", 32), fresh_bytes(d, "n", 12), fresh_bytes(d, "a", dl), fresh_bytes(d, "m", ml)
            ex.call("@h_ccp_new", [c, ptr_bytes(ex, key, "key"), 32])
            ex.objs[c >> 44].ro = True
            out, tag = ex.alloc(ml, "out"), ex.alloc(16, "tag")
            ex.call("@h_ccp_encrypt", [c, ptr_bytes(ex, msg, "in"), ml, ptr_bytes(ex, nonce, "nonce"), 12, ptr_bytes(ex, data, "data"), dl, out, ml, tag])
            w, t = ccp_spec(d, key, nonce, data, msg)
            R.same_cells(d, ex.get(out, ml), w, f"ChaCha20-Poly1305 ciphertext ({dl},{ml})")
            R.same_cells(d, ex.get(tag, 16), t, f"ChaCha20-Poly1305 tag ({dl},{ml})")
            R.done(ex)
    return Obligation("poly1305::ChaCha20Poly1305::encrypt = RFC 8439", run, bounded="selected message and data lengths 0..257 and 16519, all contents", cost=3)


def ob_ccp_decrypt():
    def run(R):
        for dl, ml, tl in [(3, m, 16) for m in (0, 1, 5, 16, 17, 63, 64, 65, 128, 130)] + [(dl, 20, 16) for dl in (0, 16, 40)] + [(3, 20, t) for t in list(range(0, 36)) + [48, 272] if t != 16] + [(0, 0, t) for t in (0, 15, 17)]:
            aead_decrypt(R, lambda: ccp_exe(R), "@h_ccp", ccp_size, None, 32, dl, ml, tl, lambda d, k, n, da, m: ccp_spec(d, k, n, da, m, True))
    return Obligation("poly1305::ChaCha20Poly1305::decrypt = (tag correct), plaintext only then", run, bounded="selected lengths up to 130, tag lengths 0..35 and selected, all contents", cost=3)


def ob_ccp_refuse():
    lim = (1 << 38) - 64

    def run(R):
        refuse(R, lambda: ccp_exe(R), "@h_ccp", ccp_size, None, 32, [lim + 1, lim + 64, 1 << 38, 1 << 39, 1 << 62])
    return Obligation("poly1305::ChaCha20Poly1305: undocumented lengths panic before output", run, bounded="the enumerated length combinations, all contents", cost=1)


def ob_poly_driver():
    """poly1305(key, data, ct): PolyFunction over pad16(data) || pad16(ct) || le64 lengths."""
    F = P13
    names = [F + n for n in ("new", "process", "write_value")]

    def run(R):
        for n in names:
            if not R.has(n):
                raise ExecError("anchor lost: " + n)
        for dl, cl in [(a, b) for a in range(0, 34) for b in (0, 1, 15, 16, 17, 31, 32, 33)] + [(a, b) for a in (0, 1, 16, 17) for b in LENS] + [(b, 3) for b in LENS]:
            d = anf.Domain()
            ex = R.exe(d)
            size = ex.m.by_dem[F + "new"].sret
            step = lambda key, st, blk: (d.uf("p1305", [(8, b) for b in key] + [(8, b) for b in blk] + ([(128, st)] if st is not None else []), 128))
            val = lambda key, st: [d.byte_of(d.uf("p1305v", [(8, b) for b in key] + ([(128, st)] if st is not None else []), 128), i) for i in range(16)]

            def new(ex, out, k):
                put_token(ex, out, size, "p1305", (tuple(ex.get(k, 32)), None))

            def process(ex, p, pi, n):
                if n != 16:
                    raise Failed("PolyFunction::process called with a block that is not 16 bytes")
                key, st = get_token(ex, p, size, "p1305")
                put_token(ex, p, size, "p1305", (key, step(key, st, ex.get(pi, 16))))

            def write(ex, p, out):
                ex.put(out, val(*get_token(ex, p, size, "p1305")))
            ex.overrides.update(dict(zip(names, (new, process, write))))
            key, data, ct = fresh_bytes(d, "k", 32), fresh_bytes(d, "a", dl), fresh_bytes(d, "c", cl)
            out = ex.alloc(16)
            ex.call_dem(POLY, out, ptr_bytes(ex, key, "key"), ptr_bytes(ex, data, "data"), dl, ptr_bytes(ex, ct, "ct"), cl)
            m = pad16(data) + pad16(ct) + list(dl.to_bytes(8, "little")) + list(cl.to_bytes(8, "little"))
            st = None
            for i in range(0, len(m), 16):
                st = step(key, st, m[i : i + 16])
            R.same_cells(d, ex.get(out, 16), val(key, st), f"Poly1305 of {dl}+{cl} bytes")
            R.done(ex)
    return Obligation("poly1305::poly1305 ensures Poly1305(pad(A) || pad(C) || lengths)", run, bounded="data and ciphertext lengths 0..257, all contents", cost=4)
