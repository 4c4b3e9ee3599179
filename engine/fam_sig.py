"""Contracts for the Ed25519 drivers: gen_pk, sign, verify, over the contracts of everything they call.

Scalars are known modulo the group order L (scal), points as integer combinations of B and of the decoded
public key, encodings as interned byte strings of the point.  The hash is a ghost message; the message
argument has symbolic length and opaque contents.
"""
from fam_ed import *
from fam_sym import opaque, opaque_slice
from anf import BV
from intdom import key

GENPK, SIGN, VERIFY = E5 + "gen_pk", E5 + "sign", E5 + "verify"
REDUCE, MULADD, CANON = E5 + "sc_reduce", E5 + "sc_muladd", E5 + "sc_is_canonical"
TOB3, TOB2 = E5 + "ge_p3_tobytes", GP2 + "to_bytes"
V32 = "crypto_pure::curve25519::verify_32"


def mod_l(p):
    return {k: c % ORD for k, c in p.items() if c % ORD}


class SigDomain(EdDomain):
    def __init__(self):
        super().__init__()
        self.scals = {}      # 32 bytes -> value mod L
        self.reduced = set()  # 32 bytes known to be < L
        self.fresh_of = {}
        self.encs = {}       # combination -> 32 bytes
        self.encof = {}

    def scal(self, cells):
        if all(type(c) is int for c in cells):
            return mod_l({(): int.from_bytes(bytes(cells), "little")})
        k = cellkey(self, cells)
        v = self.scals.get(k)
        if v is None:
            v = self.scals[k] = {(self.atom(0, 2**256, None, "scalar"),): 1}
        return v

    def small(self, k, name, value=None):
        """32 fresh bytes below L, one string per key."""
        b = self.fresh_of.get(k)
        if b is None:
            b = fresh_bytes(self, name, 31) + [self.zext(5, 8, self.fresh(name + "31", 5))]
            self.fresh_of[k] = b
            self.reduced.add(cellkey(self, b))
            if value is not None:
                self.scals[cellkey(self, b)] = value
        return b

    def canon(self, cells):
        """The condition that 32 bytes are below L."""
        if all(type(c) is int for c in cells):
            return int(int.from_bytes(bytes(cells), "little") < ORD)
        k = cellkey(self, cells)
        if k in self.reduced:
            return 1
        b = self.fresh_of.get(("canon", k))
        if b is None:
            b = self.fresh_of["canon", k] = self.fresh("canonical", 1)
        return b

    def below253(self, cells):
        if cellkey(self, cells) in self.reduced:
            return True
        c = cells[31]
        if type(c) is int and c < 32 or type(c) is not int and not any(self.bits(c, 8)[5:]):
            return True
        c = self.canon(cells)
        return (c if type(c) is int else self.cond_known(c)) == 1

    def enc(self, comb):
        k = frozenset((g, key(mod_l(v))) for g, v in comb.items() if mod_l(v))
        if not k:
            return [1] + [0] * 31
        b = self.encs.get(k)
        if b is None:
            b = self.encs[k] = fresh_bytes(self, f"point{len(self.encs)}.", 32)
            self.encof[cellkey(self, b)] = comb
        return b


def c_reduce(ex, p):
    d = ex.d
    s = ex.get(p, 64)
    ex.put(p, d.small(("reduce", cellkey(d, s)), "reduced"))
    for i in range(32, 64):
        ex.st(p + i, 1, UNDEF)


def c_muladd(ex, o, n, a, b, c):
    d = ex.d
    if n != 32:
        raise ExecError("sc_muladd into another length")
    a, b, c = (d.scal(ex.get(x, 32)) for x in (a, b, c))
    v = mod_l(padd(pmul(a, b), c))
    ex.put(o, d.small(("muladd", key(v)), "muladd", v))


def c_canon(ex, p, n):
    if n != 32:
        # no contract: either answer, and a panic where the code has one
        if type(n) is not int:
            raise ExecError("sc_is_canonical on another length")
        import intdom
        import ir

        def body(x):
            return x.call_dem("crypto_pure::ed25519::sc_is_canonical", ptr_bytes(x, x.d.ibytes("s", n), "s"), n)
        for _, r, _ in ir.explore(lambda: ex.run.exe(intdom.Domain()), body):
            if r[0] != "ok":
                raise Panic(r[1])
        return ex.d.fresh("canonical of another length", 1)
    return ex.d.canon(ex.get(p, 32))


def c_smb(ex, o, a):
    d = ex.d
    a = ex.get(a, 32)
    if type(a[31]) is int and a[31] > 127 or type(a[31]) is not int and d.bits(a[31], 8)[7]:
        raise Unproved("precondition of from_scalarmult_base: a[31] < 128")
    put_pt(ex, o, "p3", {"B": d.scal(a)})


def any_pt(ex, p, kind):
    """A point token, or the field elements of a decoded point under a name of its own."""
    d = ex.d
    try:
        v = ex.ld(p, PSIZE[kind])
    except ExecError:
        v = None
    if isinstance(v, Token):
        return get_pt(ex, p, kind)
    f = read_struct(ex, p, 4)
    x, y, z, t = [a.poly for a in f]
    for a in f:
        d.need(a, OUT, "point argument")
    if z != fconst(1) or t != d.fmul(x, y):
        raise Unproved("point argument: not a decoded point")
    return {("point", fkey(x), fkey(y)): {(): 1}}


def c_dsm(ex, o, a, ga, b, n):
    d = ex.d
    if n != 32:
        raise Panic("from_double_scalarmult_vartime: assertion on the length")
    a, b = ex.get(a, 32), ex.get(b, 32)
    if not (d.below253(a) and d.below253(b)):
        raise Unproved("precondition of from_double_scalarmult_vartime: scalars below 2^253")
    put_pt(ex, o, "p2", combine(d, d.scal(a), any_pt(ex, ga, "p3"), d.scal(b)))


def combine(d, a, pa, b):
    r = {"B": b}
    for g, v in pa.items():
        r[g] = mod_l(padd(r.get(g, {}), pmul(a, v)))
    return r


def c_tob3(ex, o, n, p):
    if n != 32:
        raise ExecError("ge_p3_tobytes into another length")
    ex.put(o, ex.d.enc(get_pt(ex, p, "p3")))


def c_tob2(ex, o, p):
    ex.put(o, ex.d.enc(get_pt(ex, p, "p2")))


def decode_contract(R):
    n, off, tag = option_layout(R)

    def h(ex, o, s, m):
        d = ex.d
        if m != 32:
            raise Panic("from_bytes: assertion on the length")
        cells = ex.get(s, 32)
        comb = d.encof.get(cellkey(d, cells))
        want = None if comb is not None else decoded(ex, cells)
        for i in range(n):
            ex.st(o + i, 1, UNDEF)
        for i, b in tag:
            if comb is not None or want is not None:
                ex.st(o + i, 1, b)
        if comb is not None:  # decoding an encoding gives the point back (negated)
            put_pt(ex, o + off, "p3", {g: pscale(v, -1) for g, v in comb.items()})
        elif want is not None:
            x, y = want
            for i, v in enumerate((x, y, fconst(1), d.fmul(x, y))):
                d.put_fe(ex, o + off + 40 * i, sym(OUT), v)
        else:
            for i, b in tag:
                ex.st(o + i, 1, none_tag(tag, i, b))
    return h


def none_tag(tag, i, b):
    if len(tag) < 1 or tag[0][1] not in (0, 1):
        raise ExecError("layout of Option<GeP3>")
    return 1 - tag[0][1] if i == tag[0][0] else 0


def sig_exe(R, decode=None):
    d = SigDomain()
    ex = R.exe(d)
    ov = {REDUCE: c_reduce, MULADD: c_muladd, CANON: c_canon, SMB: c_smb, DSM: c_dsm, TOB3: c_tob3, TOB2: c_tob2, V32: c_verify32}
    for k in ov:
        if not R.has(k):
            raise ExecError("anchor lost: " + k)
    ex.overrides.update(ov)
    ex.overrides.update(hash_contract(R, ex, "sha512"))
    if decode:
        ex.overrides[DECODE] = decode
    return ex


def sha512_of(d, msg):
    return hash_uf(d, "sha512", msg)


def expand_secret(d, sk):
    """RFC 8032 5.1.5: the clamped scalar's bytes and the prefix."""
    h = sha512_of(d, sk)
    return clamp(d, [h[i] for i in range(31)] + [d.binop("and", 8, h[31], 63)]), h[32:]


def scalar_of_hash(d, h):
    return d.small(("reduce", cellkey(d, h)), "reduced")


def spec_pk(d, sk):
    a, prefix = expand_secret(d, sk)
    return d.enc({"B": d.scal(a)})


def spec_sign(d, sk, msg):
    a, prefix = expand_secret(d, sk)
    pk = d.enc({"B": d.scal(a)})
    r = d.scal(scalar_of_hash(d, sha512_of(d, prefix + msg)))
    rb = d.enc({"B": r})
    k = d.scal(scalar_of_hash(d, sha512_of(d, rb + pk + msg)))
    v = mod_l(padd(pmul(k, d.scal(a)), r))
    return rb + d.small(("muladd", key(v)), "muladd", v)


def message(ex, ml, name="m"):
    """(pointer, length, pieces) of a message: ml bytes, or any length if ml is None."""
    if ml is None:
        p, n = opaque_slice(ex, name)
        return p, n, [opaque(ex.d, p, n)]
    m = fresh_bytes(ex.d, name, ml)
    return ptr_bytes(ex, m, name), ml, m


def ob_gen_pk():
    def run(R):
        if not R.has(GENPK):
            raise ExecError("anchor lost: " + GENPK)
        ex = sig_exe(R)
        d = ex.d
        sk = fresh_bytes(d, "k", 32)
        o = ex.alloc(32, "pk")
        ex.call_dem(GENPK, o, ptr_bytes(ex, sk, "secret"), 32)
        R.same_cells(d, ex.get(o, 32), spec_pk(d, sk), "gen_pk is not RFC 8032")
        R.done(ex)
    return Obligation("ed25519::gen_pk ensures the RFC 8032 public key", run, backend="combinations of B over the callees' contracts", cost=2)


def ob_sign():
    def run(R):
        if not R.has(SIGN):
            raise ExecError("anchor lost: " + SIGN)
        for ml in (None, 0, 1, 33):
            ex = sig_exe(R)
            d = ex.d
            sk = fresh_bytes(d, "k", 32)
            p, n, m = message(ex, ml)
            o = ex.alloc(64, "signature")
            ex.call_dem(SIGN, o, p, n, ptr_bytes(ex, sk, "secret"), 32)
            R.same_cells(d, ex.get(o, 64), spec_sign(d, sk, m), f"sign is not RFC 8032 (message {ml})")
            R.done(ex)
    return Obligation("ed25519::sign ensures the RFC 8032 signature, every message length", run, backend="combinations of B over the callees' contracts", cost=2)


def spec_verify(ex, sig, pk, m):
    """On a path: the wanted bit."""
    d = ex.d
    r, s = sig[:32], sig[32:]
    if not ex.branch(d.canon(s)):
        return 0
    a = decoded(ex, pk)
    if a is None:
        return 0
    x, y = a
    k = d.scal(scalar_of_hash(d, sha512_of(d, r + pk + m)))
    e = d.enc(combine(d, k, {("point", fkey(x), fkey(y)): {(): 1}}, d.scal(s)))
    return d.equal_bytes(e, r)


def ob_verify():
    def run(R):
        if not R.has(VERIFY):
            raise ExecError("anchor lost: " + VERIFY)
        dec = decode_contract(R)
        for ml in (None, 0, 5):
            def body(ex):
                d = ex.d
                sig, pk = fresh_bytes(d, "sig", 64), fresh_bytes(d, "pk", 32)
                p, n, m = message(ex, ml)
                r = ex.call_dem(VERIFY, p, n, ptr_bytes(ex, sig, "signature"), 64, ptr_bytes(ex, pk, "public"), 32)
                return r, spec_verify(ex, sig, pk, m)
            paths(R, lambda: sig_exe(R, dec), body, "verify differs from RFC 8032")
    return Obligation("ed25519::verify ensures acceptance exactly of RFC 8032 signatures, every message length", run, backend="combinations of A and B over the callees' contracts, by paths", cost=3)


def ob_verify_len():
    def run(R):
        if not R.has(VERIFY):
            raise ExecError("anchor lost: " + VERIFY)
        dec = decode_contract(R)
        skipped = []

        def call(ex, sl, sig):
            d = ex.d
            pk = fresh_bytes(d, "pk", 32)
            p, n, m = message(ex, None)
            return ex.call_dem(VERIFY, p, n, sig, sl, ptr_bytes(ex, pk, "public"), 32)

        def anylen(ex):
            d = ex.d
            n = d.iatom("signature length", 64, 0, (1 << 62) - 1)
            eq = d.icmp("eq", 64, n, 64)
            if ex.branch(eq):
                skipped.append(1)
                return 0, 0
            return call(ex, n, ex.alloc(0, "opaque signature")), 0
        for sl in [n for n in range(0, 131) if n != 64] + [256 + 64]:
            paths(R, lambda: sig_exe(R, dec), lambda ex: (call(ex, sl, ptr_bytes(ex, fresh_bytes(ex.d, "s", sl), "signature")), 0), f"verify of a {sl}-byte signature")
        paths(R, lambda: sig_exe(R, dec), anylen, "verify of a signature of another length")
        R.require(len(skipped) == 1, "the length 64 is one case")
    return Obligation("ed25519::verify ensures false for every signature length other than 64", run, backend="symbolic length, by paths", cost=2)


def ob_complete():
    """C16 over the contracts: run sign, gen_pk and verify in sequence."""
    def run(R):
        for n in (SIGN, GENPK, VERIFY):
            if not R.has(n):
                raise ExecError("anchor lost: " + n)
        dec = decode_contract(R)

        def sign(ex):
            d = ex.d
            sk = fresh_bytes(d, "k", 32)
            ps = ptr_bytes(ex, sk, "secret")
            p, n, m = message(ex, None)
            pk, sig = ex.alloc(32, "pk"), ex.alloc(64, "signature")
            ex.call_dem(GENPK, pk, ps, 32)
            ex.call_dem(SIGN, sig, p, n, ps, 32)
            return sk, p, n, m, pk, sig

        def good(ex):
            sk, p, n, m, pk, sig = sign(ex)
            return ex.call_dem(VERIFY, p, n, sig, 64, pk, 32), 1

        def other(ex):
            """Another message: accepted iff [S]B - [k']A = R, where that difference is [(k - k')a]B."""
            d = ex.d
            sk, p, n, m, pk, sig = sign(ex)
            p2, n2, m2 = message(ex, None, "m2")
            r = ex.call_dem(VERIFY, p2, n2, sig, 64, pk, 32)
            a, _ = expand_secret(d, sk)
            a = d.scal(a)
            rb, pkb = ex.get(sig, 32), ex.get(pk, 32)
            k = [d.scal(scalar_of_hash(d, sha512_of(d, rb + pkb + x))) for x in (m, m2)]
            rr = d.encof[cellkey(d, rb)]["B"]
            lhs = padd(d.scal(ex.get(sig + 32, 32)), pmul(k[1], a), -1)
            R.require(mod_l(padd(padd(lhs, rr, -1), pmul(padd(k[0], k[1], -1), a), -1)) == {}, "the verification equation differs by (k - k')a")
            return r, d.equal_bytes(d.enc({"B": lhs}), rb)
        paths(R, lambda: sig_exe(R, dec), good, "a signature made by sign is refused")
        paths(R, lambda: sig_exe(R, dec), other, "verify of another message is not the equation")
        # a is clamped: 2^254 <= a < 2^255, 8 | a; L is odd and no multiple of 8L lies there
        lo, hi = 2**254, 2**255
        R.require(not any(lo <= 8 * ORD * j < hi for j in range(0, 3)), "a = 0 mod L is impossible")
    return Obligation("verify(m, sign(m, sk), gen_pk(sk)) = true; for m' the equation differs by (k - k')a B != 0", run, backend="combinations of B over the callees' contracts", cost=2)


# ---------------------------------------------------------------- double scalar multiplication
ODD = [0] + [s * v for v in range(1, 16, 2) for s in (1, -1)]


class Digit:
    """A digit of a recoded scalar: one of ODD, decided when it is read."""

    __slots__ = ("w", "gen", "j", "atom", "tests")

    def __init__(self, d, gen, j):
        self.w, self.gen, self.j = -8, gen, j
        self.atom = d.atom(-15, 15, None, f"{gen}{j}")
        self.tests = [d.fresh(f"{gen}{j}={v}", 1) for v in ODD[:-1]]
        for t, v in zip(self.tests, ODD):
            d.digit_of[t.bits] = self, v

    def read(self, ex):
        for t, v in zip(self.tests, ODD):
            if ex.branch(t):
                return v & 0xFF
        return ODD[-1] & 0xFF

    def known(self, d):
        k = d.digits.get(self)
        if k is None:
            return None
        if k[0] is None and k[1] == len(self.tests):
            return ODD[-1]
        return k[0]


class DsmDomain(EdDomain):
    def concat(self, cells):
        if len(cells) == 1 and type(cells[0]) is tuple and isinstance(cells[0][0], Digit):
            return cells[0][0].read(self.ex)
        if any(type(c) is tuple and isinstance(c[0], Digit) for c in cells):
            raise ExecError("several digits read at once")
        return super().concat(cells)

    def __init__(self):
        super().__init__()
        self.digit_of = {}
        self.digits = {}  # digit -> [value known on this path, number of values excluded]
        self.first = None  # called before the first digit of a path is known

    def reset_path(self):
        super().reset_path()
        self.digits = {}

    def same_abstract(self, a, b):
        if isinstance(a, Token) and a.kind == "p2" and a.data != b.data:
            raise Unproved("loop invariant of the double scalar multiplication: paths disagree on the accumulated point")

    def assume(self, c, v):
        super().assume(c, v)
        x = self.digit_of.get(c.bits) if isinstance(c, BV) else None
        if x is not None:
            if not self.digits and self.first:
                self.first()
            k = self.digits.setdefault(x[0], [None, 0])
            if v:
                k[0] = x[1]
            else:
                k[1] += 1


def ob_dsm():
    slide = E5 + "slide"

    def run(R):
        # cutting at every join is fast; the loop heads alone are enough, whatever the shape of the branches
        for merges, variants in ((True, 1), (False, 1), (False, 3)):
            try:
                return attempt(R, merges, variants)
            except (ExecError, Unproved):
                if variants > 1:
                    raise

    def attempt(R, merges, variants):
        import cut
        for n in (DSM, slide):
            if not R.has(n):
                raise ExecError("anchor lost: " + n)
        d = DsmDomain()
        ex = R.exe(d)
        ex.overrides.update(fe_contracts(R))
        ex.overrides.update(pt_contracts(R))
        digits = {g: [Digit(d, g, j) for j in range(256)] for g in "AB"}
        pa, pb = ex.alloc(64, "a"), ex.alloc(32, "b")
        for p in (pa, pb):
            ex.objs[p >> 44].ro = True
        ga = ex.alloc(160, "ga")
        put_pt(ex, ga, "p3", {"A": {(): 1}})
        ex.objs[ga >> 44].ro = True
        o = ex.alloc(ex.m.by_dem[DSM].sret, "result")

        def c_slide(ex, r, a, n):
            g = {pa: "A", pb: "B"}.get(a)
            if g is None or n not in (32, 64):
                raise ExecError("slide of another scalar")
            for j, x in enumerate(digits[g]):
                ex.obj(r + j, 1)
                ex.put(r + j, [(x, 0)])
        ex.overrides[slide] = c_slide

        def subst(g, p):
            """p with the digits known on this path replaced."""
            if not d.digits:
                return p
            r = dict(p)
            k = 0
            for x in d.digits:
                if x.gen == g and (x.atom,) in r:
                    v = x.known(d)
                    if v is not None:
                        k += r.pop((x.atom,)) * v
            if k:
                k += r.get((), 0)
                if k:
                    r[()] = k
                else:
                    r.pop((), None)
            return r
        for g in "AB":
            if [x.atom for x in digits[g]] != list(range(digits[g][0].atom, digits[g][0].atom + 256)):
                raise ExecError("digit atoms")

        def prefix(g, k):
            v = pre.get((g, k))
            if v is None:
                v = pre[g, k] = prefix_(g, k)
            return v
        pre = {}

        def prefix_(g, k):
            return {(digits[g][j].atom,): 1 << (j - k) for j in range(k, 256)}

        def forms(g, c):
            """The (m, k) with c = m prefix(k) on this path."""
            c = subst(g, c)
            js = [m[0] - digits[g][0].atom for m in c if m]
            out = set()
            if js:
                top = max(js)
                e = c[(digits[g][top].atom,)]
                if e > 0 and not e & (e - 1):
                    k = top - (e.bit_length() - 1)
                    for mul, k in ((1, k), (2, k + 1)):
                        if 0 <= k <= 256 and subst(g, pscale(prefix(g, k), mul)) == c:
                            out.add((mul, k))
                return out
            n, v = c.get((), 0), 0
            for k in range(256, -1, -1):
                if k < 256:
                    x = digits[g][k].known(d)
                    if x is None:
                        break
                    v = 2 * v + x
                if v == n:
                    out.add((1, k))
                if 2 * v == n:
                    out.add((2, k))
            return out

        def canonical(data, kind):
            """The most inclusive invariant (prefixes of both scalars, at the same position) that holds on this path."""
            fa, fb = forms("A", data.get("A", {})), forms("B", data.get("B", {}))
            best = None
            for ma, ka in fa:
                for mb, kb in ((ma, ka), (3 - ma, ka - ma + 3 - ma)):
                    if (mb, kb) in fb:
                        r = (kind == "p2" and (ma, mb, ka) != (1, 1, kb), ka + kb, ma + mb, ma, ka, mb, kb)
                        if best is None or r < best:
                            best = r
            if best is None:
                return None
            _, _, _, ma, ka, mb, kb = best
            return {"A": pscale(prefix("A", ka), ma), "B": pscale(prefix("B", kb), mb)}

        old = set()

        def before():
            for ob in ex.objs.values():
                if ob.s and not ob.ro:
                    old.update(c[0] for c in ob.s.values() if type(c) is tuple and isinstance(c[0], Token))
        d.first = before

        def begin(ex):
            old.clear()
            before()

        def arrive(ex, blk, n, r, ghost):
            for i, ob in list(ex.objs.items()):
                if ob.ro or not ob.s:
                    continue
                seen = set()
                for off, c in list(ob.s.items()):
                    if type(c) is tuple and c[1] == 0 and isinstance(c[0], Token) and c[0].kind in ("p1", "p2", "p3") and id(c[0]) not in seen:
                        t = c[0]
                        if any(ob.s.get(off + q) is None or ob.s[off + q] is UNDEF or ob.s[off + q][0] is not t for q in range(t.w // 8)):
                            continue
                        comb = canonical(t.data, t.kind)
                        if comb is not None:
                            put_pt(ex, (i << 44) + off, t.kind, comb)
                        elif d.digits and t not in old and t.kind != "p3":
                            raise Unproved("loop invariant of the double scalar multiplication: [a's prefix]A + [b's prefix]B")
            # the point being accumulated, when it is kept as field elements of the identity
            for i, ob in list(ex.objs.items()):
                if ob.ro or len(ob.b) != 120:
                    continue
                try:
                    f = read_struct(ex, i << 44, 3)
                except (ExecError, Unproved, AttributeError):
                    continue
                if [x.poly for x in f] == [{}, fconst(1), fconst(1)]:
                    put_pt(ex, i << 44, "p2", canonical({}, "p2"))
            return None

        done = []

        def ret(ex, v, ghost):
            c = get_pt(ex, o, "p2")
            for g in "AB":
                got = subst(g, c.get(g, {}))
                R.require(got == subst(g, prefix(g, 0)), f"coefficient of {g} in the result")
            done.append(1)
        def position(ex, n):
            """Invariants are kept per position of the accumulated point in the scalars."""
            ks = set()
            for ob in ex.objs.values():
                if not ob.ro and ob.s:
                    for t in {id(c[0]): c[0] for c in ob.s.values() if type(c) is tuple and isinstance(c[0], Token) and c[0].kind == "p2"}.values():
                        for g in "AB":
                            k = 256 - len(t.data.get(g, {}))
                            if 0 <= k and prefix(g, k) == t.data.get(g, {}):
                                ks.add(k)
            return 256 - min(ks) if ks else n
        ex.watch = 24 if R.watch else None
        ct = cut.Cutter(ex, DSM, [o, pa, ga, pb, 32], arrive, ret, begin=begin, merges=merges)
        ct.keyof, ct.variants = position, variants
        ct.run()
        R.require(done, "the function returns")
        R.paths += ct.segs
        R.checks += ct.segs
        R.done(ex)
    return Obligation("ed25519::GeP2::from_double_scalarmult_vartime ensures [a]A + [b]B, all recoded scalars", run, backend="loop invariants, every digit case of every iteration", cost=20)


# ---------------------------------------------------------------- recoding
class Bit:
    """A cell of the digit array that is 0 or 1, decided when it is read."""

    __slots__ = ("w", "j", "atom", "test")

    def __init__(self, d, j, g):
        self.w, self.j = -8, j
        self.atom = d.atom(0, 1, None, f"c{g}.{j}")
        self.test = d.fresh(f"c{g}.{j}", 1)
        d.bit_of[self.test.bits] = self


class Final:
    """A cell of the digit array that is final: one of ODD."""

    __slots__ = ("w", "j", "atom")

    def __init__(self, d, j):
        self.w, self.j = -8, j
        self.atom = d.atom(-15, 15, None, f"f{j}")


class SlideDomain(anf.Domain):
    def __init__(self):
        super().__init__()
        self.bit_of = {}
        self.natoms = 0
        self.ones = {}

    def atom(self, lo, hi, d, name):
        self.natoms += 1
        return self.natoms

    def concat(self, cells):
        c = cells[0]
        if len(cells) == 1 and type(c) is tuple and isinstance(c[0], Bit):
            return self.ex.branch(c[0].test)
        return super().concat(cells)

    def reset_path(self):
        super().reset_path()
        self.ones = {}

    def assume(self, c, v):
        super().assume(c, v)
        b = self.bit_of.get(c.bits)
        if b is not None:
            self.ones[b] = v


def ob_slide():
    dem = E5 + "slide"

    def run(R):
        import cut
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d = SlideDomain()
        ex = R.exe(d)
        d.ex = ex
        f = ex.m.by_dem[dem]
        loops = cut.natural_loops(ex, f)
        pred = cut.cfg(ex, f)[1]
        outer = [h for h in loops if any(g != h and g in loops[h] for g in loops)]
        outer = [h for h in outer if not any(g != h and h in loops[g] for g in loops)]
        inner = [h for h in loops if not any(g != h and g in loops[h] for g in loops) and sum(h in loops[g] for g in loops) == 3]
        if len(outer) != 1 or len(inner) != 1:
            raise ExecError("loops of slide")
        outer, inner = outer[0], inner[0]
        a = fresh_bytes(d, "a", 31) + [d.zext(5, 8, d.fresh("a31", 5))]
        pa = ptr_bytes(ex, a, "a")
        pr = ex.alloc(256, "r")
        rid = pr >> cut.SHIFT
        GEN = 9
        bits = [[Bit(d, j, g) for j in range(256)] for g in range(GEN)]
        final = [Final(d, j) for j in range(256)]
        abits = [b for c in a for b in d.bits(c, 8)]
        top = lambda i: 1 << (253 - i) if i <= 253 else 0  # bound of what remains before position i
        lazy = lambda c: c[0] if type(c) is tuple and c[1] == 0 and isinstance(c[0], (Bit, Final)) else None
        st = {"rel": {}, "gen": 0, "dep": None, "i": 0}

        def val(c, j):
            """Value of a cell as a polynomial."""
            x = lazy(c)
            if x is not None:
                return {(x.atom,): 1}
            if type(c) is int:
                return {(): c - 256 * (c > 127)} if c else {}
            raise ExecError("cell of the digit array")

        def total(lo=0):
            r = {}
            for j in range(lo, 256):
                for m, c in val(ex.cell(pr + j), j).items():
                    r[m] = r.get(m, 0) + (c << j)
            return {m: c for m, c in r.items() if c}

        def known(p):
            r = dict(p)
            for b, v in d.ones.items():
                c = r.pop((b.atom,), 0)
                if c and v:
                    r[()] = r.get((), 0) + c
            if not r.get((), 1):
                del r[()]
            return r

        def begin(ex):
            st["rel"], st["gen"], st["dep"], st["i"] = {}, 0, total(), ct.cur[1] - 1

        # -- the carry loop, once per position
        proven, clob = {}, {"regs": set(), "cells": set()}

        def position(objs):
            """The iterator's position: the only pointers into r kept in memory."""
            ks = {}
            for i, o in objs.items():
                if i == rid or o.s and len(o.s) == len(o.b):
                    continue
                for off in range(0, len(o.b) - 7, 8):
                    if o.s and any(q in o.s for q in range(off, off + 8)):
                        continue
                    v = int.from_bytes(o.b[off:off + 8], "little")
                    if v >> cut.SHIFT == rid:
                        ks.setdefault(i, []).append((off, v & (1 << cut.SHIFT) - 1))
            its = [(i, v) for i, v in ks.items() if len(v) == 2 and any(k == 256 for _, k in v)]
            return its

        def generic(self, r, it, k):
            """The state at the carry loop's head with everything it need not know undefined."""
            s = self.capture(inner, 0, r, [], None)
            for i, o in s.objs.items():
                if i == it:
                    continue
                o.s = o.s or {}
                for q in range(len(o.b)):
                    o.s[q] = UNDEF
            o = s.objs[rid]
            for q in range(k, 256):
                o.s[q] = (bits[0][q], 0)
            first = self.states[min(self.states)].regs
            for n, v in enumerate(s.regs):
                if not (type(v) is int and v >> cut.SHIFT in s.objs and first[n] == v):
                    s.regs[n] = UNDEF
            return s

        def find(self, r):
            for it, v in position(self.mutable()):
                k = min(q for _, q in v)
                if k < 256:
                    yield it, k

        def chain(self, r, it, k):
            saved = (ex.decisions, ex.pending, ex.path, dict(st))
            s = generic(self, r, it, k)
            blocks = self.f.compiled[0]
            exits = set()
            while k not in proven:
                proven[k] = s
                nxt = None
                for want in (0, 1):
                    if k == 255 and want:
                        continue  # excluded: the cells are not all one
                    self.restore(s)
                    ex.decisions, ex.pending, ex.path = [], [], []
                    d.assume(bits[0][k].test, want)
                    rr = list(s.regs)
                    blk = blocks[inner](rr, ex, self.frame)
                    while blk != inner and (blk in loops[inner] or len(pred[blk]) < 2):
                        blk = blocks[blk](rr, ex, self.frame)
                    if ex.path:
                        raise ExecError("the carry loop reads another cell")
                    R.require((blk == inner) == bool(want), "the carry loop stops at the first 0")
                    cells = [ex.cell(pr + j) for j in range(256)]
                    for j in range(256):
                        w = (UNDEF if j < k else (bits[0][j], 0)) if j != k else 1 - want
                        R.require(cells[j] is UNDEF if w is UNDEF else cells[j] == w, "the carry loop writes the incremented bits")
                    for i, o in self.mutable().items():
                        if i in s.objs and i != rid:
                            p = s.objs[i]
                            for q in range(len(o.b)):
                                x, y = (o.s or {}).get(q), (p.s or {}).get(q)
                                if not (x is y and o.b[q] == p.b[q]):
                                    clob["cells"].add((i, q))
                    for n, (x, y) in enumerate(zip(rr, s.regs)):
                        if x is not y and not (type(x) is int and type(y) is int and x == y):
                            clob["regs"].add(n)
                    if want:
                        its = [x for x in find(self, rr) if x == (it, k + 1)]
                        if not its:
                            raise ExecError("position of the carry loop")
                        nxt = generic(self, rr, it, k + 1)
                    else:
                        exits.add(blk)
                k += 1
                if nxt is None:
                    break
                s = nxt
            ex.decisions, ex.pending, ex.path = saved[:3]
            st.update(saved[3])
            if len(exits) > 1:
                raise ExecError("exits of the carry loop")
            if exits:
                st["exit"] = exits.pop()

        def covers(g, n):
            """Whether state n is an instance of the generic state g."""
            for x, y in zip(g.regs, n.regs):
                if x is not UNDEF and not cut.same_value(d, x, y):
                    return False
            for i, o in g.objs.items():
                p = n.objs.get(i)
                if p is None:
                    return False
                for q in range(len(o.b)):
                    x = (o.s or {}).get(q)
                    y = (p.s or {}).get(q)
                    if x is UNDEF or i == rid:
                        continue
                    if not cut.same_cell(d, o.b[q] if x is None else x, p.b[q] if y is None else y):
                        return False
            return True

        def summary(self, blk, r):
            path, facts0 = list(ex.path), dict(d.ones)
            allfacts = list(self.curfacts) + path
            now = self.capture(blk, 0, r, allfacts, None)
            ks = list(find(self, r))
            if len(ks) != 1:
                raise ExecError("position of the carry loop")
            it, k = ks[0]
            if k not in proven:
                chain(self, r, it, k)
                self.restore(now)
            if not covers(proven[k], now):
                raise ExecError("the carry loop is entered in another state")
            # the cells from k on hold bits; adding 1 does not overflow them
            i = st["i"]
            for j in range(k, 256):
                c = ex.cell(pr + j)
                if not (isinstance(lazy(c), Bit) or type(c) is int and c in (0, 1)):
                    raise Unproved("the carry loop runs over cells that are not bits")
            ones = sum(v << b.j for b, v in d.ones.items() if b in bits[0] and b.j >= i) >> i
            if ones > top(i):
                pass  # more than can remain: not a path
            else:
                cur = ex.cell(pr + i)
                cur = val(cur, i).get((), None) if type(cur) is int else None
                if cur is None:
                    raise ExecError("the digit being made is not known")
                # remaining * 2^(k-i) + cur = what remained <= top(i), once the carry is in
                if (top(i) - cur) >> (k - i) >= 1 << 256 - k:
                    raise Unproved("the carry can be lost")
            g = st["gen"] = st["gen"] + 1
            if g >= GEN:
                raise ExecError("too many carries")
            rel = padd(total(k), {(): 1 << k})
            for j in range(k, 256):
                ex.put(pr + j, [(bits[g][j], 0)])
            st["rel"] = padd(padd(st["rel"], rel), total(k), -1)
            for i, q in clob["cells"]:
                o = ex.objs[i]
                o.s = o.s or {}
                o.s[q] = UNDEF
            for n in clob["regs"]:
                r[n] = UNDEF
            return st["exit"]

        def preserved():
            diff = padd(padd(total(), st["dep"], -1), st["rel"])
            R.require(not known(diff), "the digits' sum is preserved")

        def arrive(ex, blk, n, r, ghost):
            i = n - 1
            cells = [ex.cell(pr + j) for j in range(256)]
            if i == 0:
                for j, c in enumerate(cells):
                    v = ex.ld(pr + j, 1)
                    w = d.mk([abits[j]] + [frozenset()] * 7)
                    R.same(d, v, w, 8, f"r[{j}] is bit {j} of the scalar")
            else:
                preserved()
                # what remains is at most top(i)
                dig = val(cells[i - 1], i - 1) if type(cells[i - 1]) is int else {}
                x = lazy(cells[i - 1])
                if x is not None:
                    v = d.ones.get(x)
                    if v is None:
                        raise ExecError("digit not known")
                    dig = v
                else:
                    dig = dig.get((), 0)
                R.require(dig in ODD, f"digit {dig}")
                if dig < 0:
                    t = l = 0
                    for j in range(i, 256):
                        c = cells[j]
                        v = c if type(c) is int else d.ones.get(lazy(c))
                        if v is None:
                            break
                        l |= v << t
                        t += 1
                    ones = sum(v << b.j for b, v in d.ones.items() if b in bits[0] and b.j >= i - 1) >> (i - 1)
                    B = top(i - 1)
                    m = 1 << t + 1
                    bad = [x for x in range(B + 1, B - dig + 1) if (x - 2 * l) % m == 0]
                    if ones <= B and bad:
                        raise Unproved("bound of what remains to be recoded")
                    R.checks += 1
            for j in range(256):
                c = cells[j]
                x = lazy(c)
                if j < i:
                    R.require(isinstance(x, (Bit, Final)) or type(c) is int and (c - 256 * (c > 127)) in ODD, f"digit {j} is 0 or odd, at most 15")
                    ex.put(pr + j, [(final[j], 0)])
                else:
                    if i and not (isinstance(x, Bit) or type(c) is int and c in (0, 1)):
                        raise Unproved(f"cell {j} is a bit")
                    ex.put(pr + j, [(bits[0][j], 0)])
            return None

        returned = []

        def ret(ex, v, ghost):
            for j in range(256):
                c = ex.cell(pr + j)
                R.require(isinstance(lazy(c), (Bit, Final)) or type(c) is int and (c - 256 * (c > 127)) in ODD, f"digit {j} is 0 or odd, at most 15")
            preserved()
            returned.append(1)
        ct = cut.Cutter(ex, dem, [pr, pa, 32], arrive, ret, begin=begin, cuts=[outer], summaries={inner: summary})
        ct.dropfact = lambda x: True
        ct.run()
        R.require(returned, "the function returns")
        R.require(max(n for n, _, _ in ct.states) == 257, "256 digits")
        R.paths += ct.segs
        R.done(ex)
    return Obligation("ed25519::slide ensures the digits' sum is the scalar, every digit 0 or odd within +-15, scalars below 2^253", run, backend="loop invariants: linear sum over bits, carry loop by induction on its position", cost=20)
