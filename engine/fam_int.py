"""Contracts for the arithmetic kernels: field elements modulo 2^255-19, Poly1305, scalars modulo the group order."""
import random

import intdom
from fam_sym import fresh_bytes, ptr_bytes, paths
from intdom import IV, key, padd, pmul, pscale
from ir import ExecError, Panic, Unproved, explore
from prove import Failed, Obligation

P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
EXP = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230]
FE = "<crypto_pure::curve25519::Fe>::"
C = "crypto_pure::curve25519::"


def bound(m, d=100):
    """Per-limb bounds m/d * 2^26, m/d * 2^25, alternating."""
    return [m * (1 << (26 if i % 2 == 0 else 25)) // d for i in range(10)]


IN = bound(165)       # what a multiplication accepts
OUT = bound(101, 200)  # what it returns
WIDE = bound(110)     # what mul121666 and write_bytes accept


def fe_atoms(d, name, b):
    return [d.iatom(f"{name}{i}", 32, -x, x) for i, x in enumerate(b)]


def fe_put(ex, p, limbs):
    for i, v in enumerate(limbs):
        ex.st(p + 4 * i, 4, v)


def fe_new(ex, limbs, name="fe", ro=False):
    p = ex.alloc(40, name)
    fe_put(ex, p, limbs)
    if ro:
        ex.objs[p >> 44].ro = True
    return p


def fe_get(ex, p):
    return [ex.d.signed(ex.ld(p + 4 * i, 4), 32) for i in range(10)]


def fe_val(limbs):
    r = {}
    for v, e in zip(limbs, EXP):
        r = padd(r, v.p, 1 << e)
    return r


def check_cong(R, d, got, want, m, msg):
    """got = want (mod m) as polynomials over the atoms; a difference is searched for a witness."""
    R.checks += 1
    diff = padd(got, want, -1)
    if d.zero_mod(diff, m):
        return
    for env in d.points():
        if d.evaluate(diff, env) % m:
            d.pointed = True
            w = {d.aname[a]: v for a, v in list(env.items()) if d.adef[a] is None}
            e = Failed(f"{msg}: counterexample {w}")
            e.pointed = True
            raise e
    raise Unproved(f"{msg}: not congruent in canonical form")


def check_bound(R, d, limbs, b, msg):
    for i, (v, x) in enumerate(zip(limbs, b)):
        R.checks += 1
        if not (-x <= v.lo and v.hi <= x) and not d.prove_range(v.p, -x, x):
            raise Unproved(f"{msg}: limb {i} in [{v.lo}, {v.hi}], contract allows {x}")


def idom(R):
    d = intdom.Domain()
    return d, R.exe(d)


def fe_op(name, dem, call, inputs, want, out=OUT):
    """call(ex, out pointer, input pointers) runs the real function."""
    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = idom(R)
        ins = [fe_atoms(d, "fgxyz"[i], b) for i, b in enumerate(inputs)]
        o = call(R, ex, dem, ins)
        got = fe_get(ex, o)
        check_bound(R, d, got, out, name)
        check_cong(R, d, fe_val(got), want(*[fe_val(x) for x in ins]), P, name)
        R.done(ex)
    return Obligation(f"curve25519::{name}", run, backend="intervals + polynomial identity mod p", cost=2)


def to_out(R, ex, dem, ins):
    o = ex.alloc(40, "out")
    ex.call_dem(dem, o, *[fe_new(ex, i, "in", True) for i in ins])
    return o


def in_place(R, ex, dem, ins):
    o = fe_new(ex, ins[0], "self")
    ex.call_dem(dem, o, *[fe_new(ex, i, "in", True) for i in ins[1:]])
    return o


def in_place2(R, ex, dem, ins):
    """self is &mut &mut Fe"""
    o = fe_new(ex, ins[0], "self")
    q = ex.alloc(8, "ref")
    ex.st(q, 8, o)
    ex.call_dem(dem, q, *[fe_new(ex, i, "in", True) for i in ins[1:]])
    return o


MULV = "<crypto_pure::curve25519::Fe as core::ops::arith::MulAssign<&crypto_pure::curve25519::Fe>>::mul_assign"
MULR = "<&mut crypto_pure::curve25519::Fe as core::ops::arith::MulAssign<&crypto_pure::curve25519::Fe>>::mul_assign"


def obs_fe():
    sq = lambda f: pmul(f, f)
    return [
        fe_op("Fe::assign_product ensures h = f*g, |h| within bounds", FE + "assign_product", to_out, [IN, IN], pmul),
        fe_op("Fe *= g ensures f*g", MULV, in_place, [IN, IN], pmul),
        fe_op("(&mut Fe) *= g ensures f*g", MULR, in_place2, [IN, IN], pmul),
        fe_op("Fe::assign_square ensures h = f^2", FE + "assign_square", to_out, [IN], sq),
        fe_op("Fe::square ensures f^2", FE + "square", in_place, [IN], sq),
        fe_op("Fe::assign_twice_square ensures 2 f^2", FE + "assign_twice_square", to_out, [IN], lambda f: pscale(pmul(f, f), 2)),
        fe_op("Fe::mul121666 ensures 121666 f", FE + "mul121666", to_out, [WIDE], lambda f: pscale(f, 121666)),
    ]


def le(d, cells):
    """Polynomial of the little-endian value of byte cells."""
    r = {}
    for i, c in enumerate(cells):
        r = padd(r, d.unsigned(c, 8).p, 1 << 8 * i)
    return r


def ob_from_bytes():
    dem = FE + "assign_from_bytes"

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = idom(R)
        s = d.ibytes("s", 32)
        o = fe_new(ex, [d.iatom(f"old{i}", 32, -2**31, 2**31 - 1) for i in range(10)], "self")
        ex.call_dem(dem, o, ptr_bytes(ex, s, "bytes"), 32)
        got = fe_get(ex, o)
        check_bound(R, d, got, OUT, "assign_from_bytes")
        check_cong(R, d, fe_val(got), le(d, s[:31] + [d.mod2(s[31], 7)]), P, "assign_from_bytes")
        R.done(ex)
    return Obligation("curve25519::Fe::assign_from_bytes ensures value = low 255 bits mod p, |h| within bounds", run, backend="intervals + polynomial identity mod p", cost=1)


def ob_write_bytes():
    dem = FE + "write_bytes"

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = idom(R)
        f = fe_atoms(d, "f", WIDE)
        o = ex.alloc(32, "bytes")
        ex.put(o, d.ibytes("old", 32))
        ex.call_dem(dem, fe_new(ex, f, "self", True), o, 32)
        v = le(d, ex.get(o, 32))
        check_canonical(R, d, v, fe_val(f), P, 255, "write_bytes")
        R.done(ex)
    return Obligation("curve25519::Fe::write_bytes ensures bytes = the representative of the value in [0, p)", run, backend="polynomial identity mod p + z3 linear integer arithmetic", cost=3)


def signs(d, v, depth=3):
    """Atoms under the terms of v that are the sign of a value taken modulo a power of two."""
    out, seen = [], set()

    def walk(p, n):
        for a in {a for k in p if len(k) == 1 for a in k} - seen:
            seen.add(a)
            f = d.adef[a]
            if f and f[0] == "floor" and n:
                if d.alo[a] == -1 and d.ahi[a] == 0 and n < depth:
                    out.append(a)
                walk(f[1], n - 1)
    walk(v, depth)
    return out


def check_canonical(R, d, v, want, m, bits, msg):
    """v = want (mod m) and 0 <= v < m."""
    R.checks += 2
    ok = False
    for last, nt, tmo in ((26, 0, 1500), (26, 100, 1500), (60, 250, 4000), (None, 0, 4000), (26, 0, 12000), (None, 0, 12000)):
        extra = d.tight[-nt:] if nt else ()
        if last:
            top = sorted((k[0] for k in v if len(k) == 1 and d.adef[k[0]] and d.adef[k[0]][0] == "floor"), reverse=True)[:2]
            for a in signs(d, v) + top:
                d.tighten(a, [(0, 0), (-1, 0), (0, 1)], last, extra, tmo)
        if d.prove_range(v, 0, m - 1, last, 2 * tmo, extra):
            ok = True
            break
    if not ok:
        for env in d.points():
            if not 0 <= d.evaluate(v, env) < m:
                d.pointed = True
                raise Failed(f"{msg}: not canonical: counterexample { {d.aname[a]: x for a, x in env.items() if d.adef[a] is None} }")
        raise Unproved(msg + ": result not shown to be canonical")
    diff = padd(v, want, -1)
    if d.zero_mod(diff, m):
        return
    # v = want + 19 q - 2^255 c with different atoms: equal atoms are shown equal first
    rest = {k: c % m for k, c in d.reduce_known(d.expand(diff)).items() if c % m}
    ks = list(rest)
    for i in range(len(ks)):
        for j in range(i + 1, len(ks)):
            if (rest.get(ks[i], 0) + rest.get(ks[j], 0)) % m == 0 and d.prove_range({ks[i]: 1, ks[j]: -1}, 0, 0):
                rest.pop(ks[i]), rest.pop(ks[j])
    if rest:
        check_cong(R, d, v, want, m, msg)


# ---------------------------------------------------------------- scalars modulo the group order
E5 = "crypto_pure::ed25519::"


def ob_sc_reduce():
    dem = E5 + "sc_reduce"

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = idom(R)
        s = d.ibytes("s", 64)
        p = ptr_bytes(ex, s, "s", ro=False)
        ex.call_dem(dem, p)
        v = le(d, ex.get(p, 32))
        check_canonical(R, d, v, le(d, s), L, 256, "sc_reduce")
        R.done(ex)
    return Obligation("ed25519::sc_reduce ensures s[..32] = s mod L, in [0, L)", run, backend="polynomial identity mod L + z3 linear integer arithmetic", cost=5)


def ob_sc_muladd():
    dem = E5 + "sc_muladd"

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = idom(R)
        a, b, c = (d.ibytes(n, 32) for n in "abc")
        mk = lambda x, n: ptr_bytes(ex, x + d.ibytes(n + "'", 32), n)
        o = ex.alloc(32, "s")
        ex.call_dem(dem, o, 32, mk(a, "a"), mk(b, "b"), mk(c, "c"))
        v = le(d, ex.get(o, 32))
        check_canonical(R, d, v, padd(pmul(le(d, a), le(d, b)), le(d, c)), L, 256, "sc_muladd")
        R.done(ex)
    return Obligation("ed25519::sc_muladd ensures s = a b + c mod L, in [0, L)", run, backend="polynomial identity mod L + z3 linear integer arithmetic", cost=5)


def ob_sc_canonical():
    dem = E5 + "sc_is_canonical"

    def bytewise(R):
        """Path by path over the bytes as integers."""
        def body(ex):
            s = ex.d.ibytes("s", 32)
            r = ex.call_dem(dem, ptr_bytes(ex, s, "s"), 32)
            return s, r if type(r) is int else int(ex.branch(r))
        for path, res, ex in explore(lambda: idom(R)[1], body):
            R.paths += 1
            if res[0] != "ok":
                raise Failed(f"sc_is_canonical panics: {res[1]}")
            s, r = res[1]
            R.checks += 1
            if not ex.d.prove_range(le(ex.d, s), *((0, L - 1) if r else (L, 2**256 - 1))):
                raise Unproved(f"sc_is_canonical returns {r} on a path where s {'>=' if r else '<'} L is possible")
            R.done(ex)

    def bitwise(R):
        """As a circuit over the 256 bits, by a solver for bit vectors."""
        def body(ex):
            s = fresh_bytes(ex.d, "s", 32)
            return s, ex.call_dem(dem, ptr_bytes(ex, s, "s"), 32)
        for path, res, ex in explore(R.exe, body):
            d = ex.d
            R.paths += 1
            R.require(res[0] == "ok", f"sc_is_canonical panics: {res[1]}")
            s, r = res[1]
            v = d.mk([b for c in s for b in d.bits(c, 8)])
            R.same(d, r, d.icmp("ult", 256, v, L), 1, "sc_is_canonical against s < L")
            R.done(ex)

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        try:
            bytewise(R)
        except (ExecError, Unproved):
            bitwise(R)
    return Obligation("ed25519::sc_is_canonical ensures result = (s < L)", run, backend="z3 linear integer arithmetic per path", cost=2)


# ---------------------------------------------------------------- Poly1305
PF = "<crypto_pure::poly1305::PolyFunction>::"
P130 = 2**130 - 5
HB = [255] * 16 + [4]  # bounds of the accumulator limbs between calls


def clamp_mask(i):
    return 15 if i in (3, 7, 11, 15) else 252 if i in (4, 8, 12) else 255


class Poly:
    """A PolyFunction object made by the real constructor from a symbolic key."""

    def __init__(self, R, d, ex):
        for n in ("new", "process", "write_value"):
            if not R.has(PF + n):
                raise ExecError("anchor lost: " + PF + n)
        self.R, self.d, self.ex = R, d, ex
        self.key = d.ibytes("k", 32)
        self.size = ex.m.by_dem[PF + "new"].sret
        self.p = ex.alloc(self.size, "function")
        ex.call_dem(PF + "new", self.p, ptr_bytes(ex, self.key, "key"))
        r = {}
        for i in range(16):
            m = clamp_mask(i)
            b = self.key[i]
            v = b.p if m == 255 else d._mask(8, b, m).p
            r = padd(r, v, 1 << 8 * i)
        self.r = r
        self.s = le(d, self.key[16:])
        self.before = ex.get(self.p, self.size)

    def find(self):
        """The accumulator: the 17 words that process changes."""
        R, d, ex = self.R, self.d, self.ex
        ex2 = R.exe(intdom.Domain())
        q = Poly(R, ex2.d, ex2)
        ex2.forks = True  # one path will do: the frame condition of process confirms what is found here
        ex2.call_dem(PF + "process", q.p, ptr_bytes(ex2, ex2.d.ibytes("c", 16), "block"), 16)
        after = ex2.get(q.p, q.size)
        ch = [i for i, (x, y) in enumerate(zip(q.before, after)) if x != y and not (type(x) is tuple and type(y) is tuple and x[0] is y[0] and x[1] == y[1])]
        if not ch:
            raise Failed("process does not change the state")
        self.off = min(ch) & ~3
        if self.off + 68 < max(ch) + 1 or self.off + 68 > self.size:
            raise ExecError("accumulator is not 17 words")
        if any(type(c) is not int or c for c in self.before[self.off : self.off + 68]):
            raise Failed("the accumulator does not start at zero")
        return self

    def havoc(self):
        h = [self.d.iatom(f"h{i}", 32, 0, b) for i, b in enumerate(HB)]
        for i, v in enumerate(h):
            self.ex.st(self.p + self.off + 4 * i, 4, v)
        self.h0 = {}
        for i, v in enumerate(h):
            self.h0 = padd(self.h0, v.p, 1 << 8 * i)
        return self


def obs_poly():
    def process(R):
        d, ex = idom(R)
        q = Poly(R, d, ex).find().havoc()
        c = d.ibytes("c", 16)
        was = ex.get(q.p, q.size)
        ex.call_dem(PF + "process", q.p, ptr_bytes(ex, c, "block"), 16)
        h = [d.unsigned(ex.ld(q.p + q.off + 4 * i, 4), 32) for i in range(17)]
        v = {}
        for i, x in enumerate(h):
            R.checks += 1
            if x.hi > HB[i] and not d.prove_range(x.p, 0, HB[i]):
                raise Unproved(f"accumulator limb {i} may exceed its bound: [{x.lo}, {x.hi}]")
            v = padd(v, x.p, 1 << 8 * i)
        check_cong(R, d, v, pmul(padd(padd(q.h0, le(d, c)), {(): 1 << 128}), q.r), P130, "h' = (h + c + 2^128) r mod 2^130-5")
        now = ex.get(q.p, q.size)
        for i, (x, y) in enumerate(zip(was, now)):
            if not q.off <= i < q.off + 68:
                R.require(x == y or (type(x) is tuple and type(y) is tuple and x[1] == y[1] and (x[0] is y[0])), f"process changes byte {i} of the key material")
        R.done(ex)

    def value(R):
        n = 0
        for path, res, ex in explore(lambda: idom(R)[1], lambda ex: value_body(R, ex)):
            n += 1
            if res[0] != "ok":
                raise Failed(f"write_value panics: {res[1]}")
            q, out = res[1]
            d = ex.d
            v = le(d, out)
            for k in (0, 1):
                if d.prove_range(padd(q.h0, {(): -k * P130}), 0, P130 - 1):
                    check_cong(R, d, v, padd(padd(q.h0, q.s), {(): -k * P130}), 1 << 128, "tag = (h mod 2^130-5) + s mod 2^128")
                    break
            else:
                for f in (0, 1):  # a state on this path whose reduction is neither
                    pass
                raise Unproved("write_value does not reduce the accumulator fully on a path")
            R.done(ex)
        R.paths += n

    def value_body(R, ex):
        q = Poly(R, ex.d, ex).find().havoc()
        o = ex.alloc(16, "tag")
        ex.call_dem(PF + "write_value", q.p, o)
        return q, ex.get(o, 16)
    return [
        Obligation("poly1305::PolyFunction::{new, process}: r clamped, h' = (h + c + 2^128) r mod 2^130-5, limbs within bounds, key unchanged", process,
                   backend="intervals + polynomial identity mod 2^130-5", cost=3),
        Obligation("poly1305::PolyFunction::write_value ensures tag = (h mod 2^130-5) + s mod 2^128", value, backend="polynomial identity + z3 linear integer arithmetic", cost=3),
    ]
