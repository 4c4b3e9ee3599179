"""Field-level contracts: X25519, and the domain in which a field element is a polynomial over F_p.

An Fe under contract is a value (polynomial modulo p over field unknowns, exponents may be large) together
with bounds of its ten limbs.  The contracts of the arithmetic functions are stated once (OPS, LIN, POW);
the obligations in obs_fe_contracts/fam_int discharge them against the code, and fe_contracts() replaces
calls by them, checking the precondition (limb bounds) at every call.
"""
import anf
import fam_int
import intdom
import ref
from anf import BV
from fam_int import C, E5, EXP, FE, IN, MULR, MULV, OUT, P, WIDE, check_bound, fe_atoms, fe_get, fe_new, fe_val
from fam_sym import Part, concat_parts, fresh_bytes, paths, ptr_bytes
from intdom import IV, padd, pmul, pscale
from ir import UNDEF, ExecError, Panic, Unproved, explore
from prove import Failed, Obligation, Token

MAXMONO = 6000


# ---------------------------------------------------------------- polynomials over F_p
def fadd(a, b, m=1):
    r = dict(a)
    for k, c in b.items():
        v = (r.get(k, 0) + m * c) % P
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


def fscale(a, m):
    m %= P
    return {k: c * m % P for k, c in a.items()} if m else {}


def fconst(c):
    c %= P
    return {(): c} if c else {}


def fkey(a):
    return frozenset(a.items())


class FeTok:
    """40 bytes holding a field element known by contract only: value and limb bounds."""

    __slots__ = ("w", "bounds", "poly", "base")

    def __init__(self, bounds, poly):
        self.w, self.bounds, self.poly, self.base = 320, bounds, poly, None

    def __repr__(self):
        return f"<Fe {len(self.poly)} terms>"


def sym(b):
    return [(-x, x) for x in b]


class Domain(intdom.Domain):
    name = "polynomials over F_p"

    def __init__(self):
        super().__init__()
        self.fname = ["1"]
        self.isbit = [False]
        self.group = {}     # first limb atom -> value
        self.limb = {}      # limb atom -> (first limb atom, index)
        self.cuts = {}
        self.interned = {}
        self.wb = {}
        self.wbkey = {}
        self.bitof = {}
        self.fromb = {}

    def fvar(self, name, bit=False):
        self.fname.append(name)
        self.isbit.append(bit)
        return {((len(self.fname) - 1, 1),): 1}

    def fmono(self, k, l):
        if not k:
            return l
        if not l:
            return k
        m = dict(k)
        for a, e in l:
            m[a] = 1 if self.isbit[a] else m.get(a, 0) + e
        return tuple(sorted(m.items()))

    def fmul(self, a, b):
        if len(a) * len(b) > MAXMONO:
            raise ExecError("field expression too large")
        r = {}
        for k, c in a.items():
            for l, e in b.items():
                n = self.fmono(k, l)
                v = (r.get(n, 0) + c * e) % P
                if v:
                    r[n] = v
                else:
                    r.pop(n, None)
        return self.reduce(r)

    def reduce(self, r):
        return r

    def fpow(self, a, e):
        """a^e for a large e: the base is named if it is not a monomial."""
        if not a:
            return {}
        if len(a) > 1:
            a = self.intern(a)
        (k, c), = a.items()
        return {tuple((x, 1 if self.isbit[x] else n * e) for x, n in k): pow(c, e, P)}

    def intern(self, a, name="named"):
        k = fkey(a)
        v = self.interned.get(k)
        if v is None:
            v = self.interned[k] = self.fvar(name)
        return v

    def cut(self, a):
        return self.cuts.get(fkey(a), a)

    def bit(self, b):
        """A bit (polynomial over GF(2)) as an element of F_p."""
        r = {}
        for mono in b:
            t = {(): 1}
            for v in self.monoset[mono]:
                x = self.bitof.get(v)
                if x is None:
                    x = self.bitof[v] = self.fvar(f"bit {self.names[v]}", True)
                t = self.fmul(t, x)
            r = fadd(fadd(r, t), self.fmul(r, t), -2)
        return r

    # ---- memory
    def concat(self, cells):
        c0 = cells[0]
        if type(c0) is tuple and isinstance(c0[0], FeTok):
            t, o = c0
            if all(type(c) is tuple and c[0] is t and c[1] == o + i for i, c in enumerate(cells)):
                if o == 0 and len(cells) == 40:
                    return t
                if len(cells) == 4 and o % 4 == 0:
                    return self.limb_of(t, o // 4)
            raise ExecError("reading part of a field element")
        return super().concat(cells)

    def limb_of(self, t, i):
        if t.base is None:
            t.base = len(self.alo)
            for j, (l, h) in enumerate(t.bounds):
                a = self.atom(l, h, None, f"limb{j}")
                self.limb[a] = (t.base, j)
            self.group[t.base] = t.poly
        a = t.base + i
        return self.mkiv(32, {(a,): 1}, self.alo[a], self.ahi[a])

    def fe(self, ex, p):
        """The field element at p as an FeTok."""
        o, off = ex.obj(p, 40)
        if o.s:
            c = o.s.get(off)
            if c is not None and c is not UNDEF and isinstance(c[0], FeTok) and c[1] == 0:
                t = c[0]
                if all(o.s.get(off + i) is not None and o.s[off + i] is not UNDEF and o.s[off + i][0] is t and o.s[off + i][1] == i for i in range(1, 40)):
                    return t
        limbs = fe_get(ex, p)
        v = self.expand(fe_val(limbs))
        bounds = [(x.lo, x.hi) for x in limbs]
        v = {k: c % P for k, c in self.reduce_known(v).items() if c % P}
        if all(len(k) == 0 for k in v):
            return FeTok(bounds, fconst(v.get((), 0)))
        poly, cand = {}, {}
        for k, c in v.items():
            if all(a in self.limb for a in k) and all(self.limb[a][1] == 0 for a in k):
                t, u = {(): c}, {(): c}
                for a in k:
                    g = self.limb[a][0]
                    t = self.fmul(t, self.group[g])
                    u = pmul(u, {(g + j,): 1 << EXP[j] for j in range(10)})
                poly = fadd(poly, t)
                cand = padd(cand, u)
        if any(c % P for c in self.reduce_known(padd(v, cand, -1)).values()):
            raise ExecError("limbs do not form a field expression")
        return FeTok(bounds, poly)

    def put_fe(self, ex, p, bounds, poly):
        ex.st(p, 40, FeTok(bounds, self.cut(poly)))

    def need(self, t, b, what):
        for i, ((l, h), x) in enumerate(zip(t.bounds, b)):
            if not (-x <= l and h <= x):
                raise Unproved(f"precondition of {what}: limb {i} in [{l}, {h}], needs +-{x}")


class IntRing:
    """Ring operations on integer polynomials (for the proofs of the contracts)."""

    mul = staticmethod(pmul)
    add = staticmethod(padd)
    scale = staticmethod(pscale)


class FpRing:
    def __init__(self, d):
        self.mul, self.add, self.scale = d.fmul, fadd, fscale


# name -> (shape, preconditions of the inputs, value, bounds of the result)
# shape: o = result pointer, s = in place, r = in place through a reference, i = input pointer
ARITH = {
    FE + "assign_product": ("oii", [IN, IN], lambda R, f, g: R.mul(f, g)),
    MULV: ("si", [IN, IN], lambda R, f, g: R.mul(f, g)),
    MULR: ("ri", [IN, IN], lambda R, f, g: R.mul(f, g)),
    FE + "assign_square": ("oi", [IN], lambda R, f: R.mul(f, f)),
    FE + "square": ("s", [IN], lambda R, f: R.mul(f, f)),
    FE + "assign_twice_square": ("oi", [IN], lambda R, f: R.scale(R.mul(f, f), 2)),
    FE + "mul121666": ("oi", [WIDE], lambda R, f: R.scale(f, 121666)),
}
AS = lambda op, t: f"<{t} as core::ops::arith::{op}Assign<&crypto_pure::curve25519::Fe>>::{op.lower()}_assign"
FV, FR = "crypto_pure::curve25519::Fe", "&mut crypto_pure::curve25519::Fe"
# limb-wise: the result is the combination of the inputs with these coefficients
LIN = {
    FE + "assign_sum": ("oii", [1, 1]),
    FE + "assign_difference": ("oii", [1, -1]),
    FE + "subtract_from": ("si", [-1, 1]),
    FE + "neg": ("s", [-1]),
    FE + "assign_neg": ("oi", [-1]),
    AS("Add", FV): ("si", [1, 1]),
    AS("Add", FR): ("ri", [1, 1]),
    AS("Sub", FV): ("si", [1, -1]),
    AS("Sub", FR): ("ri", [1, -1]),
}
POW = {FE + "invert": ("s", P - 2), FE + "inverse": ("oi", P - 2), FE + "pow22523": ("s", (P - 5) // 8)}
SHORT = lambda dem: dem.replace("crypto_pure::curve25519::", "").replace("core::ops::arith::", "")


def shape_in(shape, args, ex):
    """(result pointer, input pointers)"""
    args = list(args)
    if len(args) != len(shape):
        raise ExecError("arity of a field operation")
    if shape[0] == "r":
        args[0] = ex.ld(args[0], 8)
    return args[0], (args[1:] if shape[0] == "o" else args)


def fe_contracts(R, only=None, skip=()):
    """Overrides for all field operations present in the code."""
    ov = {}

    def arith(dem, shape, pre, val):
        def h(ex, *args):
            d = ex.d
            o, ins = shape_in(shape, args, ex)
            ts = [d.fe(ex, p) for p in ins]
            for t, b in zip(ts, pre):
                d.need(t, b, SHORT(dem))
            d.put_fe(ex, o, sym(OUT), val(FpRing(d), *[t.poly for t in ts]))
            d.obligations += 1
        return h

    def lin(dem, shape, co):
        def h(ex, *args):
            d = ex.d
            o, ins = shape_in(shape, args, ex)
            ts = [d.fe(ex, p) for p in ins]
            bounds = []
            for j in range(10):
                l = sum(c * t.bounds[j][0 if c > 0 else 1] for c, t in zip(co, ts))
                u = sum(c * t.bounds[j][1 if c > 0 else 0] for c, t in zip(co, ts))
                if l < -(1 << 31) or u >= 1 << 31:
                    raise Unproved(f"possible overflow in {SHORT(dem)}: limb {j} in [{l}, {u}]")
                bounds.append((l, u))
            v = {}
            for c, t in zip(co, ts):
                v = fadd(v, t.poly, c)
            d.put_fe(ex, o, bounds, v)
            d.obligations += 1
        return h

    def power(dem, shape, e):
        def h(ex, *args):
            d = ex.d
            o, ins = shape_in(shape, args, ex)
            t = d.fe(ex, ins[0])
            d.need(t, IN, SHORT(dem))
            d.put_fe(ex, o, sym(OUT), d.fpow(t.poly, e))
        return h
    for dem, (shape, pre, val) in ARITH.items():
        ov[dem] = arith(dem, shape, pre, val)
    for dem, (shape, co) in LIN.items():
        ov[dem] = lin(dem, shape, co)
    for dem, (shape, e) in POW.items():
        ov[dem] = power(dem, shape, e)
    ov[FE + "assign_from_bytes"] = c_from_bytes
    ov[FE + "write_bytes"] = c_write_bytes
    ov[FE + "cswap_with"] = c_cswap
    ov[FE + "cmov_from"] = c_cmov
    ov[FE + "is_nonzero"] = c_is_nonzero
    return {k: v for k, v in ov.items() if R.has(k) and k not in skip and (only is None or k in only)}


def cellkey(d, cells):
    out = []
    for c in cells:
        out.append(c if type(c) is int else d.bits(c, 8))
    return tuple(out)


def c_from_bytes(ex, p, s, n):
    if n != 32:
        raise ExecError("assign_from_bytes on a slice of another length")
    d = ex.d
    d.put_fe(ex, p, sym(OUT), bytes_value(d, ex.get(s, 32)))


def bytes_value(d, cells):
    """The field element that 32 bytes encode (bit 255 ignored)."""
    cells = list(cells)
    top = d.binop("and", 8, cells[31], 127) if type(cells[31]) is not int else cells[31] & 127
    cells[31] = top
    if all(type(c) is int for c in cells):
        return fconst(int.from_bytes(bytes(cells), "little"))
    k = cellkey(d, cells)
    if k in d.wbkey:
        return d.wbkey[k]
    v = d.fromb.get(k)
    if v is None:
        v = d.fromb[k] = d.fvar("bytes")
    return v


def c_write_bytes(ex, p, s, n):
    if n != 32:
        raise Panic("write_bytes: assertion on the length")
    d = ex.d
    t = d.fe(ex, p)
    d.need(t, WIDE, "write_bytes")
    ex.put(s, encode(d, t.poly))


def encode(d, poly):
    """The canonical encoding of a field value: 32 bytes."""
    if all(k == () for k in poly):
        return list(poly.get((), 0).to_bytes(32, "little"))
    k = fkey(poly)
    b = d.wb.get(k)
    if b is None:
        b = fresh_bytes(d, f"enc{len(d.wb)}.", 31)
        b.append(d.zext(7, 8, d.fresh(f"enc{len(d.wb)}.31", 7)))
        d.wb[k] = b
        d.wbkey[cellkey(d, b)] = poly
    return b


def flag(d, b):
    """An i32 or u32 argument that is 0 or 1, as a bit."""
    if type(b) is int:
        if b > 1:
            raise Unproved("precondition: flag is 0 or 1")
        return frozenset([0]) if b else frozenset()
    bits = d.bits(b, 32)
    if any(bits[1:]):
        raise Unproved("precondition: flag is 0 or 1")
    return bits[0]


def union(a, b):
    return [(min(x[0], y[0]), max(x[1], y[1])) for x, y in zip(a, b)]


def c_cswap(ex, f, g, b):
    d = ex.d
    b = d.bit(flag(d, b))
    x, y = d.fe(ex, f), d.fe(ex, g)
    if not b:
        return
    t = d.fmul(b, fadd(y.poly, x.poly, -1))
    u = union(x.bounds, y.bounds)
    d.put_fe(ex, f, u, fadd(x.poly, t))
    d.put_fe(ex, g, u, fadd(y.poly, t, -1))


def c_cmov(ex, f, g, b):
    d = ex.d
    b = d.bit(flag(d, b))
    x, y = d.fe(ex, f), d.fe(ex, g)
    if not b:
        return
    d.put_fe(ex, f, union(x.bounds, y.bounds), fadd(x.poly, d.fmul(b, fadd(y.poly, x.poly, -1))))


def norm(poly):
    """A multiple of the polynomial with a fixed leading coefficient: same zeros."""
    k = max(poly)
    return fscale(poly, pow(poly[k], P - 2, P))


def is_zero(d, poly):
    """The condition poly = 0 (one unknown bit per polynomial up to a factor)."""
    if all(k == () for k in poly):
        return int(not poly)
    k = ("zero", fkey(norm(poly)))
    v = d.interned.get(k)
    if v is None:
        v = d.interned[k] = d.fresh("is zero", 1)
    return v


def c_is_nonzero(ex, p):
    d = ex.d
    t = d.fe(ex, p)
    d.need(t, WIDE, "is_nonzero")
    z = is_zero(d, t.poly)
    if type(z) is int:
        return 0 if z else 0xFFFFFFFF
    return d.sext(1, 32, d.binop("xor", 1, z, 1))


def fdom(R, **kw):
    d = Domain()
    ex = R.exe(d)
    ex.overrides.update(fe_contracts(R, **kw))
    return d, ex


# ---------------------------------------------------------------- proofs of the contracts
def fe_call(ex, dem, shape, ins):
    """Runs the real function on these inputs; returns the result pointer."""
    if not ex.m.by_dem.get(dem):
        raise ExecError("anchor lost: " + dem)
    if shape[0] == "o":
        o = ex.alloc(40, "out")
        ex.call_dem(dem, o, *[fe_new(ex, x, "in", True) for x in ins])
        return o
    o = fe_new(ex, ins[0], "self")
    a = o
    if shape[0] == "r":
        a = ex.alloc(8, "ref")
        ex.st(a, 8, o)
    ex.call_dem(dem, a, *[fe_new(ex, x, "in", True) for x in ins[1:]])
    return o


def obs_fe_contracts():
    out = []

    def arith(dem, shape, pre, val):
        def run(R):
            d, ex = fam_int.idom(R)
            ins = [fe_atoms(d, "fg"[i], b) for i, b in enumerate(pre)]
            got = fe_get(ex, fe_call(ex, dem, shape, ins))
            check_bound(R, d, got, OUT, dem)
            fam_int.check_cong(R, d, fe_val(got), val(IntRing, *[fe_val(x) for x in ins]), P, SHORT(dem))
            R.done(ex)
        return Obligation(f"curve25519::{SHORT(dem)} ensures its value mod p and limb bounds", run, backend="intervals + polynomial identity mod p", cost=2)

    def lin(dem, shape, co):
        def run(R):
            d, ex = fam_int.idom(R)
            ins = [fe_atoms(d, "fg"[i], [1 << 29] * 10) for i in range(len(co))]
            got = fe_get(ex, fe_call(ex, dem, shape, ins))
            want = []
            for j in range(10):
                want.append({})
                for c, x in zip(co, ins):
                    want[j] = padd(want[j], x[j].p, c)
            R.checks += 10
            if any(g.p != v for g, v in zip(got, want)):
                v = {}
                for c, x in zip(co, ins):
                    v = padd(v, fe_val(x), c)
                fam_int.check_cong(R, d, fe_val(got), v, P, SHORT(dem))
                raise ExecError(f"{SHORT(dem)}: the value is right, the limbs are not the combination")
            R.done(ex)
        return Obligation(f"curve25519::{SHORT(dem)} is the limb-wise combination {co}", run, backend="polynomial identity", cost=1)

    def power(dem, shape, e):
        def run(R):
            if not R.has(dem):
                raise ExecError("anchor lost: " + dem)
            d, ex = fdom(R, skip=POW)
            z = d.fvar("z")
            p = ex.alloc(40, "z")
            d.put_fe(ex, p, sym(IN), z)
            o = p
            if shape[0] == "o":
                o = ex.alloc(40, "out")
                ex.call_dem(dem, o, p)
            else:
                ex.call_dem(dem, p)
            t = d.fe(ex, o)
            R.require(t.poly == d.fpow(z, e), f"{SHORT(dem)} is not the power")
            d.need(t, OUT, SHORT(dem))
            R.done(ex)
        return Obligation(f"curve25519::{SHORT(dem)} ensures z^{'(p-2)' if e == P - 2 else '((p-5)/8)'}", run, backend="polynomial identity over F_p", cost=2)

    def choose(dem, swap):
        def run(R):
            if not R.has(dem):
                raise ExecError("anchor lost: " + dem)
            for b in (0, 1):
                d, ex = fam_int.idom(R)
                f, g = fe_atoms(d, "f", [2**31 - 1] * 10), fe_atoms(d, "g", [2**31 - 1] * 10)
                pf, pg = fe_new(ex, f, "f"), fe_new(ex, g, "g", not swap)
                ex.call_dem(dem, pf, pg, b)
                for p, w in ((pf, g if b else f), (pg, f if b and swap else g)):
                    for j, x in enumerate(fe_get(ex, p)):
                        R.same(d, x, w[j], 32, f"{SHORT(dem)} with flag {b}: limb {j}")
                R.done(ex)
        return Obligation(f"curve25519::{SHORT(dem)} ensures {'exchange' if swap else 'choice'} by the flag", run, backend="polynomial identity, flag by cases", cost=1)
    out += [arith(k, *v) for k, v in ARITH.items()]
    out += [lin(k, *v) for k, v in LIN.items()]
    out += [power(k, *v) for k, v in POW.items()]
    out += [choose(FE + "cswap_with", True), choose(FE + "cmov_from", False)]
    out += [fam_int.ob_from_bytes(), fam_int.ob_write_bytes()]

    return out


V32 = C + "verify_32"


def obs_fe_tests():
    """is_nonzero and verify_32 (used by Ed25519)."""
    def v32(R):
        if not R.has(V32):
            raise ExecError("anchor lost: " + V32)

        seen = set()

        def body(ex):
            d = ex.d
            x, y = d.ibytes("x", 32), d.ibytes("y", 32)
            r = ex.call_dem(V32, ptr_bytes(ex, x, "x"), ptr_bytes(ex, y, "y"), 32)
            acc = 0
            for a, b in zip(x, y):
                t = d.zext(8, 32, d.binop("xor", 8, a, b))
                acc = d.binop("or", 32, acc, t) if acc != 0 else t
            return r, ex.branch(d.icmp("eq", 32, acc, 0))
        for path, res, ex in explore(lambda: fam_int.idom(R)[1], body):
            R.require(res[0] == "ok", f"verify_32 panics: {res[1]}")
            r, e = res[1]
            R.require(type(r) is int and (r == 0) == bool(e), f"verify_32 returns {r} for {'equal' if e else 'different'} arrays")
            seen.add(e)
            R.done(ex)
        R.require(seen == {0, 1}, "both outcomes are reachable")

    def nonzero(R):
        dem = FE + "is_nonzero"
        if not R.has(dem) or not R.has(FE + "write_bytes"):
            raise ExecError("anchor lost: " + dem)

        def mk():
            d, ex = fdom(R, skip=(FE + "is_nonzero",))
            if R.has(V32):
                ex.overrides[V32] = c_verify32
            return ex

        def body(ex):
            d = ex.d
            z = d.fvar("z")
            p = ex.alloc(40, "z")
            d.put_fe(ex, p, sym(WIDE), z)
            r = ex.call_dem(dem, p)
            return d.icmp("eq", 32, r, 0), d.equal_bytes(encode(d, z), [0] * 32)
        paths(R, mk, body, "is_nonzero")
    return [Obligation("curve25519::verify_32 ensures result = 0 iff equal", v32, cost=1),
            Obligation("curve25519::Fe::is_nonzero ensures result = 0 iff value = 0 mod p", nonzero, cost=1)]


def c_verify32(ex, x, y, n):
    d = ex.d
    if n != 32:
        raise ExecError("verify_32 on another length")
    e = d.equal_bytes(ex.get(x, 32), ex.get(y, 32))
    if type(e) is int:
        return 0 if e else 0xFFFFFFFF
    return d.sext(1, 32, d.binop("xor", 1, e, 1))


# ---------------------------------------------------------------- X25519
def clamp(d, k):
    k = list(k)
    AND = lambda v, m: v & m if type(v) is int else d.binop("and", 8, v, m)
    k[0] = AND(k[0], 248)
    k[31] = AND(k[31], 127)
    k[31] = k[31] | 64 if type(k[31]) is int else d.binop("or", 8, k[31], 64)
    return k


def ladder(d, k, x1):
    """RFC 7748 section 5, on field values; every new coordinate is named."""
    M, A = d.fmul, fadd

    def name(v, n):
        if len(v) <= 1:
            return v
        a = d.cuts.get(fkey(v))
        if a is None:
            a = d.cuts[fkey(v)] = d.fvar(n)
        return a
    k = clamp(d, k)
    bits = [d.bits(b, 8) for b in k]
    x2, z2, x3, z3, swap = fconst(1), {}, x1, fconst(1), {}
    cs = lambda b, x, y: (A(x, M(b, A(y, x, -1))), A(y, M(b, A(x, y, -1))))
    for t in reversed(range(255)):
        kt = d.bit(bits[t // 8][t % 8])
        swap = A(A(swap, kt), M(swap, kt), -2)
        x2, x3 = cs(swap, x2, x3)
        z2, z3 = cs(swap, z2, z3)
        swap = kt
        a, b = A(x2, z2), A(x2, z2, -1)
        aa, bb = M(a, a), M(b, b)
        e = A(aa, bb, -1)
        c, dd = A(x3, z3), A(x3, z3, -1)
        da, cb = M(dd, a), M(c, b)
        s, u = A(da, cb), A(da, cb, -1)
        x3 = name(M(s, s), f"x3@{t}")
        z3 = name(M(x1, M(u, u)), f"z3@{t}")
        x2 = name(M(aa, bb), f"x2@{t}")
        z2 = name(M(e, A(aa, fscale(e, 121665))), f"z2@{t}")
    x2, x3 = cs(swap, x2, x3)
    z2, z3 = cs(swap, z2, z3)
    return encode(d, M(x2, d.fpow(z2, P - 2)))


def ob_x25519(which):
    dem = C + which

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = fdom(R)
        sk = fresh_bytes(d, "k", 32)
        pk = fresh_bytes(d, "u", 32) if which == "dh" else [9] + [0] * 31
        x1 = bytes_value(d, pk)
        want = ladder(d, sk, x1)

        def call(ex, sk, pk):
            o = ex.alloc(32, "out")
            ps = ptr_bytes(ex, sk, "secret")
            if which == "dh":
                ex.call_dem(dem, o, ptr_bytes(ex, pk, "public"), 32, ps, 32)
            else:
                ex.call_dem(dem, o, ps, 32)
            return ex.get(o, 32)
        try:
            R.same_cells(d, call(ex, sk, pk), want, f"{which} is not X25519")
        except (ExecError, Unproved):
            R.replay(d, [sk, pk], lambda *v: bytes(call(*v)), ref.x25519, f"{which} is not X25519")
            raise
        R.done(ex)
    return Obligation(f"curve25519::{which} ensures RFC 7748 X25519, all scalars and u-coordinates", run, backend="polynomial identity over F_p, ladder in lock step", cost=6)
