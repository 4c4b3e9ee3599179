"""Contracts for Ed25519: point formulas, tables, scalar recodings, decoding, and the sign/verify drivers.

A point is described by its affine coordinates (x, y); the representation predicates (with limb bounds) are
  P3(x,y):     X = xZ, Y = yZ, T = xyZ            limbs within OUT
  P2(x,y):     X = xZ, Y = yZ                     limbs within OUT
  P1P1(x,y):   X = x*(Z), Y = y*(T)               limbs within P1B
  Cached(x,y): Y+X, Y-X, Z, 2dT of a P3           limbs within CB
  Precomp(x,y): y+x, y-x, 2dxy                    limbs within IN
Unknown Z are units of F_p (z^(p-1) = 1).  The addition law is the complete twisted Edwards law; that its
denominators are units on the curve (d is not a square) is the textbook lemma we rely on.
"""
import fam_fp
import fam_int
import intdom
from fam_fp import *
from fam_int import E5, FE, IN, OUT, P, bound
from fam_sym import fresh_bytes, hash_contract, hash_obj_size, hash_uf, paths, ptr_bytes
from ir import ExecError, Panic, Unproved, explore
from prove import Failed, Obligation, Token, get_token, put_token

GP3, GP2 = "<crypto_pure::ed25519::GeP3>::", "<crypto_pure::ed25519::GeP2>::"
DC = -121665 * pow(121666, P - 2, P) % P
SQM1 = pow(2, (P - 1) // 4, P)
P1B = bound(303, 200)
CB = bound(202, 200)
ORD = 2**252 + 27742317777372353535851937790883648493
NF = {"p3": 4, "p1": 4, "cached": 4, "p2": 3, "pre": 3}


# ---------------------------------------------------------------- affine arithmetic on the curve (specification)
def aadd(p, q):
    (x1, y1), (x2, y2) = p, q
    t = DC * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * pow(1 + t, P - 2, P) % P, (y1 * y2 + x1 * x2) * pow(1 - t, P - 2, P) % P)


def amul(n, p):
    if n < 0:
        return amul(-n, (-p[0] % P, p[1]))
    r = (0, 1)
    while n:
        if n & 1:
            r = aadd(r, p)
        p = aadd(p, p)
        n >>= 1
    return r


def base_point():
    y = 4 * pow(5, P - 2, P) % P
    u, v = y * y - 1, DC * y * y + 1
    x = u * v**3 * pow(u * v**7, (P - 5) // 8, P) % P
    if (v * x * x - u) % P:
        x = x * SQM1 % P
    if x & 1:
        x = P - x
    return x, y


B = base_point()


class EdDomain(Domain):
    """F_p polynomials in which some unknowns are units, and pairs (x, y) lie on the curve."""

    def __init__(self):
        super().__init__()
        self.units = set()
        self.curves = []

    def reduce(self, r):
        if not self.units and not self.curves:
            return r
        todo, out = dict(r), {}
        while todo:
            k, c = todo.popitem()
            m = dict(k)
            for a in list(m):
                if a in self.units and not -(P - 1) < 2 * m[a] < P - 1:
                    m[a] = (m[a] + (P - 1) // 2) % (P - 1) - (P - 1) // 2
                    if not m[a]:
                        del m[a]
            for x, y in self.curves:
                if m.get(x, 0) >= 2 and m.get(y, 0) >= 2:
                    # d x^2 y^2 = y^2 - x^2 - 1
                    base = dict(m)
                    for a in (x, y):
                        base[a] -= 2
                        if not base[a]:
                            del base[a]
                    ci = c * pow(DC, P - 2, P) % P
                    for extra, s in (((y, 2), 1), ((x, 2), -1), (None, -1)):
                        n = dict(base)
                        if extra:
                            n[extra[0]] = n.get(extra[0], 0) + 2
                        n = tuple(sorted(n.items()))
                        v = (todo.get(n, 0) + s * ci) % P
                        if v:
                            todo[n] = v
                        else:
                            todo.pop(n, None)
                    break
            else:
                n = tuple(sorted(m.items()))
                v = (out.get(n, 0) + c) % P
                if v:
                    out[n] = v
                else:
                    out.pop(n, None)
        return out

    def unit(self, name):
        v = self.fvar(name)
        self.units.add(len(self.fname) - 1)
        return v

    def point(self, name):
        x, y = self.fvar("x" + name), self.fvar("y" + name)
        self.curves.append((len(self.fname) - 2, len(self.fname) - 1))
        return x, y


def edom(R, **kw):
    d = EdDomain()
    ex = R.exe(d)
    ex.overrides.update(fe_contracts(R, **kw))
    return d, ex


def put_struct(ex, polys, bounds, name="in", ro=True):
    d = ex.d
    p = ex.alloc(40 * len(polys), name)
    for i, (v, b) in enumerate(zip(polys, bounds)):
        d.put_fe(ex, p + 40 * i, sym(b), v)
    if ro:
        ex.objs[p >> 44].ro = True
    return p


def rep(d, kind, x, y, z):
    """Field values of the representation of (x, y) with projective factor z."""
    M, A = d.fmul, fadd
    if kind == "pre":
        return [A(y, x), A(y, x, -1), fscale(M(x, y), 2 * DC)], [IN] * 3
    X, Y, T = M(x, z), M(y, z), M(M(x, y), z)
    if kind == "p3":
        return [X, Y, z, T], [OUT] * 4
    if kind == "p2":
        return [X, Y, z], [OUT] * 3
    return [A(Y, X), A(Y, X, -1), z, fscale(T, 2 * DC)], [CB, CB, OUT, OUT]


def read_struct(ex, p, n):
    return [ex.d.fe(ex, p + 40 * i) for i in range(n)]


def is_multiple(d, z, den):
    """z = (monomial in units) * den, so z is a unit when den is."""
    for k in den:
        for n in z:
            m = dict(n)
            for a, e in k:
                m[a] = m.get(a, 0) - e
            if any(e and a not in d.units for a, e in m.items()):
                continue
            q = {tuple(sorted((a, e) for a, e in m.items() if e)): z[n] * pow(den[k], P - 2, P) % P}
            if d.fmul(q, den) == z:
                return True
    return False


def check_p1p1(R, d, ts, num, den, msg):
    """The P1P1 at ts is the affine point (num[0]/den[0], num[1]/den[1])."""
    M = d.fmul
    X, Y, Z, T = [t.poly for t in ts]
    for t in ts:
        d.need(t, P1B, msg)
    num, den = [d.reduce(v) for v in num], [d.reduce(v) for v in den]
    R.require(M(X, den[0]) == M(Z, num[0]), msg + ": x coordinate")
    R.require(M(Y, den[1]) == M(T, num[1]), msg + ": y coordinate")
    R.require(is_multiple(d, Z, den[0]) and is_multiple(d, T, den[1]), msg + ": denominators")


def law(d, p, q):
    M, A = d.fmul, fadd
    (x1, y1), (x2, y2) = p, q
    t = fscale(M(M(x1, x2), M(y1, y2)), DC)
    one = fconst(1)
    return (A(M(x1, y2), M(x2, y1)), A(M(y1, y2), M(x1, x2))), (A(one, t), A(one, t, -1))


def ob_ge(name, kind, sign):
    dem = E5 + name

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = edom(R)
        p, q = (d.fvar("x1"), d.fvar("y1")), (d.fvar("x2"), d.fvar("y2"))
        o = ex.alloc(160, "r")
        ex.call_dem(dem, o, put_struct(ex, *rep(d, "p3", *p, d.unit("Z1"))), put_struct(ex, *rep(d, kind, *q, d.unit("Z2"))))
        if sign < 0:
            q = (fscale(q[0], -1), q[1])
        check_p1p1(R, d, read_struct(ex, o, 4), *law(d, p, q), name)
        R.done(ex)
    return Obligation(f"ed25519::{name} ensures P1P1(p {'+' if sign > 0 else '-'} q), limb bounds", run, backend="polynomial identity over F_p", cost=1)


def ob_ge_dbl(name, kind):
    dem = E5 + name

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = edom(R)
        p = d.point("")
        o = ex.alloc(160, "r")
        ex.call_dem(dem, o, put_struct(ex, *rep(d, kind, *p, d.unit("Z"))))
        check_p1p1(R, d, read_struct(ex, o, 4), *law(d, p, p), name)
        R.done(ex)
    return Obligation(f"ed25519::{name} ensures P1P1(2p), limb bounds", run, backend="polynomial identity over F_p modulo the curve equation", cost=1)


def ob_ge_conv(name, n):
    dem = E5 + name

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = edom(R)
        M = d.fmul
        x, y, z, t = d.fvar("x"), d.fvar("y"), d.unit("Z"), d.unit("T")
        o = ex.alloc(40 * n, "r")
        ex.call_dem(dem, o, put_struct(ex, [M(x, z), M(y, t), z, t], [P1B] * 4))
        ts = read_struct(ex, o, n)
        v = [a.poly for a in ts]
        for a in ts:
            d.need(a, OUT, name)
        R.require(len(v[2]) == 1 and all(a in d.units for k in v[2] for a, _ in k), name + ": Z is a unit")
        R.require(v[0] == M(x, v[2]) and v[1] == M(y, v[2]), name + ": same affine point")
        if n == 4:
            R.require(v[3] == M(M(x, y), v[2]), name + ": T = XY/Z")
        R.done(ex)
    return Obligation(f"ed25519::{name} ensures {'P3' if n == 4 else 'P2'} of the same point", run, backend="polynomial identity over F_p", cost=1)


def ob_ge_cached():
    dem = E5 + "ge_p3_to_cached"

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = edom(R)
        x, y, z = d.fvar("x"), d.fvar("y"), d.unit("Z")
        o = ex.alloc(160, "r")
        ex.call_dem(dem, o, put_struct(ex, *rep(d, "p3", x, y, z)))
        v, bs = rep(d, "cached", x, y, z)
        for i, (t, w, b) in enumerate(zip(read_struct(ex, o, 4), v, bs)):
            d.need(t, b, "ge_p3_to_cached")
            R.require(t.poly == w, f"ge_p3_to_cached: component {i}")
        R.done(ex)
    return Obligation("ed25519::ge_p3_to_cached ensures Cached of the same point", run, backend="polynomial identity over F_p", cost=1)


def enc_point(d, x, y):
    """RFC 8032 5.1.2: encoding of (x, y)."""
    out = list(encode(d, y))
    bx = encode(d, x)[0]
    s = (bx & 1) << 7 if type(bx) is int else d.binop("shl", 8, bx, 7)
    out[31] = out[31] ^ s if type(out[31]) is int and type(s) is int else d.binop("xor", 8, out[31], s)
    return out


def obs_tobytes():
    def run3(R):
        dem = E5 + "ge_p3_tobytes"
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = edom(R)
        x, y, z = d.fvar("x"), d.fvar("y"), d.unit("Z")
        o = ex.alloc(32, "s")
        ex.call_dem(dem, o, 32, put_struct(ex, *rep(d, "p3", x, y, z)))
        R.same_cells(d, ex.get(o, 32), enc_point(d, x, y), "ge_p3_tobytes")
        R.done(ex)

    def run2(R):
        dem = GP2 + "to_bytes"
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = edom(R)
        x, y, z = d.fvar("x"), d.fvar("y"), d.unit("Z")
        o = ex.alloc(32, "s")
        ex.call_dem(dem, o, put_struct(ex, *rep(d, "p2", x, y, z)))
        R.same_cells(d, ex.get(o, 32), enc_point(d, x, y), "GeP2::to_bytes")
        R.done(ex)
    return [Obligation("ed25519::ge_p3_tobytes ensures the RFC 8032 encoding of (x, y)", run3, backend="polynomial identity over F_p", cost=1),
            Obligation("ed25519::GeP2::to_bytes ensures the RFC 8032 encoding of (x, y)", run2, backend="polynomial identity over F_p", cost=1)]


def obs_formulas():
    return [ob_ge("ge_add", "cached", 1), ob_ge("ge_sub", "cached", -1), ob_ge("ge_madd", "pre", 1), ob_ge("ge_msub", "pre", -1),
            ob_ge_dbl("ge_p2_dbl", "p2"), ob_ge_dbl("ge_p3_dbl", "p3"), ob_ge_conv("ge_p1p1_to_p2", 3), ob_ge_conv("ge_p1p1_to_p3", 4), ob_ge_cached()]


# ---------------------------------------------------------------- decoding
def spec_decode(d, cells):
    """RFC 8032 5.1.3 up to the choice of root: y, u, v, the candidate root x0, and its conditions."""
    M, A = d.fmul, fadd
    y = bytes_value(d, cells)
    yy = M(y, y)
    u, v = A(yy, fconst(-1)), A(fscale(yy, DC), fconst(1))
    v3 = M(M(v, v), v)
    x0 = M(M(u, v3), d.fpow(M(M(u, v3), M(v3, v)), (P - 5) // 8))
    vxx = M(v, M(x0, x0))
    return y, x0, is_zero(d, A(vxx, u, -1)), is_zero(d, A(vxx, u))


def decoded(ex, cells):
    """On a path: the affine (x, y) of minus the decoded point, or None if decoding fails."""
    d = ex.d
    y, x0, ok, okm = spec_decode(d, cells)
    x = None
    if ex.branch(ok):
        x = x0
    elif ex.branch(okm):
        x = fscale(x0, SQM1)
    if x is None:
        return None
    b = encode(d, x)[0]
    par = b & 1 if type(b) is int else d.trunc(8, 1, b)
    s = cells[31]
    sgn = s >> 7 if type(s) is int else d.trunc(8, 1, d.binop("lshr", 8, s, 7))
    dif = par ^ sgn if type(par) is int and type(sgn) is int else d.binop("xor", 1, par, sgn)
    if not ex.branch(dif):
        x = fscale(x, -1)
    return x, y


DECODE = GP3 + "from_bytes_negate_vartime"


def option_layout(R):
    """Where Option<GeP3> keeps its fields: (size, offset of the point, discriminant cells for Some)."""
    def call(cells):
        d, ex = edom(R)
        n = ex.m.by_dem[DECODE].sret
        o = ex.alloc(n, "option")
        ex.call_dem(DECODE, o, ptr_bytes(ex, cells, "s"), 32)
        return n, o, ex
    y = B[1].to_bytes(32, "little")
    n, o, ex = call(list(y))
    for off in range(0, n - 159, 4):
        try:
            v = [t.poly for t in read_struct(ex, o + off, 4)]
        except (ExecError, AttributeError):
            continue
        if v[2] == fconst(1) and v[1] == fconst(B[1]):
            return n, off, [(i, ex.ld(o + i, 1)) for i in range(n) if not off <= i < off + 160]
    raise ExecError("layout of Option<GeP3>")


def ob_decode():
    def run(R):
        if not R.has(DECODE):
            raise ExecError("anchor lost: " + DECODE)
        n, off, tag = option_layout(R)

        def body(ex):
            d = ex.d
            s = fresh_bytes(d, "s", 32)
            o = ex.alloc(n, "option")
            ex.call_dem(DECODE, o, ptr_bytes(ex, s, "s"), 32)
            some = all(ex.ld(o + i, 1) == b for i, b in tag)
            want = decoded(ex, s)
            R.require(some == (want is not None), "decoding succeeds exactly on the curve's encodings")
            if some:
                x, y = want
                ts = read_struct(ex, o + off, 4)
                for t in ts:
                    d.need(t, OUT, "decoded point")
                R.require(ts[0].poly == x, "x of the decoded point, negated")
                R.require(ts[1].poly == y, "y of the decoded point")
                R.require(ts[2].poly == fconst(1), "z of the decoded point")
                R.require(ts[3].poly == d.fmul(x, y), "t of the decoded point")
            return some
        seen = set()
        for path, res, ex in explore(lambda: edom(R)[1], body):
            R.require(res[0] == "ok", f"decoding panics: {res[1]}")
            seen.add(res[1])
            R.done(ex)
        R.require(seen == {True, False}, "both outcomes are reachable")
    return Obligation("ed25519::GeP3::from_bytes_negate_vartime ensures RFC 8032 decoding, negated; None exactly when not on the curve", run, backend="polynomial identity over F_p, by paths", cost=2)


# ---------------------------------------------------------------- points as integer combinations of B and A
PSIZE = {k: 40 * n for k, n in NF.items()}
FROM3 = "<crypto_pure::ed25519::GeP2 as core::convert::From<&crypto_pure::ed25519::GeP3>>::from"
MULTS = {}


def multiples():
    """Affine point -> scalar, for the small multiples of B."""
    if not MULTS:
        for m in range(-32, 33):
            MULTS[amul(m, B)] = m
    return MULTS


def get_pt(ex, p, kind):
    d = ex.d
    v = None
    try:
        v = ex.ld(p, PSIZE[kind])
    except ExecError:
        pass
    if isinstance(v, Token):
        if v.kind != kind:
            raise ExecError(f"a {v.kind} where a {kind} is expected")
        return v.data
    f = read_struct(ex, p, NF[kind])
    if any(k != () for t in f for k in t.poly):
        raise ExecError("point without a contract")
    f = [t.poly.get((), 0) for t in f]
    for t in read_struct(ex, p, NF[kind]):
        d.need(t, IN if kind == "pre" else OUT, "point constant")
    h = (P + 1) // 2
    if kind == "pre":
        x, y = (f[0] - f[1]) * h % P, (f[0] + f[1]) * h % P
        ok = f[2] == 2 * DC * x * y % P
    elif kind in ("p2", "p3"):
        zi = pow(f[2], P - 2, P)
        x, y = f[0] * zi % P, f[1] * zi % P
        ok = f[2] and (kind == "p2" or f[3] * f[2] % P == f[0] * f[1] % P)
    else:
        ok = False
    if not ok:
        raise Unproved("a constant that does not represent a point")
    m = multiples().get((x, y))
    if m is None:
        raise Unproved("a constant point that is not a small multiple of B")
    return {"B": {(): m} if m else {}}


def put_pt(ex, p, kind, comb):
    put_token(ex, p, PSIZE[kind], kind, {g: v for g, v in comb.items() if v})


def cadd(a, b, m=1):
    r = dict(a)
    for g, v in b.items():
        r[g] = padd(r.get(g, {}), v, m)
    return r


def pt_contracts(R):
    ov = {}

    def add(name, kind, m):
        def h(ex, r, p, q):
            put_pt(ex, r, "p1", cadd(get_pt(ex, p, "p3"), get_pt(ex, q, kind), m))
        ov[E5 + name] = h

    def dbl(name, kind):
        def h(ex, r, p):
            a = get_pt(ex, p, kind)
            put_pt(ex, r, "p1", cadd(a, a))
        ov[E5 + name] = h

    def conv(name, k1, k2):
        def h(ex, r, p):
            put_pt(ex, r, k2, get_pt(ex, p, k1))
        ov[name] = h

    def select(ex, t, pos, b):
        if type(pos) is not int or pos > 31:
            raise Unproved("precondition of select: pos < 32")
        v = ex.d.signed(b, 8)
        if not (-8 <= v.lo and v.hi <= 8) and not ex.d.prove_range(v.p, -8, 8):
            raise Unproved(f"precondition of select: digit in [{v.lo}, {v.hi}]")
        put_pt(ex, t, "pre", {"B": pscale(v.p, 256**pos)})
    add("ge_add", "cached", 1), add("ge_sub", "cached", -1), add("ge_madd", "pre", 1), add("ge_msub", "pre", -1)
    dbl("ge_p2_dbl", "p2"), dbl("ge_p3_dbl", "p3")
    conv(E5 + "ge_p1p1_to_p2", "p1", "p2"), conv(E5 + "ge_p1p1_to_p3", "p1", "p3"), conv(E5 + "ge_p3_to_cached", "p3", "cached"), conv(FROM3, "p3", "p2")
    ov[E5 + "select"] = select
    return {k: v for k, v in ov.items() if R.has(k)}


SMB = GP3 + "from_scalarmult_base"
DSM = GP2 + "from_double_scalarmult_vartime"


def ob_scalarmult_base():
    def run(R):
        if not R.has(SMB):
            raise ExecError("anchor lost: " + SMB)
        d, ex = edom(R)
        ex.overrides.update(pt_contracts(R))
        a = d.ibytes("a", 31) + [d.iatom("a31", 8, 0, 127)] + d.ibytes("rest", 32)
        o = ex.alloc(160, "h")
        ex.call_dem(SMB, o, ptr_bytes(ex, a, "a"))
        got = get_pt(ex, o, "p3")
        R.require(set(got) <= {"B"}, "a multiple of B")
        R.require(d.zero_mod(padd(got.get("B", {}), fam_int.le(d, a[:32]), -1), ORD), "h = [a]B")
        R.done(ex)
    return Obligation("ed25519::GeP3::from_scalarmult_base ensures [a]B for a[31] < 128", run, backend="polynomial identity over the integers, digits by floors", cost=2)


def ob_select(lo, hi):
    dem = E5 + "select"

    def run(R):
        if not R.has(dem):
            raise ExecError("anchor lost: " + dem)
        d, ex = edom(R)
        for k in list(ex.overrides):
            if "cmov" in k:
                del ex.overrides[k]
        for pos in range(lo, hi):
            g = amul(256**pos, B)
            for b in range(-8, 9):
                o = ex.alloc(120, "t")
                ex.call_dem(dem, o, pos, b & 0xFF)
                x, y = amul(b, g)
                ts = read_struct(ex, o, 3)
                for t, w in zip(ts, ((y + x) % P, (y - x) % P, 2 * DC * x * y % P)):
                    d.need(t, IN, "select")
                    R.require(t.poly == fconst(w), f"select({pos}, {b}) is not [{b} 256^{pos}]B")
        R.done(ex)
    return Obligation(f"ed25519::select(pos, b) ensures Precomp([b 256^pos]B), pos {lo}..{hi - 1}, b -8..8", run, backend="evaluation of every case of the precondition", cost=3)


def obs_base():
    return [ob_scalarmult_base()] + [ob_select(a, a + 4) for a in range(0, 32, 4)]
