"""Domain of machine words that stand for exact integers: polynomials with integer coefficients over atoms.

Atoms are unknowns with known ranges; shifting right introduces an atom for the floor of a polynomial.
Every word is congruent to its polynomial modulo 2^w and carries a proved range of that polynomial, so
overflow obligations are decided by the range, and equalities (also modulo a prime) by canonical form.
Range goals beyond interval reasoning go to z3 (linear integer arithmetic over the definitions of the
floor atoms).  Bit vectors of the ANF domain and integers may be mixed in one run, not in one operation.
"""
import anf
from anf import BV
from ir import UNDEF, ExecError, Unproved, masks


class IV:
    __slots__ = ("w", "p", "lo", "hi")

    def __init__(self, w, p, lo, hi):
        self.w, self.p, self.lo, self.hi = w, p, lo, hi

    # address arithmetic (getelementptr)
    def __add__(self, o):
        if type(o) is int:
            return IV(self.w, padd(self.p, {(): o} if o else {}), self.lo + o, self.hi + o)
        if not isinstance(o, IV):
            from ir import ExecError
            raise ExecError("address arithmetic on an undefined or bit value")
        return IV(self.w, padd(self.p, o.p), self.lo + o.lo, self.hi + o.hi)

    __radd__ = __add__

    def __mul__(self, k):
        return IV(self.w, pscale(self.p, k), *sorted((self.lo * k, self.hi * k)))

    __rmul__ = __mul__

    def __repr__(self):
        return f"<IV{self.w} {len(self.p)} terms [{self.lo},{self.hi}]>"


def key(p):
    return frozenset(p.items())


def padd(a, b, m=1):
    """a + m*b"""
    if m == 0:
        return a
    if len(a) < len(b) and m == 1:
        a, b = b, a
    r = dict(a)
    for k, c in b.items():
        v = r.get(k, 0) + m * c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


def pscale(a, m):
    return {k: c * m for k, c in a.items()} if m else {}


def pmul(a, b):
    r = {}
    for k, c in a.items():
        for l, e in b.items():
            n = k + l
            if k and l:
                n = tuple(sorted(n))
            v = r.get(n, 0) + c * e
            if v:
                r[n] = v
            else:
                r.pop(n, None)
    return r


def val2(c):
    return (c & -c).bit_length() - 1


class Domain(anf.Domain):
    name = "integer polynomials"

    def __init__(self):
        super().__init__()
        self.alo, self.ahi, self.adef, self.aname = [0], [0], [None], ["?"]
        self.floors = {}
        self.prods = {}  # bounds of sums of products, which their terms do not give
        self.xors = {}
        self.xorof = {}
        self.conds = {}
        self.facts = []
        self.tight = []
        self.z3_calls = 0
        self.z3_time = 0.0
        self.iknown = {}
        self.ex = None

    # ---- atoms and ranges
    def atom(self, lo, hi, d=None, name=""):
        self.alo.append(lo)
        self.ahi.append(hi)
        self.adef.append(d)
        self.aname.append(name)
        return len(self.alo) - 1

    def iatom(self, name, w, lo, hi):
        return IV(w, {(self.atom(lo, hi, None, name),): 1}, lo, hi)

    def ibytes(self, name, n):
        return [self.iatom(f"{name}{i}", 8, 0, 255) for i in range(n)]

    def range(self, p):
        lo = hi = 0
        al, ah = self.alo, self.ahi
        for m, c in p.items():
            a = b = c
            n = len(m)
            if n == 1:
                x, y = al[m[0]], ah[m[0]]
                a, b = (c * x, c * y) if c > 0 else (c * y, c * x)
            elif n == 2:
                i, j = m
                if i == j:
                    x, y = al[i], ah[i]
                    t, u = x * x, y * y
                    a, b = (0 if x <= 0 <= y else min(t, u)), max(t, u)
                else:
                    q = (al[i] * al[j], al[i] * ah[j], ah[i] * al[j], ah[i] * ah[j])
                    a, b = min(q), max(q)
                a, b = (c * a, c * b) if c > 0 else (c * b, c * a)
            elif n:
                a, b = 1, 1
                for i in m:
                    q = (a * al[i], a * ah[i], b * al[i], b * ah[i])
                    a, b = min(q), max(q)
                a, b = (c * a, c * b) if c > 0 else (c * b, c * a)
            lo += a
            hi += b
        return lo, hi

    def refine(self, p, lo, hi):
        l, h = self.range(p)
        lo, hi = max(lo, l), min(hi, h)
        n0 = (l, h)
        cand = [m[0] for m in p if len(m) == 1 and self.adef[m[0]] is not None and self.adef[m[0]][0] == "floor"]
        for a in sorted(cand, reverse=True)[:6]:
            _, P, k = self.adef[a]
            c = p[(a,)]
            if c & ((1 << k) - 1):
                continue
            m = c >> k
            q = dict(p)
            del q[(a,)]
            q = padd(q, P, m)
            l, h = self.range(q)
            r = m * ((1 << k) - 1)
            if m > 0:
                l -= r
            else:
                h -= r
            lo, hi = max(lo, l), min(hi, h)
        if (lo, hi) != n0:
            self.tight.append((p, lo, hi))
        return lo, hi

    def mkiv(self, w, p, lo, hi):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()] & masks(w)
        if lo == hi:
            return lo & masks(w)
        if any(len(m) > 1 for m in p):
            k = key(p)
            l, h = self.prods.get(k, (lo, hi))
            lo, hi = max(l, lo), min(h, hi)
            self.prods[k] = (lo, hi)
        return IV(w, p, lo, hi)

    def lift(self, v, w, signed=None):
        """An IV for v (constants too)."""
        if isinstance(v, IV):
            return v
        if type(v) is int:
            if signed is None:
                signed = False
            if signed and v >> (w - 1):
                v -= 1 << w
            return IV(w, {(): v} if v else {}, v, v)
        if v is UNDEF:
            raise ExecError("operation on undefined")
        if isinstance(v, BV):
            raise ExecError("bit vector used as an integer")
        raise ExecError(f"integer operation on an abstract value {v!r}")

    def signed(self, v, w):
        v = self.lift(v, w, True)
        h = 1 << (w - 1)
        if -h <= v.lo and v.hi < h:
            return v
        if v.lo >= h and v.hi < h + (1 << w):
            return IV(w, padd(v.p, {(): -(1 << w)}), v.lo - (1 << w), v.hi - (1 << w))
        f = self.floor(padd(v.p, {(): h}), v.lo + h, v.hi + h, w)
        p = padd(v.p, f.p, -(1 << w))
        lo, hi = self.refine(p, -h, h - 1)
        return IV(w, p, lo, hi)

    def unsigned(self, v, w):
        v = self.lift(v, w, False)
        n = 1 << w
        if 0 <= v.lo and v.hi < n:
            return v
        return self.mod2(v, w)

    def mod2(self, v, k):
        """v mod 2^k as an IV (same width)."""
        f = self.floor(v.p, v.lo, v.hi, k)
        p = padd(v.p, f.p, -(1 << k))
        lo, hi = self.refine(p, 0, (1 << k) - 1)
        return IV(v.w, p, lo, hi)

    def floor(self, p, lo, hi, k):
        """floor(p / 2^k) as an IV of width 64 (only .p, .lo, .hi are used)."""
        if k == 0:
            return IV(64, p, lo, hi)
        lo2, hi2 = lo >> k, hi >> k
        if lo2 == hi2:
            return IV(64, {(): lo2} if lo2 else {}, lo2, lo2)
        M = (1 << k) - 1
        if all(c & M == 0 for c in p.values()):
            return IV(64, {m: c >> k for m, c in p.items()}, lo2, hi2)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and self.adef[m[0]] is not None and self.adef[m[0]][0] == "floor":
                _, P, k0 = self.adef[m[0]]
                return self._floor(P, lo2, hi2, k0 + k)
        if len(p) <= 8:
            Y = {m: c for m, c in p.items() if c & M}
            if len(Y) < len(p) and all(len(m) == 0 or len(m) == 1 and self.adef[m[0]] is None for m in p):
                f = self.floor(Y, *self.refine(Y, -(1 << 300), 1 << 300), k)
                q = padd(f.p, {m: c >> k for m, c in p.items() if not c & M})
                return IV(64, q, lo2, hi2)
        wrap = {m: c for m, c in p.items() if len(m) == 1 and abs(c) >> 32 and not c & M and self.alo[m[0]] == -1 and self.ahi[m[0]] == 0 and self.adef[m[0]] is not None and self.adef[m[0]][0] == "floor"}
        if wrap and len(wrap) < len(p):
            # the sign of a value taken modulo a power of two
            Y = {m: c for m, c in p.items() if m not in wrap}
            f = self.floor(Y, *self.refine(Y, -(1 << 300), 1 << 300), k)
            return IV(64, padd(f.p, {m: c >> k for m, c in wrap.items()}), lo2, hi2)
        for j in sorted({val2(c) for c in p.values()}, reverse=True):
                if 0 < j < k:
                    Y = {m: c for m, c in p.items() if c & ((1 << j) - 1)}
                    if not Y or len(Y) == len(p) or len(Y) > 40:
                        continue
                    l, h = self.refine(Y, -(1 << 300), 1 << 300)
                    if 0 <= l and h < 1 << j:
                        X = {m: c >> j for m, c in p.items() if not c & ((1 << j) - 1)}
                        return self.floor(X, lo >> j, hi >> j, k - j)
        return self._floor(p, lo2, hi2, k)

    def _floor(self, p, lo2, hi2, k):
        if lo2 == hi2:
            return IV(64, {(): lo2} if lo2 else {}, lo2, lo2)
        kk = (key(p), k)
        a = self.floors.get(kk)
        if a is None:
            a = self.floors[kk] = self.atom(lo2, hi2, ("floor", p, k), f"floor/2^{k}")
        else:
            self.alo[a] = max(self.alo[a], lo2)
            self.ahi[a] = min(self.ahi[a], hi2)
        return IV(64, {(a,): 1}, self.alo[a], self.ahi[a])

    # ---- operations
    def _int(self, *vs):
        return any(isinstance(v, IV) for v in vs)

    def binop(self, op, w, a, b):
        if not self._int(a, b):
            return super().binop(op, w, a, b)
        if a is UNDEF or b is UNDEF:
            raise ExecError("operation on undefined")
        if op in ("add", "sub"):
            a, b = self._opsplit(a, w), self._opsplit(b, w)
            if not self._int(a, b):
                return self._conc(op, w, a, b)
            x, y = self.lift(a, w, self._neg(b)), self.lift(b, w, self._neg(a))
            return self._lin(w, x, y, 1 if op == "add" else -1)
        if op == "mul":
            x, y = self.lift(a, w, self._neg(b)), self.lift(b, w, self._neg(a))
            p = pmul(x.p, y.p)
            q = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
            return self.mkiv(w, p, min(q), max(q))
        if op == "shl":
            if type(b) is not int:
                raise ExecError("symbolic shift distance")
            return self.mkiv(w, pscale(a.p, 1 << b), a.lo << b, a.hi << b)
        if op in ("lshr", "ashr"):
            if type(b) is not int:
                raise ExecError("symbolic shift distance")
            a = self._opsplit(a, w)
            if type(a) is int:
                return self._conc(op, w, a, b)
            x = self.unsigned(a, w) if op == "lshr" else self.signed(a, w)
            f = self.floor(x.p, x.lo, x.hi, b)
            return self.mkiv(w, f.p, f.lo, f.hi)
        if op in ("udiv", "urem") and type(b) is int and b & (b - 1) == 0 and b:
            k = b.bit_length() - 1
            x = self.unsigned(a, w)
            if op == "udiv":
                return self.binop("lshr", w, x, k)
            r = self.mod2(x, k)
            return self.mkiv(w, r.p, r.lo, r.hi)
        if op == "and":
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                return self._mask(w, a, b)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, IV) and -1 <= x.lo and x.hi <= 0:
                    c = self.mkiv(1, pscale(x.p, -1), -x.hi, -x.lo)
                    return y if self.ex.branch(c) else 0
            raise ExecError("and of two integers")
        if op == "xor":
            return self._xor(w, a, b)
        if op == "or":
            return self._or(w, a, b)
        raise ExecError("integer " + op)

    def _conc(self, op, w, a, b):
        from ir import to_signed
        M = masks(w)
        return {"add": lambda: (a + b) & M, "sub": lambda: (a - b) & M, "lshr": lambda: a >> b, "ashr": lambda: (to_signed(a, w) >> b) & M}[op]()

    def _neg(self, v):
        return isinstance(v, IV) and v.lo < 0 or type(v) is int

    def _lin(self, w, x, y, s):
        p = padd(x.p, y.p, s)
        lo, hi = a, b = (x.lo + y.lo, x.hi + y.hi) if s > 0 else (x.lo - y.hi, x.hi - y.lo)
        if len(p) < len(x.p) + len(y.p) or s < 0 or len(p) <= 12:
            lo, hi = self.refine(p, lo, hi)
        else:
            # a floor atom that cancels against its own definition
            for m in y.p:
                if len(m) == 1 and self.adef[m[0]] is not None:
                    lo, hi = self.refine(p, lo, hi)
                    break
        if len(p) > 14 and 2 * (hi - lo) < b - a:
            return self.alias(w, p, lo, hi)
        return self.mkiv(w, p, lo, hi)

    def alias(self, w, p, lo, hi):
        """A name for a long polynomial whose range is known better than its terms show."""
        k = (key(p), "alias")
        t = self.floors.get(k)
        if t is None:
            t = self.floors[k] = self.atom(lo, hi, ("alias", p), "alias")
        self.alo[t], self.ahi[t] = max(lo, self.alo[t]), min(hi, self.ahi[t])
        return self.mkiv(w, {(t,): 1}, self.alo[t], self.ahi[t])

    def expand(self, p):
        """p without aliases."""
        memo = {}

        def atom(a):
            r = memo.get(a)
            if r is None:
                r = memo[a] = self.expand(self.adef[a][1])
            return r
        if not any(self.adef[a] and self.adef[a][0] == "alias" for m in p for a in m):
            return p
        out = {}
        for m, c in p.items():
            t = {(): c}
            rest = []
            for a in m:
                if self.adef[a] and self.adef[a][0] == "alias":
                    t = pmul(t, atom(a))
                else:
                    rest.append(a)
            if rest:
                t = pmul(t, {tuple(rest): 1})
            for k, v in t.items():
                v += out.get(k, 0)
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        return out

    def _mask(self, w, a, m):
        if m == 0:
            return 0
        if m == masks(w):
            return a
        x = a
        if 0 <= x.lo and x.hi <= m and (m + 1) & m == 0:
            return x
        out, pos = IV(w, {}, 0, 0), 0
        while m >> pos:
            if not m >> pos & 1:
                pos += 1
                continue
            e = pos
            while m >> e & 1:
                e += 1
            # bits pos..e-1
            f = self.floor(x.p, x.lo, x.hi, pos)
            if e == w and 0 <= x.lo and x.hi < 1 << w:
                t = f
            else:
                g = self.floor(x.p, x.lo, x.hi, e)
                p = padd(f.p, g.p, -(1 << (e - pos)))
                lo, hi = self.refine(p, 0, (1 << (e - pos)) - 1)
                if pos:
                    lo, hi = max(lo, 0), min(hi, (1 << (e - pos)) - 1)
                t = IV(w, p, lo, hi)
            out = IV(w, padd(out.p, t.p, 1 << pos), out.lo + (t.lo << pos), out.hi + (t.hi << pos))
            pos = e
        return self.mkiv(w, out.p, out.lo, out.hi)

    # xor keeps the set of its operands, so that masking and cancelling are exact
    def _xor(self, w, a, b):
        if type(a) is int and a == 0:
            return b
        if type(b) is int and b == 0:
            return a
        for x, y in ((a, b), (b, a)):
            if type(y) is int and y == masks(w):  # complement
                v = self.unsigned(x, w) if x.lo >= 0 else self.signed(x, w)
                if w == 1:
                    return self.mkiv(w, padd({(): 1}, v.p, -1), 1 - v.hi, 1 - v.lo)
                return self.mkiv(w, padd({(): -1}, v.p, -1), -1 - v.hi, -1 - v.lo)
            if type(y) is int and w == 1 and y == 1:
                return self.mkiv(w, padd({(): 1}, x.p, -1), 1 - x.hi, 1 - x.lo)
        s = {}
        for v in (a, b):
            v = self.lift(v, w)
            t = self.xorof.get(key(v.p)) if v.lo >= 0 else None
            for k, x in (t if t is not None else {key(v.p): v}).items():
                if k in s:
                    del s[k]
                else:
                    s[k] = x
        if not s:
            return 0
        if len(s) == 1:
            (v,) = s.values()
            return self.mkiv(w, v.p, v.lo, v.hi)
        # the width does not matter for operands that are not negative
        kk = (0 if all(v.lo >= 0 for v in s.values()) else w, frozenset(s))
        at = self.xors.get(kk)
        if at is None:
            hi = max((v.hi if v.lo >= 0 else masks(w)) for v in s.values())
            hi = (1 << hi.bit_length()) - 1
            at = self.xors[kk] = self.atom(0, min(hi, masks(w)), ("xor", w, list(s.values())), "xor")
            self.xorof[key({(at,): 1})] = s
        return IV(w, {(at,): 1}, 0, self.ahi[at])

    def _or(self, w, a, b):
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return a
            t = self._mask(w, a, b)
            if type(t) is int:
                return self._lin(w, self.lift(a, w), self.lift(b - t, w), 1)
            return self._lin(w, self._lin(w, a, self.lift(b, w), 1), t, -1)
        if not (isinstance(a, IV) and isinstance(b, IV)):
            raise ExecError("or of an integer and a bit vector")
        for x, y in ((a, b), (b, a)):
            j = min(val2(c) for c in x.p.values())
            if j and 0 <= y.lo and y.hi < 1 << j:
                return self._lin(w, x, y, 1)
        if a.lo >= 0 and b.lo >= 0:
            parts = {}
            for v in (a, b):
                d = self._ordef(v)
                parts.update(d if d is not None else {key(v.p): v})
            kk = ("or", frozenset(parts))
            at = self.xors.get(kk)
            if at is None:
                hi = (1 << max(a.hi, b.hi).bit_length()) - 1
                at = self.xors[kk] = self.atom(0, hi, ("or", w, parts), "or")
            return IV(w, {(at,): 1}, self.alo[at], self.ahi[at])
        raise ExecError("or of two integers")

    def _single(self, v):
        if isinstance(v, IV) and len(v.p) == 1:
            (m, c), = v.p.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def _ordef(self, v):
        a = self._single(v)
        d = a and self.adef[a]
        return d[2] if d and d[0] == "or" else None

    def _opsplit(self, v, w):
        """Arithmetic on an or-accumulator: fork on whether it is zero."""
        if self._ordef(v) is None:
            return v
        a = self._single(v)
        if self.alo[a] > 0:
            return IV(w, v.p, self.alo[a], self.ahi[a])
        c = self.icmp("eq", w, v, 0)
        if self.ex.branch(c):
            return 0
        self.alo[a] = 1
        return IV(w, v.p, 1, self.ahi[a])

    def ovf(self, k, w, a, b):
        if not self._int(a, b):
            return super().ovf(k, w, a, b)
        self.obligations += 1
        s = k[0] == "s"
        a, b = self._opsplit(a, w), self._opsplit(b, w)
        if not self._int(a, b):
            from ir import ovf
            return ovf(k, w, a, b)
        conv = self.signed if s else self.unsigned
        x, y = conv(a, w), conv(b, w)
        op = k[1:]
        if op == "mul":
            q = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
            r = IV(w, pmul(x.p, y.p), min(q), max(q))
        else:
            r = self._lin(w, x, y, 1 if op == "add" else -1)
            if type(r) is int:
                lo, hi = (x.lo + y.lo, x.hi + y.hi) if op == "add" else (x.lo - y.hi, x.hi - y.lo)
                r = self.lift(r, w, s)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, masks(w))
        if not (lo <= r.lo and r.hi <= hi):
            if not self.prove_range(r.p, lo, hi):
                raise Unproved(f"possible overflow in {k} ({w} bits): result range [{r.lo}, {r.hi}]")
            r = IV(w, r.p, max(lo, r.lo), min(hi, r.hi))
        return self.mkiv(w, r.p, r.lo, r.hi), 0

    def icmp(self, pred, w, a, b):
        if not self._int(a, b):
            return super().icmp(pred, w, a, b)
        if pred in ("eq", "ne"):
            # both in the same representation
            x, y = self.lift(a, w), self.lift(b, w)
            if x.lo < 0 or y.lo < 0:
                x, y = self.signed(a, w), self.signed(b, w)
            else:
                x, y = self.unsigned(a, w), self.unsigned(b, w)
            if y.p == {} and self._ordef(x) is not None and self.alo[self._single(x)] > 0:
                r = 0
            else:
                r = self._cond("eq", padd(x.p, y.p, -1), x.lo - y.hi, x.hi - y.lo)
            if pred == "eq":
                return r
            return 1 - r if type(r) is int else self.mkiv(1, padd({(): 1}, r.p, -1), 0, 1)
        conv = self.unsigned if pred[0] == "u" else self.signed
        x, y = conv(a, w), conv(b, w)
        p = pred[1:]
        if p in ("gt", "le"):
            x, y = y, x
        neg = p in ("le", "ge")
        q = padd(x.p, y.p, -1)
        lo, hi = self.refine(q, x.lo - y.hi, x.hi - y.lo)
        if self.prods and not lo >= 0 and not hi < 0:
            l, h = self.prods.get(key(q), (lo, hi))
            lo, hi = max(l, lo), min(h, hi)
        r = self._cond("lt", q, lo, hi)
        if neg:
            return 1 - r if type(r) is int else self.mkiv(1, padd({(): 1}, r.p, -1), 0, 1)
        return r

    def _cond(self, kind, p, lo, hi):
        if kind == "eq":
            if not p:
                return 1
            lo, hi = self.refine(p, lo, hi)
            if lo > 0 or hi < 0:
                return 0
            if lo == hi == 0:
                return 1
            # a bit compared with 0 or 1
            for s in (1, -1):
                q = pscale(p, s)
                l, h = (lo, hi) if s == 1 else (-hi, -lo)
                if l == 0 and h == 1:
                    return self.mkiv(1, padd({(): 1}, q, -1), 0, 1)
        else:
            if hi < 0:
                return 1
            if lo >= 0:
                return 0
        kk = (kind, key(p))
        a = self.conds.get(kk)
        if a is None:
            a = self.conds[kk] = self.atom(0, 1, ("cond", kind, p), kind)
        return IV(1, {(a,): 1}, 0, 1)

    def select(self, c, w, a, b):
        if isinstance(c, IV) or self._int(a, b):
            return a if self.ex.branch(c) else b
        return super().select(c, w, a, b)

    def zext(self, w1, w2, a):
        if not isinstance(a, IV):
            return super().zext(w1, w2, a)
        v = self.unsigned(a, w1)
        return self.mkiv(w2, v.p, v.lo, v.hi)

    def sext(self, w1, w2, a):
        if not isinstance(a, IV):
            return super().sext(w1, w2, a)
        v = self.signed(a, w1)
        return self.mkiv(w2, v.p, v.lo, v.hi)

    def trunc(self, w1, w2, a):
        if not isinstance(a, IV):
            return super().trunc(w1, w2, a)
        if w2 == 1:
            return self._mask(1, IV(w1, a.p, a.lo, a.hi), 1) if not (0 <= a.lo and a.hi <= 1) else self.mkiv(1, a.p, a.lo, a.hi)
        if -(1 << (w2 - 1)) <= a.lo and a.hi < 1 << w2:
            return self.mkiv(w2, a.p, a.lo, a.hi)
        v = self.mod2(a, w2)
        return self.mkiv(w2, v.p, v.lo, v.hi)

    def fsh(self, k, w, a, b, c):
        if self._int(a, b):
            raise ExecError("rotation of an integer")
        return super().fsh(k, w, a, b, c)

    def byte_of(self, v, i):
        if not isinstance(v, IV):
            return super().byte_of(v, i)
        return self._extract(v, i, 1)

    def _extract(self, v, i, n):
        if i == 0 and n * 8 == v.w:
            return v
        f = self.floor(v.p, v.lo, v.hi, 8 * i)
        t = self.mod2(IV(v.w, f.p, f.lo, f.hi), 8 * n) if not (0 <= f.lo and f.hi < 1 << 8 * n) else f
        return self.mkiv(8 * n, t.p, t.lo, t.hi)

    def concat(self, cells):
        if not any(type(c) is tuple and isinstance(c[0], IV) for c in cells):
            return super().concat(cells)
        out = IV(8 * len(cells), {}, 0, 0)
        i = 0
        while i < len(cells):
            c = cells[i]
            if type(c) is int:
                t, n = self.lift(c, 8), 1
            elif isinstance(c[0], IV):
                v, o = c
                n = 1
                while i + n < len(cells) and type(cells[i + n]) is tuple and cells[i + n][0] is v and cells[i + n][1] == o + n:
                    n += 1
                t = self._extract(v, o, n)
                t = self.unsigned(t, 8 * n)
            else:
                raise ExecError("mixed bytes")
            out = IV(out.w, padd(out.p, t.p, 1 << 8 * i), out.lo + (t.lo << 8 * i), out.hi + (t.hi << 8 * i))
            i += n
        return self.mkiv(out.w, out.p, out.lo, out.hi)

    # ---- path conditions
    def reset_path(self):
        super().reset_path()
        self.iknown, self.prods = {}, {}
        self.facts = []

    def cond_known(self, c):
        if not isinstance(c, IV):
            return super().cond_known(c)
        return self.iknown.get(key(c.p))

    def assume(self, c, v):
        if not isinstance(c, IV):
            return super().assume(c, v)
        self.iknown[key(c.p)] = v
        self.iknown[key(padd({(): 1}, c.p, -1))] = 1 - v
        self.facts.append((padd(c.p, {(): -v} if v else {}), 0, 0))
        # the comparison behind it
        for q, x in ((c.p, v), (padd({(): 1}, c.p, -1), 1 - v)):
            if len(q) == 1:
                (m, k), = q.items()
                d = self.adef[m[0]] if k == 1 and len(m) == 1 else None
                if d and d[0] == "cond":
                    if d[1] == "lt":
                        self.facts.append((d[2], None, -1) if x else (d[2], 0, None))
                    elif x:
                        self.facts.append((d[2], 0, 0))
                if k == 1 and len(m) == 1:
                    self.alo[m[0]] = self.ahi[m[0]] = x

    def same(self, a, b, w):
        if not self._int(a, b):
            return super().same(a, b, w)
        if a is UNDEF or b is UNDEF or isinstance(a, BV) or isinstance(b, BV):
            return False
        x, y = self.lift(a, w), self.lift(b, w)
        M = masks(w)
        return all(c & M == 0 for c in padd(x.p, y.p, -1).values())

    # ---- proofs
    def value(self, v, w, signed=True):
        return (self.signed if signed else self.unsigned)(v, w)

    def reduce_known(self, p):
        """p with atoms of fixed value replaced."""
        r = {}
        for m, c in p.items():
            n = []
            for a in m:
                if self.alo[a] == self.ahi[a]:
                    c *= self.alo[a]
                else:
                    n.append(a)
            n = tuple(n)
            v = r.get(n, 0) + c
            if v:
                r[n] = v
            else:
                r.pop(n, None)
        return r

    def zero_mod(self, p, m):
        return all(c % m == 0 for c in self.reduce_known(self.expand(p)).values())

    def prove_range(self, p, lo, hi, last=None, timeout=40000, extra=()):
        """lo <= p <= hi for all values of the atoms, by z3 over the atoms' definitions."""
        import time

        import z3
        t = time.time()
        self.z3_calls += 1
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", timeout)
        zv = {}
        todo = []

        def var(m):
            v = zv.get(m)
            if v is None:
                v = zv[m] = z3.Int("m" + "_".join(map(str, m)))
                l, h = self.range({m: 1})
                s.add(v >= l, v <= h)
                if len(m) == 1:
                    todo.append(m[0])
            return v

        def lin(q):
            return z3.Sum([c * var(m) if m else z3.IntVal(c) for m, c in q.items()] or [z3.IntVal(0)])
        g = lin(p)
        for q, l, h in list(self.facts) + list(extra):
            e = lin(q)
            if l is not None:
                s.add(e >= l)
            if h is not None:
                s.add(e <= h)
        n = 0
        done = set()
        while todo:
            todo = sorted(set(todo) - done)
            if not todo:
                break
            a = todo.pop()
            done.add(a)
            d = self.adef[a]
            if d and d[0] == "cond":
                e = lin(d[2])
                s.add((zv[(a,)] == 1) == ((e < 0) if d[1] == "lt" else (e == 0)))
            if d and d[0] == "alias":
                s.add(lin(d[1]) == zv[(a,)])
            if d and d[0] == "floor":
                n += 1
                if last is not None and n > last:
                    break
                e = lin(d[1])
                s.add(e - (1 << d[2]) * zv[(a,)] >= 0, e - (1 << d[2]) * zv[(a,)] <= (1 << d[2]) - 1)
        s.add(z3.Or(g < lo, g > hi))
        r = s.check()
        if r == z3.sat:
            mod = s.model()
            self.got = {m[0]: mod.eval(v, model_completion=True).as_long() for m, v in zv.items() if len(m) == 1}
        self.z3_time += time.time() - t
        return r == z3.unsat

    def tighten(self, a, cands, last, extra, timeout=20000):
        """The first candidate range that the atom provably has becomes its range."""
        for l, h in cands:
            if l <= self.alo[a] and self.ahi[a] <= h:
                return True
            if self.prove_range({(a,): 1}, l, h, last, timeout, extra):
                self.alo[a], self.ahi[a] = max(l, self.alo[a]), min(h, self.ahi[a])
                return True
        return False

    # ---- concrete evaluation (counterexamples)
    def evaluate(self, p, env):
        v = 0
        for m, c in p.items():
            t = c
            for a in m:
                t *= self.atom_value(a, env)
            v += t
        return v

    def holds_at(self, env):
        """Whether the facts of the path hold at a point."""
        for q, l, h in self.facts:
            v = self.evaluate(q, env)
            if l is not None and v < l or h is not None and v > h:
                return False
        return True

    def points(self, n=60):
        """Values of the atoms that satisfy the facts of the path."""
        missed = 0
        for k in range(n):
            env = {}
            if self.facts and not self.ipoint(env, k) or not self.holds_at(env):
                missed += 1
                if missed > 12:
                    return
                continue
            yield env

    def ipoint(self, env, turn):
        """Solves the facts for a few of the inputs, the others are chosen at random."""
        import random

        import z3
        def inputs(p):
            out, seen, todo = [], set(), [a for m in p for a in m]
            while todo:
                a = todo.pop()
                if a in seen:
                    continue
                seen.add(a)
                d = self.adef[a]
                if d is None:
                    out.append(a)
                elif d[0] in ("xor", "or"):
                    todo += [b for v in (d[2] if d[0] == "xor" else d[2].values()) for m in v.p for b in m]
                else:
                    todo += [b for m in d[2 if d[0] == "cond" else 1] for b in m]
            random.shuffle(out)
            return out
        # a comparison known to hold is a fact of its own; that two values differ is left to chance
        facts = [f for f in self.facts if not all(len(m) == 0 or len(m) == 1 and (self.adef[m[0]] or ("",))[0] == "cond" for m in f[0])]
        per = [inputs(q) for q, _, _ in facts]
        every = {a for x in per for a in x}
        zv, memo, sup = {}, {}, {}

        def support(a):
            if a not in sup:
                sup[a] = frozenset(inputs({(a,): 1}))
            return sup[a]
        apart = {}  # inputs that are multiplied with each other: one of them stays known
        for q, _, _ in facts:
            for m in q:
                for i in range(len(m)):
                    for j in range(i):
                        for a in support(m[i]):
                            apart.setdefault(a, set()).update(support(m[j]))
                        for a in support(m[j]):
                            apart.setdefault(a, set()).update(support(m[i]))
        n = (12, 2, 6, 1, 24)[turn % 5]
        for x in per:
            k = 0
            for a in x:
                if a not in zv and k < n and not any(a in apart.get(b, ()) for b in zv) and a not in apart.get(a, ()):
                    zv[a] = z3.Int(f"a{a}")
                    k += 1
        if len(every) <= 8 and turn < 2:
            zv = {a: z3.Int(f"a{a}") for a in every}

        def val(p):
            v = 0
            for m, c in p.items():
                t = c
                for a in m:
                    t = t * at(a)
                v = v + t
            return v

        def at(a):
            if a in zv:
                return zv[a]
            if a not in memo:
                d = self.adef[a]
                if d is None:
                    memo[a] = self.atom_value(a, env)
                elif d[0] in ("xor", "or"):
                    for v in d[2] if d[0] == "xor" else d[2].values():
                        if z3.is_expr(val(v.p)):
                            raise ExecError("bits of an unknown")
                    memo[a] = self.atom_value(a, {**env})
                else:
                    v = val(d[2 if d[0] == "cond" else 1])
                    if d[0] == "floor":
                        v = v / (1 << d[2]) if z3.is_expr(v) else v >> d[2]
                    elif d[0] == "cond":
                        c = v < 0 if d[1] == "lt" else v == 0
                        v = z3.If(c, z3.IntVal(1), z3.IntVal(0)) if z3.is_expr(v) else int(c)
                    memo[a] = v
            return memo[a]
        s = z3.Solver()
        s.set("timeout", 3000)
        for a, x in zv.items():
            s.add(x >= self.alo[a], x <= self.ahi[a])
        try:
            for q, l, h in facts:
                v = val(q)
                if l is not None:
                    s.add(v >= l)
                if h is not None:
                    s.add(v <= h)
        except ExecError:
            return False
        if s.check() != z3.sat:
            return False
        m = s.model()
        for a, x in zv.items():
            env[a] = m.eval(x, model_completion=True).as_long()
        return True

    def atom_value(self, a, env):
        x = env.get(a)
        if x is None:
            d = self.adef[a]
            if d is None:
                import random
                r = random.random()
                x = self.alo[a] if r < 0.15 else self.ahi[a] if r < 0.3 else random.randint(self.alo[a], self.ahi[a])
            elif d[0] == "alias":
                x = self.evaluate(d[1], env)
            elif d[0] == "floor":
                x = self.evaluate(d[1], env) >> d[2]
            elif d[0] == "xor":
                x = 0
                for v in d[2]:
                    x ^= self.evaluate(v.p, env) & masks(d[1])
            elif d[0] == "or":
                x = 0
                for v in d[2].values():
                    x |= self.evaluate(v.p, env) & masks(d[1])
            else:
                v = self.evaluate(d[2], env)
                x = int(v < 0 if d[1] == "lt" else v == 0)
            env[a] = x
        return x
