"""Domain of bit-precise symbolic data: every bit is a polynomial over GF(2) (algebraic normal form).

Canonical, so equality of two values is equality of their representations: this is the solver back end
("ANF") for the kernels built from bit operations and word additions.  Additions modulo 2^w are kept as
linear forms over words modulo 2^w (canonical up to associativity and commutativity) whose result bits
are fresh unknowns.  Functions under contract may be uninterpreted (uf).
"""
import hashlib
import random

from ir import UNDEF, ExecError, Unproved, masks

ZERO = frozenset()
ONE = frozenset([0])
LIMIT = 20000


class BV:
    __slots__ = ("w", "_bits", "zif", "lazy")

    def __init__(self, w, bits=None, zif=None, lazy=None):
        self.w = w
        self._bits = bits
        self.zif = zif
        self.lazy = lazy

    @property
    def bits(self):
        if self._bits is None:
            self._bits = self.lazy()
            self.lazy = None
        return self._bits

    def __repr__(self):
        return f"<BV{self.w}>"


class Domain:
    name = "ANF"

    def __init__(self):
        self.names = ["1"]
        self.mono = {}      # frozenset of vars -> monomial id
        self.monoset = [frozenset()]
        self.mm = {}
        self.sums = {}      # canonical sum key -> bits
        self.sumof = {}     # bits -> (w, const, dict)
        self.ufs = {}
        self.eqs = {}
        self.eqdef = {}
        self.known = {}
        self.obligations = 0

    # ---- polynomials
    def var(self, name):
        i = len(self.monoset)
        self.monoset.append(frozenset([i]))
        self.names.append(name)
        return i

    def mulmono(self, a, b):
        if a == 0 or a == b:
            return b
        if b == 0:
            return a
        k = (a, b) if a < b else (b, a)
        r = self.mm.get(k)
        if r is None:
            s = self.monoset[a] | self.monoset[b]
            r = self.mono.get(s)
            if r is None:
                if len(s) == 1:
                    (r,) = s
                else:
                    r = len(self.monoset)
                    self.monoset.append(s)
                    self.names.append(None)
                    self.mono[s] = r
            self.mm[k] = r
        return r

    def band(self, x, y):
        if not x or not y:
            return ZERO
        if x == ONE:
            return y
        if y == ONE or x == y:
            return x
        if len(x) * len(y) > LIMIT:
            raise ExecError("ANF product too large")
        r = set()
        for a in x:
            r ^= {self.mulmono(a, b) for b in y} if len(y) == 1 else self._row(a, y)
        return frozenset(r)

    def _row(self, a, y):
        r = set()
        for b in y:
            m = self.mulmono(a, b)
            if m in r:
                r.remove(m)
            else:
                r.add(m)
        return r

    def bor(self, x, y):
        if not x:
            return y
        if not y:
            return x
        return x ^ y ^ self.band(x, y)

    # ---- words
    def fresh(self, name, w):
        return BV(w, tuple(frozenset([self.var(f"{name}.{i}")]) for i in range(w)))

    def mk(self, bits):
        v = 0
        for i, b in enumerate(bits):
            if b == ONE:
                v |= 1 << i
            elif b:
                return BV(len(bits), tuple(bits))
        return v

    def bits(self, v, w):
        if type(v) is int:
            return tuple(ONE if v >> i & 1 else ZERO for i in range(w))
        if v is UNDEF:
            raise ExecError("operation on undefined")
        if not isinstance(v, BV):
            raise ExecError(f"bit operation on an abstract value {v!r}")
        return v.bits

    def binop(self, op, w, a, b):
        if a is UNDEF or b is UNDEF:
            raise ExecError("operation on undefined")
        if op in ("shl", "lshr", "ashr"):
            if type(b) is not int:
                raise ExecError("symbolic shift distance")
            if b >= w:
                raise ExecError("shift out of range")
            x = self.bits(a, w)
            if op == "shl":
                return self.mk((ZERO,) * b + x[: w - b])
            return self.mk(x[b:] + ((ZERO if op == "lshr" else x[-1]),) * b)
        if op == "xor":
            x, y = self.bits(a, w), self.bits(b, w)
            return self.mk(tuple(p ^ q for p, q in zip(x, y)))
        if op == "and":
            if type(a) is int:
                a, b = b, a
            x = self.bits(a, w)
            if type(b) is int:
                return self.mk(tuple(p if b >> i & 1 else ZERO for i, p in enumerate(x)))
            y = b.bits
            return self.mk(tuple(self.band(p, q) for p, q in zip(x, y)))
        if op == "or":
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                if b == 0:
                    return a
                return self.mk(tuple(ONE if b >> i & 1 else p for i, p in enumerate(self.bits(a, w))))
            za, zb = self.zif(a), self.zif(b)
            if a._bits is not None and b._bits is not None:
                x, y = a.bits, b.bits
                if all(not p or not q or p == q for p, q in zip(x, y)):
                    return self.mk(tuple(p or q for p, q in zip(x, y)))
            return BV(w, None, za | zb, lambda: tuple(self.bor(p, q) for p, q in zip(a.bits, b.bits)))
        if op in ("add", "sub"):
            return self.lin(w, [(1, a), (1 if op == "add" else -1, b)])
        if op == "mul":
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                return self.lin(w, [(b, a)])
            # a bit times a word
            for p, q in ((a, b), (b, a)):
                if all(not t for t in p.bits[1:]):
                    return self.mk(tuple(self.band(p.bits[0], t) for t in q.bits))
        if op in ("udiv", "urem") and type(b) is int and b & (b - 1) == 0 and b:
            k = b.bit_length() - 1
            return self.binop("lshr", w, a, k) if op == "udiv" else self.binop("and", w, a, b - 1)
        raise ExecError("symbolic " + op)

    def zif(self, v):
        """Constraints that all hold (are zero) exactly when v = 0."""
        if v.zif is None:
            v.zif = frozenset(b for b in v.bits if b)
        return v.zif

    def lin(self, w, terms):
        c, d = 0, {}
        for k, v in terms:
            if type(v) is int:
                c += k * v
                continue
            bits = self.bits(v, w)
            s = self.sumof.get(bits)
            if s is not None:
                c += k * s[1]
                for a, n in s[2].items():
                    d[a] = d.get(a, 0) + k * n
            else:
                d[bits] = d.get(bits, 0) + k
        M = masks(w)
        c &= M
        d = {a: n & M for a, n in d.items() if n & M}
        if not d:
            return c
        few = self.few(w, c, d)
        if few is not None:
            return few
        if c == 0 and len(d) == 1:
            (a, n), = d.items()
            if n & (n - 1) == 0:
                j = n.bit_length() - 1
                return self.mk((ZERO,) * j + a[: w - j])
        key = (w, c, frozenset(d.items()))
        r = self.sums.get(key)
        if r is None:
            r = self.fresh(f"sum{len(self.sums)}", w).bits
            self.sums[key] = r
            self.sumof[r] = (w, c, d)
        return BV(w, r)

    def few(self, w, c, d):
        """The sum, exactly: of words that have no bit in common, or of two bits at most."""
        M = masks(w)
        n = 0
        for a in d:
            for x in a:
                n += bool(x) and x != ONE
            if n > 2:
                break
        if n <= 2:
            var = sorted({x for a in d for x in a if x and x != ONE}, key=lambda x: sorted(x))
            r = [ZERO] * w
            for k in range(1 << len(var)):
                v = c
                on = {x for j, x in enumerate(var) if k >> j & 1} | {ONE}
                for a, m in d.items():
                    v += m * sum(1 << i for i, x in enumerate(a) if x in on)
                sel = ONE
                for j, x in enumerate(var):
                    sel = self.band(sel, x if k >> j & 1 else x ^ ONE)
                for i in range(w):
                    if v >> i & 1:
                        r[i] = r[i] ^ sel
            return self.mk(r)
        words = []
        for a, m in d.items():
            if m & (m - 1):
                return None
            j = m.bit_length() - 1
            words.append((ZERO,) * j + a[: w - j])
        words.append(tuple(ONE if c >> i & 1 else ZERO for i in range(w)))
        out = []
        for x in zip(*words):
            x = [b for b in x if b]
            if len(x) > 1:
                return None
            out.append(x[0] if x else ZERO)
        return self.mk(out)

    def hi(self, v, w):
        if type(v) is int:
            return v
        return sum(1 << i for i, b in enumerate(self.bits(v, w)) if b)

    def lo(self, v, w):
        if type(v) is int:
            return v
        return sum(1 << i for i, b in enumerate(self.bits(v, w)) if b == ONE)

    def ovf(self, k, w, a, b):
        self.obligations += 1
        ha, hb = self.hi(a, w), self.hi(b, w)
        la, lb = self.lo(a, w), self.lo(b, w)
        ok = False
        if k == "uadd":
            ok = ha + hb <= masks(w)
        elif k == "umul":
            ok = ha * hb <= masks(w)
        elif k == "usub":
            ok = la >= hb
        elif k == "sadd":
            ok = ha + hb <= masks(w - 1)
        elif k == "smul":
            ok = ha * hb <= masks(w - 1)
        elif k == "ssub":
            ok = ha <= masks(w - 1) and hb <= masks(w - 1)
        if not ok:
            raise Unproved(f"possible overflow in {k} ({w} bits)")
        return self.binop(k[1:], w, a, b), 0

    def icmp(self, pred, w, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred in ("eq", "ne"):
            if type(a) is int:
                a, b = b, a
            if b == 0 and type(b) is int and isinstance(a, BV):
                cons = self.zif(a)
            else:
                cons = frozenset(p ^ q for p, q in zip(self.bits(a, w), self.bits(b, w)) if p != q)
            r = self.all_zero(cons)
            return r if pred == "eq" else self.binop("xor", 1, r, 1) if type(r) is not int else 1 - r
        if pred in ("ult", "ule", "ugt", "uge"):
            if pred in ("ugt", "ule"):
                a, b = b, a
            # now a < b, negated for ule/uge
            neg = pred in ("ule", "uge")
            if self.hi(a, w) < self.lo(b, w):
                r = 1
            elif self.lo(a, w) >= self.hi(b, w):
                r = 0
            elif type(b) is int and b & (b - 1) == 0:
                r = self.all_zero(frozenset(x for x in self.bits(a, w)[b.bit_length() - 1 :] if x))
            elif type(a) is int and (a + 1) & a == 0:  # 2^k - 1 < b
                r = self.all_zero(frozenset(x for x in self.bits(b, w)[a.bit_length() :] if x))
                r = 1 - r if type(r) is int else self.binop("xor", 1, r, 1)
            else:
                r = self.uf("ult%d" % w, [(w, a), (w, b)], 1)
            if neg:
                r = 1 - r if type(r) is int else self.binop("xor", 1, r, 1)
            return r
        s = 1 << (w - 1)
        if pred in ("slt", "sge") and b == 0 and type(b) is int:
            r = self.binop("lshr", w, a, w - 1)
            r = self.trunc(w, 1, r)
            if pred == "sge":
                r = 1 - r if type(r) is int else self.binop("xor", 1, r, 1)
            return r
        return self.icmp("u" + pred[1:], w, self.binop("xor", w, a, s) if type(a) is not int else a ^ s, self.binop("xor", w, b, s) if type(b) is not int else b ^ s)

    def all_zero(self, cons):
        """The bit "every polynomial in cons is zero"."""
        cons = frozenset(c for c in cons if c)
        if not cons:
            return 1
        if ONE in cons:
            return 0
        if len(cons) == 1:
            (c,) = cons
            d = self.eqdef.get(c)
            return self.mk((c ^ ONE,))
        r = self.eqs.get(cons)
        if r is None:
            r = frozenset([self.var(f"eq{len(self.eqs)}")])
            self.eqs[cons] = r
            self.eqdef[r] = cons
        return BV(1, (r,))

    def equal_bytes(self, xs, ys):
        """The bit "two byte lists of the same length are equal"."""
        cons = set()
        for x, y in zip(xs, ys):
            cons |= {p ^ q for p, q in zip(self.bits(x, 8), self.bits(y, 8))}
        return self.all_zero(cons)

    def memcmp(self, a, b, ordered):
        cons = set()
        for x, y in zip(a, b):
            cons |= {p ^ q for p, q in zip(self.bits(x, 8), self.bits(y, 8)) if p != q}
        if not cons:
            return 0
        if ONE in cons and not ordered:
            return 1
        def no():
            raise ExecError("value of memcmp")
        return BV(32, None, frozenset(cons), no)

    def select(self, c, w, a, b):
        x, y = self.bits(a, w), self.bits(b, w)
        c = self.bits(c, 1)[0]
        return self.mk(tuple(self.band(c, p ^ q) ^ q for p, q in zip(x, y)))

    def zext(self, w1, w2, a):
        if a._bits is None:
            return BV(w2, None, a.zif, lambda: a.bits + (ZERO,) * (w2 - w1))
        return BV(w2, a.bits + (ZERO,) * (w2 - w1))

    def sext(self, w1, w2, a):
        x = self.bits(a, w1)
        return self.mk(x + (x[-1],) * (w2 - w1))

    def trunc(self, w1, w2, a):
        if type(a) is int:
            return a & masks(w2)
        return self.mk(self.bits(a, w1)[:w2])

    def fsh(self, k, w, a, b, c):
        x = self.bits(b, w) + self.bits(a, w)
        return self.mk(x[w - c : 2 * w - c] if k == "fshl" else x[c : c + w])

    def bswap(self, w, a):
        x = self.bits(a, w)
        return self.mk(sum((x[i : i + 8] for i in range(w - 8, -1, -8)), ()))

    def concat(self, cells):
        bits = []
        for c in cells:
            if type(c) is int:
                bits.extend(self.bits(c, 8))
            else:
                v, i = c
                if not isinstance(v, BV):
                    raise ExecError(f"reading part of an abstract value {v!r}")
                bits.extend(v.bits[8 * i : 8 * i + 8])
        return self.mk(tuple(bits))

    def uf(self, name, args, w):
        """Uninterpreted function; args are (width, value)."""
        key = (name, tuple(self.bits(v, n) for n, v in args), w)
        r = self.ufs.get(key)
        if r is None:
            r = self.fresh(f"{name}#{len(self.ufs)}", w).bits
            self.ufs[key] = r
        return BV(w, r)

    # ---- path conditions
    def reset_path(self):
        self.known = {}

    def cond_known(self, c):
        b = self.bits(c, 1)[0]
        return self.known.get(b)

    def assume(self, c, v):
        b = self.bits(c, 1)[0]
        self.known[b] = v
        self.known[b ^ ONE] = 1 - v

    # ---- specification helpers
    def same(self, a, b, w):
        if a is b:
            return True
        if type(a) is int and type(b) is int:
            return a == b
        if a is UNDEF or b is UNDEF:
            return False
        return self.bits(a, w) == self.bits(b, w)

    # ---- do two values of different form differ?
    def differ(self, a, b, w):
        """("equal" | "differ" | "unknown", an assignment): evaluation at random points, then a solver."""
        self.pointed = False
        if a is UNDEF or b is UNDEF:
            return "unknown", "an undefined value"
        try:
            n = 0
            for k in range(max(60, 2 * len(self.models()) if hasattr(self, "models") else 0)):
                e = Eval(self, k)
                if not e.path():
                    continue
                n += 1
                x, y = e.value(a, w), e.value(b, w)
                if x != y:
                    self.pointed = True
                    return "differ", f"{x:#x} instead of {y:#x} at a point found by evaluation"
                if n == 12 and not hasattr(self, "models"):
                    break
        except ExecError as e:
            return "unknown", str(e)
        r = None if getattr(self, "quick", False) else self.smt(a, b, w)
        if r is not None:
            return r
        return "unknown", "the values agree at every point tried" if n else "no point of the path was found"

    def smt(self, a, b, w, timeout=20000):
        import z3
        rev = Eval(self).rev()
        s = z3.SolverFor("QF_UFBV")
        s.set("timeout", timeout)
        zb, zm, words = {}, {}, {}
        free = []  # bits of integers, which are left open

        def wordof(bits):
            r = words.get(bits)
            if r is None:
                r = z3.Concat(*[z3.If(poly(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in reversed(bits)]) if len(bits) > 1 else z3.If(poly(bits[0]), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                words[bits] = r
            return r

        def var(i):
            r = zb.get(i)
            if r is None:
                r = zb[i] = z3.Bool(f"v{i}")
                d = rev.get(i)
                if d is not None:
                    kind, k, bits = d
                    if kind == "byte":
                        free.append(i)
                        return r
                    for x in bits:
                        for y in x:
                            if y and y not in zb:
                                zb[y] = z3.Bool(f"v{y}")
                    if kind == "sum":
                        t = z3.BitVecVal(k[1], k[0])
                        for q, m in k[2]:
                            t = t + wordof(q) * m
                        s.add(wordof(bits) == t)
                    elif kind == "int":
                        free.append(i)
                    elif kind == "eq":
                        s.add(r == z3.And([z3.Not(poly(c)) for c in k]))
                    elif k[0].startswith("ult"):
                        s.add(r == z3.ULT(wordof(k[1][0]), wordof(k[1][1])))
                    else:
                        f = z3.Function(f"{k[0]}.{'.'.join(str(len(q)) for q in k[1])}.{k[2]}", *[z3.BitVecSort(len(q)) for q in k[1]], z3.BitVecSort(k[2]))
                        s.add(wordof(bits) == f(*[wordof(q) for q in k[1]]))
            return r

        def poly(p):
            r = zm.get(p)
            if r is None:
                ts = []
                for m in p:
                    ts.append(z3.BoolVal(True) if m == 0 else z3.And([var(i) for i in self.monoset[m]]))
                r = z3.BoolVal(False)
                for t in ts:
                    r = z3.Xor(r, t)
                zm[p] = r
            return r
        try:
            x, y = self.bits(a, w), self.bits(b, w)
            for c, v in self.known.items():
                s.add(poly(c) == bool(v))
            s.add(z3.Or([z3.Xor(poly(p), poly(q)) for p, q in zip(x, y) if p != q]))
        except (ExecError, RecursionError):
            return None
        r = s.check()
        if r == z3.unsat:
            return "equal", ""
        if r == z3.sat and not free:
            m = s.model()
            return "differ", "solver: " + ", ".join(f"{self.names[i]}={int(z3.is_true(m[v]))}" for i, v in sorted(zb.items()) if i not in rev)[:600]
        return None

    def word(self, w, v):
        return Word(self, w, v)

    def byte_of(self, v, i):
        return (v >> 8 * i) & 255 if type(v) is int else self.mk(v.bits[8 * i : 8 * i + 8])


class Eval:
    """The value of bits at one random point; uninterpreted functions are random functions."""

    def __init__(self, d, turn=0):
        self.d, self.env, self.ints, self.turn, self.given, self.chosen, self.pending = d, {0: 1}, {}, turn, {}, {}, {}
        self.seed = random.getrandbits(64)
        self._rev = None

    def rev(self):
        """Variable -> what defines it."""
        if self._rev is None:
            d, r = self.d, {}
            for kind, t in (("sum", d.sums), ("uf", d.ufs)):
                for k, bits in t.items():
                    for x in bits:
                        if len(x) == 1:
                            r[next(iter(x))] = (kind, k, bits)
            for k, x in d.eqs.items():
                r[next(iter(x))] = ("eq", k, (x,))
            for k, bits in getattr(d, "ibits", {}).items():
                for x in bits:
                    if len(x) == 1 and next(iter(x)):
                        r.setdefault(next(iter(x)), ("int", k, bits))
            for k, bits in getattr(d, "bigbytes", {}).items():
                for x in bits:
                    r[next(iter(x))] = ("byte", k, bits)
            self._rev = r
        return self._rev

    def var(self, i):
        v = self.env.get(i)
        if v is not None:
            return v
        t = self.rev().get(i)
        if t is None:
            v = self.env[i] = random.getrandbits(1)
            return v
        kind, k, bits = t
        if kind == "sum":
            n = k[1] + sum(m * self.word(q) for q, m in k[2])
        elif kind == "uf" and k[0].startswith("ult"):
            n = int(self.word(k[1][0]) < self.word(k[1][1]))
        elif kind == "uf":
            n = int.from_bytes(hashlib.shake_128(repr((self.seed, k[0], [self.word(q) for q in k[1]])).encode()).digest(k[2] // 8 + 1), "little")
        elif kind == "int":
            n = self.d.evaluate(dict(k), self.ints)
        elif kind == "byte":  # equal offsets of one argument have one value
            n, at = self.byte(k), (k[0], self.d.evaluate(dict(k[1]), self.ints))
            for j in range(8):
                if (at, j) in self.given:
                    n = n & ~(1 << j) | self.given[at, j] << j
        else:
            n = int(not any(self.poly(c) for c in k))
        for j, x in enumerate(bits):
            if len(x) == 1:
                y = next(iter(x))
                if y and y not in self.env and (kind != "int" or self.rev().get(y) == t):
                    self.env[y] = n >> j & 1
        return self.env[i]

    def byte(self, k):
        return hashlib.shake_128(repr((self.seed, k[0], self.d.evaluate(dict(k[1]), self.ints))).encode()).digest(1)[0]

    # ---- conditions solved backwards
    def force(self, p, v, depth=0):
        """Chooses what is still open so that the polynomial p has the value v; whether it has."""
        ms = self.d.monoset
        cands = []
        for m in p:
            if len(ms[m]) == 1:
                i = next(iter(ms[m]))
                if i not in self.env and not any(i in ms[n] for n in p if n != m):
                    cands.append((i, m))
        order = {None: 0, "byte": 1, "uf": 2, "sum": 3, "eq": 4, "int": 5}
        random.shuffle(cands)
        cands.sort(key=lambda x: order[(self.rev().get(x[0]) or (None,))[0]])
        for i, m in cands if depth < 40 else ():
            rest = sum(1 for n in p if n != m and self.mono(n)) & 1
            if i not in self.env and self.setvar(i, v ^ rest, depth + 1):
                return True
            if i in self.env:
                break
        return self.poly(p) == v

    def setvar(self, i, v, depth):
        t = self.rev().get(i)
        if t is None:
            self.env[i] = v
            return True
        kind, k, bits = t
        j = next(j for j, x in enumerate(bits) if len(x) == 1 and next(iter(x)) == i)
        if kind == "byte":
            if self.given.setdefault(((k[0], self.d.evaluate(dict(k[1]), self.ints)), j), v) != v:
                return False
            self.env[i] = v
            return True
        if kind == "uf" and not k[0].startswith("ult"):
            for q in k[1]:
                self.word(q)
            if self.env.setdefault(i, v) != v:
                return False
            self.chosen[k] = bits
            return True
        if kind == "eq" and v:
            self.chosen[k] = bits
            return all(self.force(c, 0, depth) for c in sorted(k, key=max)) and self.env.setdefault(i, 1) == 1
        if kind == "sum":  # what is added is solved for by settle(), all bits together
            self.env[i] = v
            self.pending[k] = bits
            return True
        return self.var(i) == v

    def settle(self):
        """Solves each sum with chosen bits for one of its summands; whether that went."""
        while self.pending:
            k = next(reversed(self.pending))
            bits = self.chosen[k] = self.pending.pop(k)
            terms = [x for x in k[2] if x[1] & 1]
            random.shuffle(terms)
            deps = [(x, self.support(x[0])) for x in k[2]]

            def open_bits(x):  # that neither another summand nor what is known depends on
                others = set().union(*(y for z, y in deps if z is not x)) | self.env.keys()
                return sum(any(len(self.d.monoset[n]) == 1 and not self.d.monoset[n] & others for n in c) for c in x[0])
            terms.sort(key=open_bits, reverse=True)
            for c in bits:
                if len(c) == 1 and next(iter(c)):
                    self.env.setdefault(next(iter(c)), random.getrandbits(1))
            if not terms:
                return False
            q, m = terms[0]
            n = k[1]
            for q2, m2 in k[2]:
                if q2 is not q:
                    n += m2 * self.word(q2)
            n = (self.word(bits) - n) * pow(m, -1, 1 << k[0])
            if not all(self.force(c, n >> j & 1, 1) for j, c in enumerate(q) if c or n >> j & 1):
                return False
        return True

    def support(self, bits):
        """The variables a word depends on."""
        ms, rev, seen, done = self.d.monoset, self.rev(), set(), set()
        todo = [i for c in bits for n in c for i in ms[n]]
        while todo:
            i = todo.pop()
            if i in seen or not i:
                continue
            seen.add(i)
            t = rev.get(i)
            if t is None or id(t[1]) in done:
                continue
            done.add(id(t[1]))
            kind, k, _ = t
            words = [q for q, _ in k[2]] if kind == "sum" else k[1] if kind == "uf" else [k] if kind == "eq" else ()
            todo += [j for q in words for c in q for n in c for j in ms[n] if j not in seen]
        return seen

    def consistent(self):
        """Whether what was chosen backwards agrees with its definition, and equal arguments have equal results."""
        for k, bits in self.chosen.items():
            if type(k) is frozenset:
                if any(self.poly(c) for c in k) == self.poly(bits[0]):
                    return False
            elif len(k) == 3 and type(k[0]) is str:
                args = [self.word(q) for q in k[1]]
                for k2, b2 in self.d.ufs.items():
                    if k2 is not k and k2[0] == k[0] and k2[2] == k[2] and len(k2[1]) == len(k[1]) and any(len(x) == 1 and next(iter(x)) in self.env for x in b2) and args == [self.word(q) for q in k2[1]] and self.word(b2) != self.word(bits):
                        return False
            elif (k[1] + sum(m * self.word(q) for q, m in k[2])) & masks(k[0]) != self.word(bits):
                return False
        return True

    def mono(self, m):
        return all(self.var(i) for i in self.d.monoset[m]) if m else 1

    def poly(self, p):
        return sum(1 for m in p if self.mono(m)) & 1

    def word(self, bits):
        return sum(1 << i for i, x in enumerate(bits) if x and self.poly(x))

    def value(self, v, w):
        if type(v) is int:
            return v & masks(w)
        if hasattr(v, "p"):
            return self.d.evaluate(v.p, self.ints) & masks(w)
        return self.word(self.d.bits(v, w))

    def path(self):
        """Whether the point satisfies the path's conditions."""
        d = self.d
        if hasattr(d, "facts"):
            if hasattr(d, "models"):
                if not d.models():
                    d.solve({}, 1, 1)
                ms = d.models()
                if ms:
                    self.ints.update(ms[-1 - self.turn % len(ms)])
            elif d.facts and hasattr(d, "ipoint"):
                d.ipoint(self.ints, self.turn)
            for q, l, h in d.facts:
                v = d.evaluate(q, self.ints)
                if l is not None and v < l or h is not None and v > h:
                    return False
        rev = self.rev()

        def rank(cv):
            t = rev.get(next(iter(cv[0]))) if len(cv[0]) == 1 else None
            return not (t is None or t[0] == "byte"), not (t is not None and t[0] == "eq" and cv[1])
        for c, v in sorted(((c, v) for c, v in d.known.items() if 0 not in c), key=rank):
            if not self.force(c, v) or not self.settle():
                return False
        if not self.consistent():
            return False
        return all(self.poly(c) == v for c, v in d.known.items())


class Word:
    """A w-bit value with operators, for writing specifications once for any domain."""

    __slots__ = ("d", "w", "v")

    def __init__(self, d, w, v):
        self.d, self.w, self.v = d, w, v

    def _op(self, op, o, conc):
        o = o.v if isinstance(o, Word) else o & masks(self.w)
        if type(self.v) is int and type(o) is int:
            return Word(self.d, self.w, conc(self.v, o) & masks(self.w))
        return Word(self.d, self.w, self.d.binop(op, self.w, self.v, o))

    def __add__(self, o):
        return self._op("add", o, lambda a, b: a + b)

    def __xor__(self, o):
        return self._op("xor", o, lambda a, b: a ^ b)

    def __and__(self, o):
        return self._op("and", o, lambda a, b: a & b)

    def __invert__(self):
        return self ^ masks(self.w)

    def __rshift__(self, n):
        return self._op("lshr", n, lambda a, b: a >> b)

    def rotr(self, n):
        n %= self.w
        if type(self.v) is int:
            x = self.v << self.w | self.v
            return Word(self.d, self.w, x >> n & masks(self.w))
        return Word(self.d, self.w, self.d.fsh("fshr", self.w, self.v, self.v, n))

    def rotl(self, n):
        return self.rotr(self.w - n)
