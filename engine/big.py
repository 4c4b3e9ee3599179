"""Functions whose inputs have symbolic lengths: byte strings of unknown length, and loops over them.

A Big is a memory object of symbolic size.  Its bytes are an unknown function of the address polynomial;
what the code writes is kept per address, and an access whose bounds, or whose distinctness from earlier
writes, the path facts do not establish is an error.  Lengths, offsets and counters are the integer
polynomials of intdom.py; branches on them are decided by the facts of the path where those decide them
(z3, linear integer arithmetic) and fork otherwise.

A loop is handled by induction: induct() guesses which registers and memory words are linear in the
iteration number from one execution of the body, checks on the generic iteration that the guess is
preserved (dropping what is not), and lets the obligation check what the generic iteration does.  The
number of iterations is not bounded.
"""
import anf
import cut
import ir
from anf import BV, ONE, ZERO
from intdom import IV, Domain, key, padd, pmul, pscale
from ir import OFFM, SHIFT, UNDEF, ExecError, Panic, Unproved, masks
from prove import Failed, Token


def isconst(p):
    return not p or len(p) == 1 and () in p


class BigDomain(Domain):
    name = "integer polynomials and ANF bytes"

    def __init__(self):
        self.pool = []
        super().__init__()
        self.ibits = {}
        self.cache = {}
        self.pool, self.got = [], None
        self.ex = None
        self.reset_path()

    # ---- facts
    def reset_path(self):
        super().reset_path()
        self.bigbytes = getattr(self, "bigbytes", {})
        self.cache = {}
        self.dirs, self.ndirs, self.whole = {}, 0, set()
        self.valid, self.nvalid = list(self.pool), 0

    @staticmethod
    def direction(p):
        """(sign-normalised polynomial without its constant, constant, sign)"""
        c = p.get((), 0)
        k = frozenset((m, x) for m, x in p.items() if m)
        f = min(k)[1]
        return (k, c, 1) if f > 0 else (frozenset((m, -x) for m, x in k), c, -1)

    def learn(self):
        while self.ndirs < len(self.facts):
            p, lo, hi = self.facts[self.ndirs]
            self.ndirs += 1
            if isconst(p):
                continue
            k, c, s = self.direction(p)
            lo, hi = (None if lo is None else lo - c), (None if hi is None else hi - c)
            if s < 0:
                lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            l, h = self.dirs.get(k, (None, None))
            if lo is not None and (l is None or lo > l):
                l = lo
            if hi is not None and (h is None or hi < h):
                h = hi
            self.dirs[k] = l, h

    def bounds(self, p):
        lo, hi = self.range(p)
        if isconst(p):
            return lo, hi
        self.learn()
        k, c, s = self.direction(p)
        b = self.dirs.get(k)
        if b is not None:
            l, h = b if s > 0 else (None if b[1] is None else -b[1], None if b[0] is None else -b[0])
            if l is not None:
                lo = max(lo, l + c)
            if h is not None:
                hi = min(hi, h + c)
        return lo, hi

    def entails(self, p, lo=None, hi=None):
        l, h = self.bounds(p)
        if (lo is None or l >= lo) and (hi is None or h <= hi):
            return True
        if isconst(p):
            return self.solve({}, 1, 1)
        k = (key(p), lo, hi)
        r = self.cache.get(k)
        if r is None or not r[0] and r[1] != len(self.facts):
            r = self.cache[k] = (self.solve(p, lo, hi), len(self.facts))
        return r[0]

    def model_value(self, p, m):
        v = 0
        for mon, c in p.items():
            for a in mon:
                x = m.get(a)
                if x is None:
                    d = self.adef[a]
                    if not d or d[0] not in ("cond", "floor"):
                        return None
                    if d[0] == "cond":
                        e = self.model_value(d[2], m)
                        x = None if e is None else int(e < 0 if d[1] == "lt" else e == 0)
                    else:
                        e = self.model_value(d[1], m)
                        x = None if e is None else e >> d[2]
                    if x is None:
                        return None
                    m[a] = x
                c *= x
            v += c
        return v

    def holds(self, m, q, l, h):
        v = self.model_value(q, m)
        return v is not None and (l is None or v >= l) and (h is None or v <= h)

    def models(self):
        """Known assignments that satisfy the facts of the path."""
        if self.nvalid < len(self.facts):
            new = self.facts[self.nvalid :]
            self.valid = [m for m in self.valid if all(self.holds(m, *f) for f in new)]
            self.nvalid = len(self.facts)
        return self.valid

    def solve(self, p, lo, hi, extra=()):
        """Whether lo <= p <= hi follows from the facts: z3, after the assignments z3 found before."""
        for m in self.models():
            v = self.model_value(p, m)
            if v is not None and (lo is not None and v < lo or hi is not None and v > hi) and all(self.holds(m, *f) for f in extra):
                return False
        self.got = None
        r = self.prove_range(p, -(1 << 200) if lo is None else lo, 1 << 200 if hi is None else hi, timeout=5000, extra=extra)
        if not r and self.got is not None:
            m = self.got
            if all(self.holds(m, *f) for f in self.facts):
                self.valid.append(m)
                self.pool.append(m)
                if len(self.pool) > 300:
                    del self.pool[:100]
        return r

    def prove_range(self, p, lo, hi, last=None, timeout=5000, extra=()):
        """As in Domain, with the strongest known range of every linear form and only what it takes."""
        import time

        import z3
        t = time.time()
        self.z3_calls += 1
        self.learn()
        decl, body, todo = {}, [], []

        def num(c):
            return str(c) if c >= 0 else f"(- {-c})"

        def var(m):
            v = decl.get(m)
            if v is None:
                v = decl[m] = "m" + "_".join(map(str, m))
                l, h = self.range({m: 1})
                body.append(f"(assert (<= {num(l)} {v} {num(h)}))")
                if len(m) == 1:
                    todo.append(m[0])
            return v

        def lin(q):
            ts = [(num(c) if not m else var(m) if c == 1 else f"(* {num(c)} {var(m)})") for m, c in (q.items() if type(q) is dict else q)]
            return "(+ 0 " + " ".join(ts) + ")" if ts else "0"

        def rng(e, l, h):
            if l is not None:
                body.append(f"(assert (<= {num(l)} {e}))")
            if h is not None:
                body.append(f"(assert (<= {e} {num(h)}))")
        g = lin(p)
        for q, l, h in extra:
            rng(lin(q), l, h)
        conds = {}
        for k, (l, h) in self.dirs.items():
            if len(k) == 1:
                (m, c), = k
                if len(m) == 1 and l == h and self.implied(m[0]):
                    conds[m[0]] = l
                    continue
            rng(lin(k), l, h)
        done = set()
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            d = self.adef[a]
            v = decl[(a,)]
            if a in conds:
                body.append(f"(assert (= {v} {conds[a]}))")
                continue
            if d and d[0] == "cond":
                e = lin(d[2])
                body.append(f"(assert (= (= {v} 1) ({'<' if d[1] == 'lt' else '='} {e} 0)))")
            if d and d[0] == "alias":
                body.append(f"(assert (= {lin(d[1])} {v}))")
            if d and d[0] == "floor":
                e = lin(d[1])
                body.append(f"(assert (<= 0 (- {e} (* {1 << d[2]} {v})) {(1 << d[2]) - 1}))")
        body.append(f"(assert (or (< {g} {num(lo)}) (> {g} {num(hi)})))")
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", timeout)
        s.from_string("".join(f"(declare-const {v} Int)" for v in decl.values()) + "".join(body))
        r = s.check()
        if r == z3.sat:
            mod = s.model()
            vals = {f.name(): mod[f].as_long() for f in mod.decls()}
            self.got = {m[0]: vals[v] for m, v in decl.items() if len(m) == 1 and v in vals}
        self.z3_time += time.time() - t
        return r == z3.unsat

    def implied(self, a):
        """A condition whose value the path knows, all of whose meaning is among the facts."""
        d = self.adef[a]
        return bool(d) and d[0] == "cond" and (d[1] == "lt" or a in self.whole)

    def add_fact(self, p, lo, hi):
        self.facts.append((p, lo, hi))

    def nonzero(self, p):
        l, h = self.bounds(p)
        return l > 0 or h < 0 or isconst(p) and bool(p) or self.solve({}, 1, 1, [(p, 0, 0)])

    def _cond(self, kind, p, lo, hi):
        l, h = self.bounds(p)
        lo, hi = max(lo, l), min(hi, h)
        r = super()._cond(kind, p, lo, hi)
        if type(r) is int:
            return r
        k = self.iknown.get(key(r.p))
        if k is not None:
            return k
        if kind == "lt":
            if self.entails(p, hi=-1):
                return 1
            if self.entails(p, lo=0):
                return 0
        else:
            if self.entails(p, 0, 0):
                return 1
            if self.nonzero(p):
                return 0
        return r

    def assume(self, c, v):
        if not isinstance(c, IV):
            return anf.Domain.assume(self, c, v)
        self.iknown[key(c.p)] = v
        self.iknown[key(padd({(): 1}, c.p, -1))] = 1 - v
        self.facts.append((padd(c.p, {(): -v} if v else {}), 0, 0))
        for q, x in ((c.p, v), (padd({(): 1}, c.p, -1), 1 - v)):
            if len(q) == 1:
                (m, k), = q.items()
                d = self.adef[m[0]] if k == 1 and len(m) == 1 else None
                if d and d[0] == "cond":
                    if d[1] == "lt":
                        self.facts.append((d[2], None, -1) if x else (d[2], 0, None))
                    elif x:
                        self.facts.append((d[2], 0, 0))
                        self.whole.add(m[0])
                    else:
                        self.whole.discard(m[0])
                        l, h = self.bounds(d[2])
                        if l == 0:
                            self.facts.append((d[2], 1, None))
                        if h == 0:
                            self.facts.append((d[2], None, -1))

    def feasible(self):
        return not self.solve({}, 1, 1)

    def concretise(self, ex, v, limit=4096):
        """Forks on the values of a length or address (bisection)."""
        if type(v) is int:
            return v
        v = self.lift(v, 64)
        lo, hi = self.bounds(v.p)
        if hi - lo > limit:
            if lo < 0 and self.entails(v.p, lo=0):
                lo = 0
            for k in (15, 63, 127, 255, limit):
                if lo >= 0 and self.entails(v.p, hi=lo + k):
                    hi = lo + k
                    break
            else:
                raise ExecError("a symbolic length or address with too many values")
        while lo < hi:
            mid = (lo + hi) // 2
            if ex.branch(self.icmp("ult", v.w, v, mid + 1)):
                hi = mid
            else:
                lo = mid + 1
            l, h = self.bounds(v.p)
            lo, hi = max(lo, l), min(hi, h)
        return lo

    def differ(self, a, b, w):
        """As in Domain; the difference of two integers at an assignment that satisfies the facts of the path."""
        if self._int(a, b) and not isinstance(a, BV) and not isinstance(b, BV):
            p = padd(self.lift(a, w).p, self.lift(b, w).p, -1)
            self.entails(p, 0, 0)
            for m in self.models():
                v = self.model_value(p, m)
                if v is not None and v & masks(w):
                    return "differ", self.describe(m)
            return "unknown", "the difference of the integers is not decided"
        self.spread()
        return super().differ(a, b, w)

    def describe(self, m):
        return "at " + ", ".join(f"{self.aname[a]}={v}" for a, v in sorted(m.items()) if not self.adef[a])[:400]

    def spread(self):
        """Assignments with large values of every unknown and either value of every condition, for evaluation."""
        for a in [a for a in range(len(self.adef)) if self.adef[a] and self.adef[a][0] == "cond"][-8:]:
            for v in (0, 1):
                self.solve({(a,): 1}, 1 - v, 1 - v)
        for a in [a for a in range(len(self.adef)) if self.adef[a] is None and self.ahi[a] >= 1 << 16][:8]:
            for k in (16, 32, self.ahi[a].bit_length() - 2):
                if 1 << k < self.ahi[a]:
                    self.solve({(a,): 1}, None, (1 << k) - 1)

    # ---- integers and bits
    def unsigned(self, v, w):
        v = self.lift(v, w, False)
        n = 1 << w
        if 0 <= v.lo and v.hi < n:
            return v
        if self.entails(v.p, 0, n - 1):
            lo, hi = self.bounds(v.p)
            return IV(w, v.p, max(0, v.lo, lo), min(n - 1, v.hi, hi))
        return self.mod2(v, w)

    def signed(self, v, w):
        v = self.lift(v, w, True)
        h = 1 << (w - 1)
        if -h <= v.lo and v.hi < h:
            return v
        if self.entails(v.p, -h, h - 1):
            return IV(w, v.p, max(-h, v.lo), min(h - 1, v.hi))
        return super().signed(v, w)

    def polybits(self, p):
        """64 unknown bits of the integer p (modulo 2^64); the same for the same polynomial."""
        k = key(p)
        r = self.ibits.get(k)
        if r is not None:
            return r
        if isconst(p):
            r = anf.Domain.bits(self, p.get((), 0) & masks(64), 64)
        else:
            # exact split: the constant's low bits, and the rest
            z = min((c & -c).bit_length() - 1 for m, c in p.items() if m)
            if z:
                c0 = p.get((), 0) & masks(z)
                rest = {m: c >> z for m, c in p.items() if c >> z}
                r = (anf.Domain.bits(self, c0, z) + self.polybits(rest))[:64]
            elif len(p) == 1 and self._floorof(p) is not None:
                P, n = self._floorof(p)
                lo, hi = self.range(P)
                r = self.polybits(P)[n:] + (ZERO,) * n if 0 <= lo and hi < 1 << 64 else None
            else:
                for m, c in p.items():
                    d = self.adef[m[0]] if len(m) == 1 else None
                    if d and d[0] == "floor" and c < 0 and -c & (-c - 1) == 0:
                        n = (-c).bit_length() - 1
                        q = dict(p)
                        del q[m]
                        f = self.floor(q, *self.range(q), n)
                        if f.p == {m: 1}:
                            r = self.polybits(q)[:n] + (ZERO,) * (64 - n)
                            break
            if r is None:
                lo, hi = self.range(p)
                n = hi.bit_length() if lo >= 0 else 64
                b = self.fresh(f"int{len(self.ibits)}", min(n, 64)).bits
                r = b + (ZERO,) * (64 - len(b))
        self.ibits[k] = r
        return r

    def _floorof(self, p):
        (m, c), = p.items()
        d = self.adef[m[0]] if c == 1 and len(m) == 1 else None
        return (d[1], d[2]) if d and d[0] == "floor" else None

    def bits(self, v, w):
        if isinstance(v, IV):
            if w > 64:
                raise ExecError("wide integer")
            return self.polybits(v.p)[:w]
        return super().bits(v, w)

    def tobv(self, v, w):
        return self.mk(self.bits(v, w)) if isinstance(v, IV) else v

    def binop(self, op, w, a, b):
        if isinstance(a, BV) or isinstance(b, BV):
            return anf.Domain.binop(self, op, w, self.tobv(a, w), self.tobv(b, w))
        if w == 1 and op in ("and", "or") and self._int(a, b):
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                return (a if b else 0) if op == "and" else (1 if b else a)
            x = self.ex.branch(a)
            return (b if x else 0) if op == "and" else (1 if x else b)
        if op in ("udiv", "urem") and type(b) is int and b and b & (b - 1):
            return self.divrem(op, w, a, b)
        try:
            return super().binop(op, w, a, b)
        except ExecError:
            if a is UNDEF or b is UNDEF or op in ("mul", "udiv", "urem", "sdiv", "srem"):
                raise
            return anf.Domain.binop(self, op, w, self.tobv(a, w), self.tobv(b, w))

    def divrem(self, op, w, a, b):
        """Division by a constant: a quotient atom defined by its facts."""
        x = self.unsigned(a, w)
        k = ("div", key(x.p), b)
        q = self.floors.get(k)
        if q is None:
            q = self.floors[k] = self.atom(0, self.range(x.p)[1] // b if self.range(x.p)[1] < 1 << 64 else masks(64) // b, None, f"div{b}")
        r = padd(x.p, {(q,): -b})
        if not any(f[0] == r for f in self.facts):
            self.facts.append((r, 0, b - 1))
        return self.mkiv(w, {(q,): 1}, self.alo[q], self.ahi[q]) if op == "udiv" else self.mkiv(w, r, 0, b - 1)

    def ovf(self, k, w, a, b):
        """Overflow checks are branches of the path like any other."""
        if isinstance(a, BV) or isinstance(b, BV) or type(a) is int and type(b) is int:
            return anf.Domain.ovf(self, k, w, self.tobv(a, w), self.tobv(b, w))
        self.obligations += 1
        s = k[0] == "s"
        conv = self.signed if s else self.unsigned
        x, y = conv(a, w), conv(b, w)
        if k[1:] == "mul":
            q = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
            p, l, h = pmul(x.p, y.p), min(q), max(q)
        elif k[1:] == "add":
            p, l, h = padd(x.p, y.p), x.lo + y.lo, x.hi + y.hi
        else:
            p, l, h = padd(x.p, y.p, -1), x.lo - y.hi, x.hi - y.lo
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, masks(w))
        for c in ((self._cond("lt", padd({(): hi}, p, -1), hi - h, hi - l), self._cond("lt", padd(p, {(): -lo} if lo else {}), l - lo, h - lo))):
            if self.ex.branch(c):
                return self.unsigned(self.mkiv(w, p, l, h), w), 1
        return self.mkiv(w, p, max(lo, l), min(hi, h)), 0

    def icmp(self, pred, w, a, b):
        if isinstance(a, BV) and isinstance(b, IV) or isinstance(a, IV) and isinstance(b, BV):
            return anf.Domain.icmp(self, pred, w, self.tobv(a, w), self.tobv(b, w))
        return super().icmp(pred, w, a, b)

    def select(self, c, w, a, b):
        if isinstance(c, IV) or self._int(a, b):
            return a if self.ex.branch(c) else b
        return anf.Domain.select(self, c, w, a, b)

    def trunc(self, w1, w2, a):
        if isinstance(a, IV) and w2 > 1:
            if 0 <= a.lo and a.hi < 1 << w2:
                return self.mkiv(w2, a.p, a.lo, a.hi)
            if self.entails(a.p, 0, masks(w2)):
                return self.mkiv(w2, a.p, max(a.lo, 0), min(a.hi, masks(w2)))
            if w2 >= 16:
                v = self.mod2(a, w2)
                return self.mkiv(w2, v.p, v.lo, v.hi)
            return self.mk(self.bits(a, w2))
        return super().trunc(w1, w2, a)

    def fsh(self, k, w, a, b, c):
        return anf.Domain.fsh(self, k, w, self.tobv(a, w), self.tobv(b, w), c)

    def bswap(self, w, a):
        return anf.Domain.bswap(self, w, self.tobv(a, w))

    def _extract(self, v, i, n):
        if i == 0 and 8 * n == v.w:
            return v
        p = v.p
        lo, hi = self.bounds(p)
        if lo == hi:
            return lo >> 8 * i & masks(8 * n)
        for k, take in ((8 * i, False), (8 * n, True)):
            Y = {m: c & masks(k) if m == () else c for m, c in p.items() if c & masks(k)}
            lo, hi = self.range(Y)
            if not (0 <= lo and hi <= masks(k)) and not self.entails(Y, 0, masks(k)):
                if 8 * (i + n) > 64:
                    raise ExecError("part of a wide integer")
                return self.mk(self.polybits(v.p)[8 * i : 8 * (i + n)])
            p = Y if take else {m: c >> k for m, c in p.items() if m == () and c >> k or not c & masks(k)}
        return self.mkiv(8 * n, p, *self.range(p))

    def byte_of(self, v, i):
        return self._extract(v, i, 1) if isinstance(v, IV) else anf.Domain.byte_of(self, v, i)

    def concat(self, cells):
        if not any(type(c) is tuple and isinstance(c[0], IV) for c in cells):
            return anf.Domain.concat(self, cells)
        parts, i = [], 0
        while i < len(cells):
            c = cells[i]
            if type(c) is int:
                parts.append((c, 1))
                i += 1
                continue
            v, o = c
            n = 1
            while i + n < len(cells) and type(cells[i + n]) is tuple and cells[i + n][0] is v and cells[i + n][1] == o + n:
                n += 1
            if isinstance(v, IV):
                parts.append((self._extract(v, o, n), n))
            elif isinstance(v, BV):
                parts.append((self.mk(v.bits[8 * o : 8 * (o + n)]), n))
            else:
                raise ExecError(f"reading part of an abstract value {v!r}")
            i += n
        w = 8 * len(cells)
        if any(isinstance(v, BV) for v, _ in parts):
            return self.mk(sum((self.bits(v, 8 * n) for v, n in parts), ()))
        p, lo, hi, s = {}, 0, 0, 0
        for v, n in parts:
            t = self.unsigned(v, 8 * n)
            p, lo, hi, s = padd(p, t.p, 1 << s), lo + (t.lo << s), hi + (t.hi << s), s + 8 * n
        return self.mkiv(w, p, lo, hi)

    # ---- messages: sequences of bytes, parts of arguments (Seg) and opaque strings (with a name)
    def settle(self, p):
        """The polynomial, or its value where the facts fix it."""
        if isconst(p):
            return p
        lo, hi = self.bounds(p)
        c = {lo, hi} if hi - lo < 1 << 64 else set()
        for m in self.models()[-1:]:
            v = self.model_value(p, m)
            if v is not None:
                c = {v}
        for v in c:
            if self.entails(p, v, v):
                return {(): v} if v else {}
        return p

    def normal(self, msg):
        """Parts merged where they adjoin, empty ones dropped, single bytes of an argument as parts of it."""
        at = {self.bits(v[0], 8): (b, k) for b in self.ex.bigs.values() for k, v in b.memo.items()}
        out = []
        for x in msg:
            if x is UNDEF or type(x) is tuple:
                raise ExecError("an undefined byte in a message")
            if type(x) is not int and not isinstance(x, Seg) and not hasattr(x, "name"):
                w = at.get(self.bits(x, 8))
                if w is not None:
                    x = Seg(w[0], dict(w[1]), {(): 1})
            if isinstance(x, Seg):
                n = self.settle(x.n)
                if not n:
                    continue
                x = Seg(x.big, self.settle(x.off), n)
                l = out[-1] if out else None
                if isinstance(l, Seg) and l.big is x.big and self.entails(padd(padd(l.off, l.n), x.off, -1), 0, 0):
                    out[-1] = Seg(l.big, l.off, self.settle(padd(l.n, x.n)))
                    continue
            out.append(x)
        for j, x in enumerate(out):
            if isinstance(x, Seg) and self.entails(padd(padd(x.big.size, x.off, -1), x.n, -1), 0, 0):
                out[j] = Seg(x.big, x.off, padd(x.big.size, x.off, -1))
        return out

    def message(self, msg):
        """As arguments of an uninterpreted function."""
        out = []
        for x in self.normal(msg):
            if isinstance(x, Seg):
                b = x.big
                if not x.off and not padd(b.size, x.n, -1):
                    out.append((64, b.content))
                else:
                    iv = lambda p: self.mkiv(64, p, *self.range(p))
                    out.append((64, self.uf("part", [(64, b.content), (64, iv(x.off)), (64, iv(x.n))], 64)))
            else:
                out.append((64, x.name) if hasattr(x, "name") else (8, x))
        return out

    def same_message(self, a, b):
        a, b = self.normal(a), self.normal(b)
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, Seg) and isinstance(y, Seg):
                if x.big is not y.big or not self.entails(padd(x.off, y.off, -1), 0, 0) or not self.entails(padd(x.n, y.n, -1), 0, 0):
                    return False
            elif isinstance(x, Seg) or isinstance(y, Seg):
                return False
            elif hasattr(x, "name") or hasattr(y, "name"):
                if not (hasattr(x, "name") and hasattr(y, "name") and self.same(x.name, y.name, 64)):
                    return False
            elif not self.same(x, y, 8):
                return False
        return True

    def same(self, a, b, w):
        if a is b:
            return True
        if a is UNDEF or b is UNDEF or isinstance(a, Token) or isinstance(b, Token):
            return False
        if isinstance(a, BV) or isinstance(b, BV):
            return self.bits(a, w) == self.bits(b, w)
        if self._int(a, b):
            p = padd(self.lift(a, w).p, self.lift(b, w).p, -1)
            return all(c & masks(w) == 0 for c in p.values()) or self.entails(p, 0, 0)
        return a == b


# ---------------------------------------------------------------- memory
class Big:
    __slots__ = ("base", "size", "name", "ro", "cells", "init", "memo", "d", "content", "valid", "alias", "order", "groups", "nfacts", "origin")

    def __init__(self, ex, name, size, ro=True):
        self.d = ex.d
        self.base = ex.alloc(0, name)
        self.size = size if type(size) is int else dict(size.p)
        if type(self.size) is int:
            self.size = {(): self.size} if self.size else {}
        self.name, self.ro = name, ro
        self.cells, self.memo = {}, {}
        self.init = True
        self.valid = None
        self.origin = None  # what it has been overwritten with as a whole
        self.alias = getattr(getattr(ex, "run", None), "alias", False)
        self.order, self.groups, self.nfacts = {(): {}}, {}, -1
        self.content = self.d.fresh("content of " + name, 64)
        ex.bigs[self.base >> SHIFT] = self

    def off(self, p):
        q = {(): p} if type(p) is int else p.p
        return padd(q, {(): self.base}, -1)

    def check(self, off, n):
        d = self.d
        if not d.entails(off, lo=0) or not d.entails(padd(padd(self.size, off, -1), {(): -n}), lo=0):
            raise ExecError(f"bounds of {self.name}")

    def at(self, off):
        """The byte at an offset (polynomial) before any write."""
        if self.origin is not None:
            return self.origin.at(off)
        if self.alias:
            off = self.canonical(off)
        k = key(off)
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = (self.d.fresh(f"{self.name}[{len(self.memo)}]", 8), 0)
            self.d.bigbytes[self.base, k] = v[0].b if hasattr(v[0], "b") else self.d.bits(v[0], 8)
        return v

    def value_at(self, off):
        return self.at(off)[0]

    def read(self, ex, p, n):
        off = self.off(p)
        self.check(off, n)
        if not self.init:
            raise ExecError("contents of " + self.name)
        if self.valid is not None and not self.d.entails(padd(off, self.valid, -1), lo=0):
            raise ExecError(f"reading back {self.name}")
        out = []
        for j in range(n):
            o = padd(off, {(): j} if j else {})
            c = self.cells.get(key(o))
            if c is None:
                for q, _ in self.cells.values():
                    self.apart(o, q)
                out.append(self.at(o))
            else:
                out.append(c[1])
        return out

    def apart(self, o, q):
        r = padd(o, q, -1)
        if not (isconst(r) and r) and not self.d.nonzero(r):
            raise ExecError("accesses to " + self.name + " that may overlap")

    def write(self, ex, p, cells):
        if self.ro:
            raise ExecError("store to " + self.name)
        off = self.off(p)
        self.check(off, len(cells))
        for j, c in enumerate(cells):
            o = padd(off, {(): j} if j else {})
            k = key(o)
            if k not in self.cells:
                for q, _ in self.cells.values():
                    self.apart(o, q)
            self.cells[k] = (o, c)

    def canonical(self, off):
        """The offset in the form in which an equal one was met first (under the path's facts)."""
        n = len(self.d.facts)
        if n != self.nfacts:
            self.nfacts, self.groups = n, {}
        c = off.get((), 0)
        g = {m: x for m, x in off.items() if m}
        k = key(g)
        r = self.groups.get(k)
        if r is None:
            r = (g, 0)
            for h in list(self.order.values()):
                if key(h) == k:
                    break
                f = self.d.settle(padd(g, h, -1))
                if isconst(f):
                    r = (h, f.get((), 0))
                    break
            else:
                self.order[k] = g
            self.groups[k] = r
        h, f = r
        return padd(h, {(): c + f} if c + f else {})

    def whole(self, p, n):
        return self.d.entails(padd(n.p, self.size, -1), 0, 0) and self.d.entails(self.off(p), 0, 0)

    def copy(self, src):
        """memcpy of a whole argument over the whole of this one."""
        if self.ro or not src.ro or src is self or self.valid is not None or not (src.init and src.valid is None):
            raise ExecError("copy to " + self.name)
        self.cells, self.origin, self.content = {}, src, src.content

    def reset(self):
        self.origin = None
        self.cells = {}
        self.nfacts = -1


class Seg:
    """A part of a Big: offset and length (polynomials)."""
    __slots__ = ("big", "off", "n")

    def __init__(self, big, off, n):
        self.big, self.off, self.n = big, off, n


# ---------------------------------------------------------------- induction
class Path:
    """The end of one path of a loop iteration."""

    def __init__(self, kind, blk, regs, value, i, first):
        self.kind, self.blk, self.regs, self.value, self.i, self.first = kind, blk, regs, value, i, first


WATCH = 24  # symbolic branches of a loop of a called function before the function is compiled into its caller


class Induct:
    """One function, its outermost loops by induction.

    inv(i) -> [(poly, lo, hi)]: facts that hold at the head of the loop in iteration i (polynomial of i).
    havoc(ex) -> [(address, size)]: memory whose contents at the head are the obligation's business;
    gen(ex, i): puts the generic contents there.
    step(ex, path): called at the end of every path: of the generic iteration (path.i = polynomial of the
    iteration number), or from the function's entry (path.i is None).
    """

    def __init__(self, ex, dem, args, step, inv=None, havoc=None, gen=None, imax=(1 << 62), begin=None, cuts=None):
        f = ex.m.by_dem.get(dem)
        if f is None:
            raise ExecError("anchor lost: " + dem)
        if getattr(ex, "run", None) is not None and ex.run.inline:
            f = ir.inlined(ex.m, f, ex.run.inline - set(ex.overrides) - {dem})
        self.ex, self.f, self.args, self.step = ex, f, args, step
        self.inv, self.havoc, self.gen, self.imax, self.begin = inv, havoc, gen, imax, begin
        loops = cut.natural_loops(ex, f)
        self.cuts = {h for h in loops if not any(g != h and h in loops[g] for g in loops)} if cuts is None else cuts
        self.inductions = 0
        self.paths = 0

    def mutable(self):
        ex = self.ex
        keep = {p >> SHIFT for p in ex.gaddr.values()}
        return {i: o for i, o in ex.objs.items() if not o.ro and i not in keep and i not in ex.bigs}

    def snapshot(self):
        return {i: cut.copy_obj(o) for i, o in self.mutable().items()}

    def restore(self, objs, nobj, facts):
        ex = self.ex
        for i in self.mutable():
            del ex.objs[i]
        for i, o in objs.items():
            ex.objs[i] = cut.copy_obj(o)
        ex.nobj = nobj
        ex.d.reset_path()
        for b in ex.bigs.values():
            b.reset()
        for f in facts:
            if f[0] == "c":
                ex.d.assume(f[1], f[2])
            elif f[0] == "o":
                f[1].origin = f[2]
            else:
                ex.d.add_fact(*f[1:])

    def segment(self, start, blk, regs, end, inv=None):
        """All paths to the next loop heads (for the loop at hand: where its invariant holds there) or returns."""
        ex = self.ex
        todo = [[]]
        blocks = self.f.compiled[0]
        while todo:
            self.paths += 1
            if self.paths > 60000:
                raise ExecError("too many paths")
            start()
            ex.decisions, ex.pending, ex.path = todo.pop(min(range(len(todo)), key=lambda i: len(todo[i]))), [], []
            r, b, first, n = list(regs), blk, True, 0
            depth, ex.stack, ex.forks = ex.depth, [], True
            try:
                again = 0
                while b >= 0:
                    if not first and b in self.cuts:
                        if inv is None or inv[0] != b or all(self.decide(*f) if n and ex.run.fork else ex.d.entails(*f) for n, f in enumerate(inv[1])):
                            break
                        again += 1
                        if again > 2:
                            raise ExecError("loop invariant is not preserved")
                    b = blocks[b](r, ex, self.frame)
                    first = False
                    n += 1
                    if n > 200000:
                        raise ExecError("a loop that does not end")
                kind = "ret" if b < 0 else "head"
            except Panic as e:
                kind, b = "panic", str(e)
            ex.depth, ex.forks = depth, False
            todo.extend(ex.pending)
            end(kind, b, r)

    def decide(self, p, lo, hi):
        """Whether lo <= p <= hi, as branches of the path."""
        d = self.ex.d
        if d.entails(p, lo, hi):
            return True
        for q in ([] if lo is None else [padd(p, {(): -lo})]) + ([] if hi is None else [padd({(): hi}, p, -1)]):
            q = {m: c for m, c in q.items() if c}
            if self.ex.branch(d._cond("lt", q, *d.range(q))):
                return False
        return True

    def facts(self):
        return [("c", c, v) for c, v in self.ex.path] + [("o", b, b.origin) for b in self.ex.bigs.values() if b.origin is not None]

    def run(self):
        ex = self.ex
        blocks, nregs, npar = self.f.compiled
        if len(self.args) != npar:
            raise ExecError("arity of " + self.f.dem)
        regs = [None] * nregs
        regs[:npar] = self.args
        ex.watch = WATCH if getattr(ex, "run", None) is not None and ex.run.watch else None
        objs, nobj = self.snapshot(), ex.nobj
        facts0 = [("p",) + f for f in ex.d.facts]
        self.frame = []
        arrivals = []

        def start():
            self.restore(objs, nobj, facts0)
            if self.begin:
                self.begin(ex)

        def end(kind, b, r):
            if not ex.d.feasible():
                return
            self.step(ex, Path(kind, b, r, r[-1] if kind == "ret" else b, None, True))
            if kind == "head":
                arrivals.append((b, list(r), self.snapshot(), ex.nobj, facts0 + self.facts()))
        ex.depth += 1
        self.segment(start, 0, regs, end)
        for a in arrivals:
            self.loop(*a)
        ex.depth -= 1

    # one loop, entered in one state
    def loop(self, head, regs, objs, nobj, facts):
        ex, d = self.ex, self.ex.d
        self.inductions += 1
        a = d.atom(0, self.imax, None, f"i{self.inductions}")
        i, i1, i0 = {(a,): 1}, {(a,): 1, (): 1}, {}
        inv = self.inv or (lambda i: [])
        # established on entry
        self.restore(objs, nobj, facts)
        for p, lo, hi in inv(i0):
            if not d.entails(p, lo, hi):
                raise ExecError("loop invariant on entry")
        hav = {}
        for p, n in (self.havoc(ex) if self.havoc else []):
            for q in range(n):
                hav.setdefault(p >> SHIFT, set()).add((p & OFFM) + q)
        # guess: one iteration from the entry state
        second = []

        def start():
            self.restore(objs, nobj, facts)
            if self.gen:
                self.gen(ex, i0)

        def end(kind, b, r):
            if kind == "head" and b == head:
                # on the path's own facts
                G = Generic(self, head, regs, objs, nobj, hav)
                G.guess(list(r), self.snapshot())
                second.append((G.lost(), len(second), G))
        self.segment(start, head, regs, end, (head, inv({(): 1})))
        G = min(second)[2] if second else Generic(self, head, regs, objs, nobj, hav)
        # Houdini: drop what the generic iteration does not preserve
        gfacts = facts + [("p",) + f for f in inv(i)]

        def gstart():
            self.restore(G.objs, nobj, gfacts)
            G.put(i)
            if self.gen:
                self.gen(ex, i)
        while True:
            changed = []

            def gend(kind, b, r):
                if kind == "head" and b == head:
                    if G.weaken(i1, r):
                        changed.append(1)
            self.segment(gstart, head, G.regs_at(i), gend, (head, inv(i1)))
            if not changed:
                break
        nexts = []

        def fend(kind, b, r):
            if not d.feasible():
                return
            if kind == "head" and b == head:
                if G.weaken(i1, r):
                    raise ExecError("the loop's state does not settle")
            self.step(ex, Path(kind, b, r, r[-1] if kind == "ret" else b, i, False))
            if kind == "head" and b != head:
                nexts.append((b, list(r), self.snapshot(), ex.nobj, gfacts + self.facts()))
        self.segment(gstart, head, G.regs_at(i), fend, (head, inv(i1)))
        for n in nexts:
            self.loop(*n)


class Generic:
    """The state at a loop head as a function of the iteration number."""

    def __init__(self, ind, head, regs, objs, nobj, hav):
        self.ind, self.ex, self.d = ind, ind.ex, ind.ex.d
        self.objs = {i: cut.copy_obj(o) for i, o in objs.items()}
        for o in self.objs.values():
            last = None
            for q, c in sorted((o.s or {}).items()):
                if type(c) is tuple and isinstance(c[0], IV):
                    if last is None or last[0] is not c[0]:
                        last = c[0], self.norm(c[0])
                    o.s[q] = (last[1], c[1])
        self.hav = hav
        self.regs = [self.norm(v) for v in regs]
        self.rlin = {}   # register -> delta
        self.mlin = {}   # (object, offset) -> (size, start polynomial, delta)

    def norm(self, v):
        """Ranges that hold without the path's facts."""
        return IV(v.w, v.p, *self.d.range(v.p)) if isinstance(v, IV) else v

    def poly(self, v):
        if type(v) is int:
            return {(): v} if v else {}
        return v.p if isinstance(v, IV) else None

    def delta(self, a, b):
        p, q = self.poly(a), self.poly(b)
        if p is None or q is None:
            return None
        r = padd(q, p, -1)
        return r if isconst(r) else None

    def guess(self, regs, objs):
        for n, (a, b) in enumerate(zip(self.regs, regs)):
            if self.equal(a, b):
                continue
            dl = self.delta(a, b)
            if dl is None:
                self.regs[n] = UNDEF
            else:
                self.rlin[n] = dl.get((), 0)
        if set(self.objs) != set(objs):
            raise ExecError("different objects at a loop head")
        for i, o in self.objs.items():
            p = objs[i]
            os, ps, hv = o.s or {}, p.s or {}, self.hav.get(i, ())
            q, N = 0, len(o.b)
            while q < N:
                if q in hv:
                    q += 1
                    continue
                a, b = os.get(q), ps.get(q)
                n = min(8 - q % 8, N - q)
                for x in (a, b):
                    if type(x) is tuple and x[1] == 0:
                        n = max(1, x[0].w // 8) if isinstance(x[0], IV) else 1
                        break
                if any(q + k in hv for k in range(n)):
                    n = 1
                if all(self.cell_equal(o, p, q + k) for k in range(n)):
                    q += n
                    continue
                if n == 8 and all(self.cell_equal(o, p, q + k) for k in range(4, 8)) and any(o.b[q + 4 : q + 8]) and int.from_bytes(o.b[q : q + 8], "little") >> SHIFT not in self.ex.objs:
                    n = 4
                va, vb = self.word(o, q, n), self.word(p, q, n)
                dl = self.delta(va, vb) if va is not None and vb is not None else None
                if dl is not None:
                    self.mlin[(i, q)] = (n, self.poly(va), dl.get((), 0))
                    q += n
                else:
                    for k in range(n):
                        if not self.cell_equal(o, p, q + k):
                            self.undef(o, q + k)
                    q += n

    def lost(self):
        return sum(v is UNDEF for v in self.regs) + sum(c is UNDEF for o in self.objs.values() for c in (o.s or {}).values())

    def undef(self, o, q):
        if o.s is None:
            o.s = {}
        o.s[q] = UNDEF

    def word(self, o, q, n):
        s = o.s or {}
        if not any(q + k in s for k in range(n)):
            return int.from_bytes(o.b[q : q + n], "little")
        c = s.get(q)
        if type(c) is tuple and isinstance(c[0], IV) and c[0].w == 8 * n and all(type(s.get(q + k)) is tuple and s[q + k][0] is c[0] and s[q + k][1] == k for k in range(n)):
            return c[0]
        return None

    def equal(self, a, b):
        if a is b or a is UNDEF:
            return True
        if a is None or b is None or b is UNDEF:
            return False
        if type(a) is tuple or type(b) is tuple:
            return type(a) is type(b) and len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if self.poly(a) is not None and self.poly(b) is not None:
            r = padd(self.poly(a), self.poly(b), -1)
            return not r or self.d.entails(r, 0, 0)
        return cut.same_value(self.d, a, b)

    def cell_equal(self, o, p, q):
        a, b = (o.s or {}).get(q), (p.s or {}).get(q)
        if a is UNDEF:
            return True
        if a is None and b is None:
            return o.b[q] == p.b[q]
        if type(a) is tuple and type(b) is tuple:
            return a[1] == b[1] and (a[0] is b[0] or self.equal(a[0], b[0]))
        for x, y, z in ((a, b, p), (b, a, o)):
            if type(x) is tuple and isinstance(x[0], IV) and x[1] == 0 and x[0].w == 8 and y is None:
                return self.equal(x[0], z.b[q])
        return False

    def lin(self, p, dl, i):
        return padd(p, pscale(i, dl))

    def regs_at(self, i):
        r = list(self.regs)
        for n, dl in self.rlin.items():
            v = self.regs[n]
            w = v.w if isinstance(v, IV) else 64
            p = self.lin(self.poly(v), dl, i)
            r[n] = self.d.mkiv(w, p, *self.d.range(p))
        return r

    def put(self, i):
        for (o, q), (n, p, dl) in self.mlin.items():
            p = self.lin(p, dl, i)
            self.ex.st((o << SHIFT) + q, n, self.d.mkiv(8 * n, p, *self.d.range(p)))

    def weaken(self, i, r):
        """Drops what the arriving state does not have at iteration i; whether anything was dropped."""
        ch = False
        for n, (a, b) in enumerate(zip(self.regs_at(i), r)):
            if not self.equal(a, b):
                self.regs[n] = UNDEF
                self.rlin.pop(n, None)
                ch = True
        cur = self.ind.mutable()
        if set(cur) != set(self.objs):
            raise ExecError("different objects at a loop head")
        lin = {}
        for (o, q), (n, p, dl) in list(self.mlin.items()):
            v = self.word(cur[o], q, n)
            if v is None:
                try:
                    v = self.ex.ld((o << SHIFT) + q, n)
                except ExecError:
                    v = None
            want = self.lin(p, dl, i)
            if v is None or self.poly(v) is None or not self.equal(IV(8 * n, want, 0, 0), v):
                del self.mlin[(o, q)]
                for k in range(n):
                    self.undef(self.objs[o], q + k)
                ch = True
            else:
                lin.setdefault(o, set()).update(range(q, q + n))
        for k, o in self.objs.items():
            p, hv, ln = cur[k], self.hav.get(k, ()), lin.get(k, ())
            if not o.s and not p.s and o.b == p.b:
                continue
            for q in range(len(o.b)):
                if q not in hv and q not in ln and not self.cell_equal(o, p, q):
                    self.undef(o, q)
                    ch = True
        return ch
