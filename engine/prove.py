"""Obligation framework: each obligation runs contracts against /repo's code in the executor."""
import time
import traceback

import anf
import ir
from ir import ExecError, Panic, Unproved


class Failed(Exception):
    """A postcondition does not hold of the code (the two sides differ in canonical form)."""

    pointed = False  # seen at a point of its path


class Obligation:
    def __init__(self, name, fn, bounded=None, backend="ANF", cost=1):
        self.name, self.fn, self.bounded, self.backend, self.cost = name, fn, bounded, backend, cost


def agree(d, a, b, w, msg):
    """Fails unless the two values are the same."""
    if d.same(a, b, w):
        return
    r, how = d.differ(a, b, w)
    if r == "differ":
        raise Failed(msg + (f" ({how})" if how else ""))
    if r == "unknown":
        raise ExecError(f"not decided: {msg} ({how})")


def likely(d, c):
    """The side of a branch that a random point takes."""
    if type(d) is anf.Domain:
        try:
            e = anf.Eval(d)
            return e.value(c, 1) if e.path() else 0
        except (ExecError, RecursionError):
            return 0
    return 0


class Run:
    """What an obligation gets: executors over the loaded module, and counted requirements."""

    def __init__(self, module, inline=frozenset(), watch=True, alias=False, fork=False):
        self.module, self.inline, self.watch, self.alias, self.fork = module, inline, watch, alias, fork
        self.big = False
        self.checks = 0
        self.paths = 0
        self.overflow = 0
        self.used = set()
        self.prefix, self.taken, self.pending, self.cond = (), [], [], []
        self.quick = False  # points are evaluated, the solver is not asked
        self.skips = 0  # branches of this path where the likely side was taken

    def exe(self, domain=None, overrides=()):
        ex = ir.Executor(self.module, domain if domain is not None else anf.Domain())
        for o in overrides:
            ex.overrides.update(o)
        ex.run = self
        ex.d.quick = self.quick
        self.big = self.big or hasattr(ex.d, "models")
        return ex

    def require(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Failed(msg)

    def replay(self, d, inputs, real, want, msg):
        """On a path with conditions that is not decided: inputs that take it, run through the loaded code itself."""
        if not any(e is d for e, _, _ in self.cond):
            return
        for k in range(6):
            e = anf.Eval(d, k)
            if e.path():
                v = [bytes(e.value(c, 8) for c in cells) for cells in inputs]
                ex = ir.Executor(self.module, anf.Domain())
                ex.run = self
                if real(ex, *v) != want(*v):
                    d.pointed = True
                    raise Failed(f"{msg} at {[x.hex() for x in v]}")
                return

    def same(self, d, a, b, w, msg):
        self.checks += 1
        agree(d, a, b, w, msg)

    def same_cells(self, d, a, b, msg):
        self.require(len(a) == len(b), msg + " (length)")
        for i, (x, y) in enumerate(zip(a, b)):
            self.same(d, x, y, 8, f"{msg}: byte {i} differs")

    def panics(self, ex, f, msg):
        self.checks += 1
        try:
            f()
        except Panic:
            return
        raise Failed(msg + ": accepted")

    def done(self, ex):
        self.overflow += getattr(ex.d, "obligations", 0)
        self.used.update(ex.calls)

    def branch(self, ex, c):
        """A branch on a symbolic condition where nothing explores the paths of a call: the obligation runs once for either side."""
        i = len(self.taken)
        if i >= 400:
            raise ExecError("too many branches")
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = likely(ex.d, c)
            self.pending.append((self.taken + [1 - v], self.skips))
            self.skips += 1
        self.taken = self.taken + [v]
        self.cond.append((ex.d, c, v))
        ex.d.assume(c, v)
        return v

    def feasible(self, failed=False, pointed=False):
        """Whether the sides taken are possible: True, False or None."""
        r = True
        ds = {id(d): d for d, _, _ in self.cond}
        if pointed or failed and any(getattr(d, "pointed", False) for d in ds.values()):
            # the failure was seen at a point of the path
            if all(getattr(d, "pointed", False) or type(d).__module__ in ("anf", "intdom") and any(anf.Eval(d, k).path() for k in range(8)) for d in ds.values()):
                return True
        for d in {id(d): d for d, _, _ in self.cond}.values():
            cs = [(c, v) for e, c, v in self.cond if e is d]
            if hasattr(d, "feasible"):
                f = d.feasible() or False
                if f and any(not hasattr(c, "p") for c, _ in cs):
                    # bits that do not depend on integers are apart from them
                    g = d.smt(0, 1, 1)
                    f = None if g is None else g[0] == "differ"
            elif all(type(c) is anf.BV for c, _ in cs):
                d.known = {}
                for c, v in cs:
                    if d.cond_known(c) not in (None, v):
                        return False
                    d.assume(c, v)
                f = d.smt(0, 1, 1)
                f = None if f is None else f[0] == "differ"
            else:
                f = None
            if f is False:
                return False
            r = r and f
        return r

    def has(self, dem):
        return dem in self.module.by_dem


def paths(module, ob, *mode):
    """Runs the obligation for every path of the code it calls outside of its own explorations.  Where a path is not decided,
    others are still tried for a while: one that fails decides."""
    total, todo, n, first, t0 = Run(module, *mode), [((), 0)], 0, None, time.time()
    while todo:
        n += 1
        if n > 64 and first is None:
            first = ExecError("too many paths")
        if first is not None and (n > 200 or time.time() - t0 > 25):
            raise first
        # in turn the oldest and the one that leaves the likely sides earliest
        k = 0 if n & 1 else min(range(len(todo)), key=lambda i: (todo[i][1], -len(todo[i][0])))
        r = Run(module, *mode)
        r.prefix, r.skips = todo.pop(k)
        r.quick = first is not None
        try:
            ob.fn(r)
        except (Failed, Unproved, Panic, ExecError) as e:
            f = r.feasible(isinstance(e, Failed), getattr(e, "pointed", False))
            total.big = total.big or r.big
            e.big = total.big
            if not f and not isinstance(e, ExecError) and f is None:
                e, f = ExecError(f"on a path that may be impossible: {e}"), True
                e.big = total.big
            if f is not False:
                if not isinstance(e, ExecError):
                    raise e
                first = first or e
        finally:
            todo.extend(r.pending)
        total.checks += r.checks
        total.paths += r.paths
        total.overflow += r.overflow
        total.used |= r.used
        total.big = total.big or r.big
    if first is not None:
        raise first
    return total


def run(module, ob):
    """Runs the obligation; functions with a loop of symbolic bound are compiled into the function whose loops are cut,
    and offsets that are equal under the facts of the path are told apart by their form unless that does not do."""
    inline, watch, alias, fork, err = set(), True, False, False, None
    for n in range(12):
        try:
            return paths(module, ob, frozenset(inline), watch, alias, fork)
        except ir.NeedInline as e:
            if set(e.args[0]) <= inline:
                watch = False
            inline |= set(e.args[0])
        except (Failed, ExecError) as e:
            if not getattr(e, "big", False) or alias and isinstance(e, Failed):
                raise
            if err is not None:
                raise err
            if alias:
                err, alias, fork = e, False, True
            else:
                alias = True
    raise ExecError("inlining does not settle")


def discharge(module, ob):
    t = time.time()
    r = Run(module)
    try:
        r = run(module, ob)
        st, det = "proved", ""
        if r.checks == 0:
            st, det = "undecided", "vacuous: no requirement was checked"
    except Failed as e:
        st, det = "failed", str(e)
    except Unproved as e:
        st, det = "failed", "unproved: " + str(e)
    except Panic as e:
        st, det = "failed", "reachable panic: " + str(e)
    except ExecError as e:
        st, det = "undecided", str(e)
    except RecursionError:
        st, det = "undecided", "recursion limit"
    except MemoryError:
        st, det = "undecided", "memory limit"
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError):
        st, det = "undecided", "engine: " + traceback.format_exc(limit=-4)
    return {"name": ob.name, "status": st, "detail": det, "bounded": ob.bounded, "backend": ob.backend,
            "checks": r.checks, "overflow_obligations": r.overflow, "contracts_used": sorted(r.used), "seconds": round(time.time() - t, 3)}


class Token:
    """An abstract value held in memory in place of an object's bytes (modular reasoning)."""

    __slots__ = ("w", "kind", "data")

    def __init__(self, size, kind, data):
        self.w, self.kind, self.data = 8 * size, kind, data

    def __repr__(self):
        return f"<{self.kind}>"


def put_token(ex, p, size, kind, data):
    ex.st(p, size, Token(size, kind, data))


def get_token(ex, p, size, kind):
    v = ex.ld(p, size)
    if not isinstance(v, Token) or v.kind != kind:
        raise ExecError(f"expected an abstract {kind} value, found {v!r}")
    return v.data
