"""Loop invariants by cutting: one function is executed in segments between cut points.

The cut points are the blocks of the function's control-flow graph with several predecessors.  A state at a
cut point is the function's registers, the memory, and the path facts that still hold.  Every path that
arrives at a cut point is generalised by the obligation's callback (which checks that its invariant holds of
the state and puts the invariant's symbolic values in place), then joined with what arrived there before:
whatever differs becomes undefined, and a later use of it is an error.  Segments are explored from every
state until nothing changes, so what is checked holds on every iteration of every loop.

Cut points are told apart by the number of loop-header arrivals so far when `unroll` is set (loops with a
concrete bound); otherwise a loop header is one cut point and its state is an inductive invariant.
"""
import heapq

from ir import SHIFT, UNDEF, ExecError, Obj, Panic, compile_fn, inlined


def cfg(ex, f):
    """(successors, predecessors, loop headers, reverse postorder) over compiled blocks."""
    if f.compiled is None:
        f.compiled = compile_fn(ex.m, f)
    succ = f.succ
    pred = [set() for _ in succ]
    color, order, heads = {}, [], set()
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if s < 0:
                continue
            pred[s].add(b)
            if s not in color:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
            if color[s] == 1:
                heads.add(s)
        else:
            color[b] = 2
            order.append(b)
            stack.pop()
    rpo = {b: i for i, b in enumerate(reversed(order))}
    return succ, pred, heads, rpo


def natural_loops(ex, f):
    """Loop head -> blocks of its loop."""
    succ, pred, heads, rpo = cfg(ex, f)
    out = {}
    for h in heads:
        body = {h}
        todo = [b for b in pred[h] if rpo[b] >= rpo[h]]
        while todo:
            b = todo.pop()
            if b not in body:
                body.add(b)
                todo.extend(pred[b])
        out[h] = body
    return out


def copy_obj(o):
    n = Obj(0, o.name, o.ro)
    n.b = bytearray(o.b)
    n.s = dict(o.s) if o.s else None
    return n


def same_value(d, a, b):
    if a is b:
        return True
    if a is UNDEF or b is UNDEF or type(a) is int or type(b) is int:
        return type(a) is int and type(b) is int and a == b
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(same_value(d, x, y) for x, y in zip(a, b))
    if type(a) is not type(b) or a.w != b.w:
        return False
    h = getattr(d, "same_abstract", None)
    if h is not None:
        r = h(a, b)
        if r is not None:
            return r
    if hasattr(a, "data"):
        return a.kind == b.kind and a.data == b.data
    if hasattr(a, "poly"):
        return a.poly == b.poly and a.bounds == b.bounds
    if hasattr(a, "bits"):
        return a.bits == b.bits
    if hasattr(a, "p"):
        return a.p == b.p and a.lo == b.lo and a.hi == b.hi
    return False


def same_cell(d, a, b):
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple:
        return a[1] == b[1] and same_value(d, a[0], b[0])
    return type(a) is int and type(b) is int and a == b


class State:
    __slots__ = ("block", "count", "regs", "objs", "facts", "ghost")


class Cutter:
    def __init__(self, ex, dem, args, arrive=None, ret=None, begin=None, unroll=True, merges=True, cuts=None, summaries=None, maxsegs=200000):
        f = ex.m.by_dem.get(dem)
        if f is None:
            raise ExecError("anchor lost: " + dem)
        if getattr(ex, "run", None) is not None and ex.run.inline:
            f = inlined(ex.m, f, ex.run.inline - set(ex.overrides) - {dem})
        self.ex, self.f, self.args = ex, f, args
        self.keyof, self.variants = None, 1
        self.arrive, self.ret, self.begin, self.unroll = arrive, ret, begin, unroll
        succ, pred, self.heads, self.rpo = cfg(ex, f)
        self.cuts = set(self.heads)
        if merges:
            self.cuts |= {b for b in range(len(succ)) if len(pred[b]) > 1}
        if cuts is not None:
            self.cuts = set(cuts)
        self.summaries = summaries or {}
        self.maxsegs = maxsegs
        self.segs = 0
        self.dropfact = None
        self.states = {}

    # ---- states
    def mutable(self):
        ex = self.ex
        keep = {p >> SHIFT for p in ex.gaddr.values()}
        return {i: o for i, o in ex.objs.items() if not o.ro and i not in keep}

    def capture(self, b, count, r, facts, ghost):
        s = State()
        s.block, s.count, s.regs = b, count, list(r)
        s.objs = {i: copy_obj(o) for i, o in self.mutable().items()}
        s.facts, s.ghost = facts, ghost
        return s

    def restore(self, s):
        ex = self.ex
        for i in self.mutable():
            del ex.objs[i]
        for i, o in s.objs.items():
            ex.objs[i] = copy_obj(o)
        ex.nobj = max([self.nobj1] + [i + 1 for i in s.objs if i < 1 << 17])
        ex.d.reset_path()
        for c, v in s.facts:
            ex.d.assume(c, v)

    def variant(self, k, n):
        """Several invariants for one place: by the known bytes of memory in which they differ."""
        for i in range(self.variants):
            s = self.states.get((*k, i))
            if s is None:
                return *k, i
            if set(s.objs) == set(n.objs) and all(s.objs[o].b == n.objs[o].b or all(
                    x == y or j in (s.objs[o].s or ()) or j in (n.objs[o].s or ()) for j, (x, y) in enumerate(zip(s.objs[o].b, n.objs[o].b))) for o in s.objs):
                return *k, i
        return *k, 0

    def join(self, s, n):
        """Generalises s by n; whether s changed."""
        d = self.ex.d
        ch = False
        for k, (a, b) in enumerate(zip(s.regs, n.regs)):
            if a is UNDEF or a is None and b is None:
                continue
            if a is None or b is None or not same_value(d, a, b):
                s.regs[k] = UNDEF
                ch = True
        if set(s.objs) != set(n.objs):
            raise ExecError("different objects at a cut point")
        for i, o in s.objs.items():
            p = n.objs[i]
            if o.b == p.b and not o.s and not p.s:
                continue
            os, ps = o.s or {}, p.s or {}
            if o.b == p.b and os == ps:
                continue
            last = None
            for k in range(len(o.b)):
                a, b = os.get(k), ps.get(k)
                if a is b and a is not None or a is UNDEF:
                    continue
                if type(a) is tuple and type(b) is tuple and a[1] == b[1]:
                    if last is None or last[0] is not a[0] or last[1] is not b[0]:
                        last = a[0], b[0], same_value(d, a[0], b[0])
                    if last[2]:
                        continue
                a = o.b[k] if a is None else a
                b = p.b[k] if b is None else b
                if not same_cell(d, a, b):
                    if o.s is None:
                        o.s = os = {}
                    os[k] = UNDEF
                    ch = True
        nf = {(c if type(c) is int else id_of(c), v) for c, v in n.facts}
        kept = [(c, v) for c, v in s.facts if (id_of(c), v) in nf]
        if len(kept) != len(s.facts):
            s.facts = kept
            ch = True
        if s.ghost != n.ghost:
            raise ExecError("different ghost states at a cut point")
        return ch

    # ---- execution
    def segment(self, b, regs, count, facts, ghost, restore):
        """All paths from here to the next cut points."""
        ex = self.ex
        todo = [[]]
        while todo:
            self.segs += 1
            if self.segs > self.maxsegs:
                raise ExecError("too many segments")
            restore()
            self.cur, self.curfacts = (b, count), facts
            if self.begin:
                self.begin(ex)
            ex.decisions, ex.pending, ex.path = todo.pop(), [], []
            r = list(regs)
            blk, frame = b, self.frame
            blocks = self.f.compiled[0]
            first, ex.forks = True, True
            while blk >= 0 and (first or blk not in self.cuts):
                if blk in self.summaries:
                    blk = self.summaries[blk](self, blk, r)
                    continue
                blk = blocks[blk](r, ex, frame)
                first = False
            todo.extend(ex.pending)
            ex.forks = False
            fs = facts + [(c, v) for c, v in ex.path]
            if blk < 0:
                if self.ret:
                    self.ret(ex, r[-1], ghost)
                continue
            n = count + 1 if self.unroll and blk in self.heads else count
            g = self.arrive(ex, blk, n, r, ghost) if self.arrive else None
            if self.dropfact:
                fs = [x for x in fs if not self.dropfact(x)]
            st = self.capture(blk, n, r, fs, g)
            k = (n if self.keyof is None else self.keyof(ex, n), self.rpo[blk], blk)
            if self.variants > 1:
                k = self.variant(k, st)
            if k not in self.states:
                self.states[k] = st
                heapq.heappush(self.work, k)
                self.queued.add(k)
            elif self.join(self.states[k], st) and k not in self.queued:
                heapq.heappush(self.work, k)
                self.queued.add(k)

    def run(self):
        ex = self.ex
        self.work, self.queued, self.frame = [], set(), []
        blocks, nregs, npar = self.f.compiled
        if len(self.args) != npar:
            raise ExecError("arity of " + self.f.dem)
        regs = [None] * nregs
        regs[:npar] = self.args
        objs = {i: copy_obj(o) for i, o in self.mutable().items()}

        def fresh():
            for i in self.mutable():
                del ex.objs[i]
            for i, o in objs.items():
                ex.objs[i] = copy_obj(o)
            ex.d.reset_path()
            ex.nobj = self.nobj0
        # the entry segment allocates the frame: allocation must be the same on every path
        self.nobj0 = ex.nobj
        ex.depth += 1
        self.segment(0, regs, 0, [], None, fresh)
        self.nobj1 = ex.nobj
        while self.work:
            k = heapq.heappop(self.work)
            self.queued.discard(k)
            s = self.states[k]
            self.segment(s.block, s.regs, s.count, list(s.facts), s.ghost, lambda: self.restore(s))
        ex.depth -= 1


def id_of(c):
    if hasattr(c, "bits"):
        return c.bits
    if hasattr(c, "p"):
        return frozenset(c.p.items())
    return c
