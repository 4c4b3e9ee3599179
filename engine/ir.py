"""LLVM IR (as emitted by rustc for /repo's current source) -> Python, and an executor over it.

The executor runs one function at a time on concrete addresses and lengths; data may be symbolic values
of a *domain* (anf.py, intdom.py).  Calls to functions under contract are replaced by the contract
(ex.overrides, keyed by demangled name); every other call executes the callee's body.  A branch on a
symbolic condition forks: the harness is re-run with the other decision.  Reaching a panic raises Panic;
leaving an allocation, reading undefined memory into a decision, or an instruction outside the supported
subset raises ExecError, so nothing is silently skipped.
"""
import os
import re
import sys

sys.setrecursionlimit(20000)


class ExecError(Exception):
    """The engine cannot decide (unsupported construct, undefined behaviour, lost anchor)."""


class NeedInline(Exception):
    """A called function has a loop whose bound is symbolic."""


class Unproved(Exception):
    """An obligation could not be discharged."""


class Panic(Exception):
    pass


class Postpone(Exception):
    """The path goes on, after shorter ones."""


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()
SHIFT = 44
OFFM = (1 << SHIFT) - 1
TOKRE = re.compile(r'c"(?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*"|%"[^"]*"|@"[^"]*"|%[\w.$-]+|@[\w.$-]+|<\{|\}>|!\w+|#\d+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[(){}\[\],=*:<>"]')


def tokenize(s):
    return TOKRE.findall(s)


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise ExecError(f"parse: expected {x} at {self.t[self.i:self.i+6]}")


# types: ('i', n) | ('ptr',) | ('arr', n, t) | ('st', [t..], packed) | ('void',)
def parse_type(tk, named):
    t = tk.next()
    if re.fullmatch(r"i\d+", t):
        return ("i", int(t[1:]))
    if t == "ptr":
        return ("ptr",)
    if t == "void":
        return ("void",)
    if t == "[":
        n = int(tk.next())
        tk.expect("x")
        e = parse_type(tk, named)
        tk.expect("]")
        return ("arr", n, e)
    if t in ("{", "<{"):
        el = []
        end = "}" if t == "{" else "}>"
        while not tk.accept(end):
            el.append(parse_type(tk, named))
            tk.accept(",")
        return ("st", el, t == "<{")
    if t.startswith("%"):
        if t not in named:
            raise ExecError("unknown type " + t)
        return named[t]
    raise ExecError("type? " + t)


def align_of(t):
    if t[0] == "i":
        return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
    if t[0] == "ptr":
        return 8
    if t[0] == "arr":
        return align_of(t[2])
    return 1 if t[2] else max([align_of(x) for x in t[1]] or [1])


def size_of(t):
    if t[0] == "i":
        return (t[1] + 7) // 8
    if t[0] == "ptr":
        return 8
    if t[0] == "arr":
        return t[1] * size_of(t[2])
    o = 0
    for x in t[1]:
        a = 1 if t[2] else align_of(x)
        o = -(-o // a) * a + size_of(x)
    a = align_of(t)
    return -(-o // a) * a


def field_off(t, k):
    o = 0
    for i, x in enumerate(t[1]):
        a = 1 if t[2] else align_of(x)
        o = -(-o // a) * a
        if i == k:
            return o, x
        o += size_of(x)
    raise ExecError("field")


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1 : i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    """name (mangled), dem (demangled), params, lines, compiled."""


class Module:
    """All functions and globals of the given .ll files, linked by mangled name."""

    def __init__(self, paths):
        self.funcs, self.globals, self.named, self.dem, self.prefix_of = {}, {}, {}, {}, {}
        for p in paths:
            self._load(p)
        self.by_dem = {}
        for f in self.funcs.values():
            self.by_dem.setdefault(f.dem, f)

    def _load(self, path):
        text = open(path).read().split("\n")
        prefix = os.path.basename(path).split("-")[0] + ":"
        i, n, pending = 0, len(text), None
        local = {}
        base = len(self.globals)
        for l in text:
            m = re.match(r"(%.*?) = type (.*)$", l)
            if m:
                self.named[m.group(1)] = ("pending", m.group(2))
        for k, v in list(self.named.items()):
            self._named(k)
        while i < n:
            l = text[i]
            if l.startswith("; ") and not l.startswith("; Function Attrs") and not l.startswith("; ModuleID"):
                pending = l[2:].strip()
            elif l.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)$', l)
                local[m.group(1)] = (prefix + m.group(1), m.group(2))
            elif l.startswith("declare"):
                m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l)
                if pending:
                    self.dem.setdefault(m.group(1), pending)
                pending = None
            elif l.startswith("define"):
                j = i + 1
                while text[j] != "}":
                    j += 1
                self._func(l, text[i + 1 : j], pending, prefix)
                pending = None
                i = j
            elif l and not l.startswith(";"):
                pending = None
            i += 1
        for k, (gn, d) in local.items():
            self.globals[gn] = d
        # calls are preceded by a comment with the demangled callee
        for a, b in zip(text, text[1:]):
            if a.startswith("; call "):
                m = re.search(r'call [^@]*(@"[^"]*"|@[\w.$-]+)\(', b)
                if m:
                    self.dem.setdefault(m.group(1), a[7:].strip())

    def callees(self, dem):
        """Functions of the module the function calls, directly or through others."""
        out, todo = set(), [dem]
        while todo:
            f = self.by_dem.get(todo.pop())
            for l in f.lines if f else ():
                for n in re.findall(r'@"[^"]*"|@[\w.$-]+', l):
                    g = self.funcs.get(n)
                    if g and g.dem not in out:
                        out.add(g.dem)
                        todo.append(g.dem)
        return out

    def _named(self, k):
        v = self.named[k]
        if v[0] == "pending":
            tk = Toks(tokenize(v[1]))
            for t in tk.t:
                if t.startswith("%") and t in self.named:
                    self._named(t)
            self.named[k] = parse_type(tk, self.named)

    def _func(self, head, lines, dem, prefix):
        m0 = re.match(r"define (.*?)(@\"[^\"]*\"|@[\w.$-]+)\(", head)
        k, depth = m0.end(), 1
        while depth:
            depth += {"(": 1, ")": -1}.get(head[k], 0)
            k += 1
        params = head[m0.end() : k - 1]
        f = Func()
        f.name = m0.group(2)
        f.dem = dem or f.name.strip('@"')
        self.dem[f.name] = f.dem
        f.params = re.findall(r'(%"[^"]*"|%[\w.$-]+)(?=,|$)', re.sub(r"\([^()]*(\([^()]*\))*[^()]*\)", "", params))
        out, it = [], iter(lines)
        for l in it:
            if l.lstrip().startswith("switch ") and l.rstrip().endswith("["):
                for x in it:
                    l += " " + x.strip()
                    if x.strip().startswith("]"):
                        break
            out.append(l)
        f.lines = out
        f.compiled = None
        f.sret = _sret(head)
        f.ret = m0.group(1).split()[-1]
        self.funcs[f.name] = f
        self.prefix_of[f.name] = prefix


class Obj:
    __slots__ = ("b", "s", "name", "ro")

    def __init__(self, size, name="", ro=False):
        self.b = bytearray(size)
        self.s = None
        self.name = name
        self.ro = ro


class Fork(Exception):
    pass


def masks(w):
    return (1 << w) - 1


def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


CMP = {
    "eq": lambda a, b, w: a == b, "ne": lambda a, b, w: a != b,
    "ult": lambda a, b, w: a < b, "ule": lambda a, b, w: a <= b, "ugt": lambda a, b, w: a > b, "uge": lambda a, b, w: a >= b,
    "slt": lambda a, b, w: to_signed(a, w) < to_signed(b, w), "sle": lambda a, b, w: to_signed(a, w) <= to_signed(b, w),
    "sgt": lambda a, b, w: to_signed(a, w) > to_signed(b, w), "sge": lambda a, b, w: to_signed(a, w) >= to_signed(b, w),
}


def _cdiv(a, b):
    if b == 0:
        raise ExecError("division by zero")
    return a // b


def _crem(a, b):
    if b == 0:
        raise ExecError("division by zero")
    return a % b


class Executor:
    def __init__(self, module, domain):
        self.m = module
        self.d = domain
        if hasattr(domain, "ex"):
            domain.ex = self
        self.overrides = {}
        self.objs = {}
        self.nobj = 1
        self.gaddr = {}
        self.steps = 0
        self.calls = {}
        self.decisions, self.fork_limit = [], None
        self.forks = False  # whether something explores the alternatives that branch() leaves in pending
        self.pending = []
        self.path = []
        self.trace = None
        self.depth = 0
        self.maxsteps = None
        self.bigs = {}
        self.watch = None  # symbolic branches allowed in one activation of a called function
        self.stack = []

    # ---- memory
    def alloc(self, size, name="", init=None):
        i = self.nobj
        if i >> 17 and not name:
            raise ExecError("too many objects")
        self.nobj = i + 1
        o = Obj(size, name)
        self.objs[i] = o
        if init is not None:
            o.b[: len(init)] = init
        return i << SHIFT

    def alloca(self, size, slot=None):
        if slot is None:
            return self.alloc(size)
        if slot in self.objs:
            raise ExecError("a slot in use")
        self.objs[slot] = Obj(size, "")
        return slot << SHIFT

    def obj(self, p, n):
        o = self.objs.get(p >> SHIFT)
        off = p & OFFM
        if o is None or off + n > len(o.b):
            raise ExecError(f"memory access out of bounds: {p:#x}+{n} in {o and o.name} of {o and len(o.b)}")
        return o, off

    def ld(self, p, n):
        if type(p) is not int:
            return self.wide_ld(p, n)
        o = self.objs.get(p >> SHIFT)
        off = p & OFFM
        if o is None or off + n > len(o.b):
            if self.bigs:
                return self.wide_ld(p, n)
            raise ExecError(f"load out of bounds: {p:#x}+{n} in {o and o.name} of {o and len(o.b)}")
        s = o.s
        if not s:
            return int.from_bytes(o.b[off : off + n], "little")
        c0 = s.get(off)
        if c0 is not None and c0 is not UNDEF and c0[1] == 0 and c0[0].w == 8 * n:
            v = c0[0]
            for i in range(1, n):
                c = s.get(off + i)
                if c is None or c is UNDEF or c[0] is not v or c[1] != i:
                    break
            else:
                return v
        cells = []
        sym = False
        b = o.b
        for i in range(off, off + n):
            c = s.get(i)
            if c is None:
                cells.append(b[i])
            elif c is UNDEF:
                return UNDEF
            else:
                sym = True
                cells.append(c)
        if not sym:
            return int.from_bytes(bytes(cells), "little")
        return self.d.concat(cells)

    def st(self, p, n, v):
        if type(p) is not int:
            return self.wide_st(p, n, v)
        o = self.objs.get(p >> SHIFT)
        off = p & OFFM
        if o is None or off + n > len(o.b):
            if self.bigs:
                return self.wide_st(p, n, v)
            raise ExecError(f"store out of bounds: {p:#x}+{n} in {o and o.name} of {o and len(o.b)}")
        if o.ro:
            raise ExecError("store to a constant")
        if type(v) is int:
            o.b[off : off + n] = v.to_bytes(n, "little")
            if o.s:
                s = o.s
                for i in range(off, off + n):
                    s.pop(i, None)
        else:
            if o.s is None:
                o.s = {}
            s = o.s
            if v is UNDEF:
                for i in range(n):
                    s[off + i] = UNDEF
            else:
                if v.w < 8 * n:
                    v = self.d.zext(v.w, 8 * n, v)
                    if type(v) is int:
                        return self.st(p, n, v)
                for i in range(n):
                    s[off + i] = (v, i)

    def cell(self, p):
        if self.bigs:
            b, p = self.big_at(p)
            if b is not None:
                return b.read(self, p, 1)[0]
        o, off = self.obj(p, 1)
        c = o.s.get(off) if o.s else None
        return o.b[off] if c is None else c

    def memcpy(self, dst, src, n):
        if type(n) is not int and self.bigs and hasattr(n, "p"):
            bs, ps = self.big_at(src)
            bd, pd = self.big_at(dst)
            if bs is not None and bd is not None and bs.whole(ps, n) and bd.whole(pd, n):
                bd.copy(bs)
                return
        if type(n) is not int:
            n = self.concretise(n)
        if n == 0:
            return
        if self.bigs:
            bs, src = self.big_at(src)
            bd, dst = self.big_at(dst)
            if bs is not None or bd is not None:
                cells = bs.read(self, src, n) if bs is not None else [self.cell(src + i) for i in range(n)]
                if bd is not None:
                    bd.write(self, dst, cells)
                else:
                    for i, c in enumerate(cells):
                        self.put(dst + i, [c]) if c is not UNDEF else self.st(dst + i, 1, UNDEF)
                return
        so, soff = self.obj(src, n)
        do, doff = self.obj(dst, n)
        if do.ro:
            raise ExecError("store to a constant")
        cells = None
        if so.s:
            if n < len(so.s):
                cells = [(i, so.s[soff + i]) for i in range(n) if soff + i in so.s]
            else:
                cells = [(k - soff, c) for k, c in so.s.items() if soff <= k < soff + n]
        do.b[doff : doff + n] = bytes(so.b[soff : soff + n])
        if do.s:
            s = do.s
            if n < len(s):
                for i in range(doff, doff + n):
                    s.pop(i, None)
            else:
                for k in [k for k in s if doff <= k < doff + n]:
                    del s[k]
        if cells:
            if do.s is None:
                do.s = {}
            for i, c in cells:
                do.s[doff + i] = c

    def memset(self, dst, v, n):
        if type(n) is not int:
            n = self.concretise(n)
        if n == 0:
            return
        if self.bigs:
            b, dst = self.big_at(dst)
            if b is not None:
                b.write(self, dst, [v if type(v) is int else (v, 0)] * n)
                return
        o, off = self.obj(dst, n)
        if type(v) is int:
            o.b[off : off + n] = bytes([v]) * n
            if o.s:
                for i in range(off, off + n):
                    o.s.pop(i, None)
        else:
            for i in range(n):
                self.st(dst + i, 1, v)

    # objects of symbolic size and symbolic addresses (big.py)
    def big_at(self, p):
        """(the big object p points into or None, p): a symbolic address of an ordinary object is made concrete."""
        if type(p) is int:
            return self.bigs.get(p >> SHIFT), p
        if not hasattr(p, "p"):
            raise ExecError("symbolic address")
        if not p.p or len(p.p) == 1 and () in p.p:
            p = p.p.get((), 0)
            return self.bigs.get(p >> SHIFT), p
        b = self.bigs.get((p.p.get((), 0) + (1 << SHIFT - 1)) >> SHIFT)
        return (b, p) if b is not None else (None, self.concretise(p))

    def wide_ld(self, p, n):
        b, p = self.big_at(p)
        if b is None:
            if self.bigs and self.objs.get(p >> SHIFT) is not None and (p & OFFM) + n <= len(self.objs[p >> SHIFT].b):
                return self.ld(p, n)
            raise ExecError(f"load out of bounds: {p:#x}+{n}")
        cells = b.read(self, p, n)
        c0 = cells[0]
        if type(c0) is tuple and c0[0].w == 8 * n and all(type(c) is tuple and c[0] is c0[0] and c[1] == i for i, c in enumerate(cells)):
            return c0[0]
        if any(c is UNDEF for c in cells):
            return UNDEF
        if all(type(c) is int for c in cells):
            return int.from_bytes(bytes(cells), "little")
        return self.d.concat(cells)

    def wide_st(self, p, n, v):
        b, p = self.big_at(p)
        if b is None:
            if self.bigs and self.objs.get(p >> SHIFT) is not None and (p & OFFM) + n <= len(self.objs[p >> SHIFT].b):
                return self.st(p, n, v)
            raise ExecError(f"store out of bounds: {p:#x}+{n}")
        if type(v) is int:
            cells = list(v.to_bytes(n, "little"))
        elif v is UNDEF:
            cells = [UNDEF] * n
        else:
            if v.w < 8 * n:
                v = self.d.zext(v.w, 8 * n, v)
            cells = [(v, i) for i in range(n)]
        b.write(self, p, cells)

    def concretise(self, v):
        if not hasattr(self.d, "concretise"):
            raise ExecError("symbolic length or address")
        return self.d.concretise(self, v)

    # bytes helpers for harnesses
    def put(self, p, cells):
        """Writes a list of bytes (ints or 8-bit values) at p."""
        for i, c in enumerate(cells):
            if type(c) is tuple:
                o, off = self.obj(p + i, 1)
                if o.s is None:
                    o.s = {}
                o.s[off] = c
            else:
                self.st(p + i, 1, c)

    def get(self, p, n):
        return [self.ld(p + i, 1) for i in range(n)]

    def glob(self, name):
        a = self.gaddr.get(name)
        if a is None:
            # numbered apart from the other objects, whose numbers a path may use again
            n, self.nobj = self.nobj, (1 << 17) + len(self.gaddr)
            a = self.gaddr[name] = self._mkglob(name)
            self.nobj = n
        return a

    def _mkglob(self, name):
        d = self.m.globals.get(name)
        if d is None:
            # a function address or an external symbol
            return self.alloc(1, name)
        prefix = name.split(":")[0] + ":"
        m = re.match(r".*?(?:constant|global) (.*)$", d)
        tk = Toks(tokenize(m.group(1)))
        t = parse_type(tk, self.m.named)
        p = self.alloc(size_of(t), name)
        self.gaddr[name] = p
        self._init(p, t, tk, prefix)
        self.objs[p >> SHIFT].ro = " constant " in " " + d
        return p

    def _init(self, p, t, tk, prefix):
        x = tk.next()
        if x == "zeroinitializer":
            return
        if x in ("undef", "poison"):
            o, off = self.obj(p, size_of(t))
            o.s = o.s or {}
            for i in range(size_of(t)):
                o.s[off + i] = UNDEF
        elif x.startswith('c"'):
            b = unescape(x[2:-1])
            o, off = self.obj(p, len(b))
            o.b[off : off + len(b)] = b
        elif x in ("<{", "{", "["):
            for k in range(len(t[1]) if t[0] == "st" else t[1]):
                ft = parse_type(tk, self.m.named)
                off = field_off(t, k)[0] if t[0] == "st" else k * size_of(t[2])
                self._init(p + off, ft, tk, prefix)
                tk.accept(",")
            tk.expect({"<{": "}>", "{": "}", "[": "]"}[x])
        elif x.startswith("@"):
            self.st(p, 8, self.glob(prefix + x if prefix + x in self.m.globals else x))
        elif x == "null":
            pass
        elif x in ("true", "false"):
            self.st(p, 1, int(x == "true"))
        elif x == "getelementptr" or x == "inttoptr":
            raise ExecError("constant expression in a global")
        else:
            self.st(p, size_of(t), int(x) & masks(t[1]))

    # ---- control
    def branch(self, c):
        if type(c) is int:
            return c & 1
        if c is UNDEF:
            raise ExecError("branch on undefined")
        k = self.d.cond_known(c)
        if k is not None:
            return k
        if not self.forks:
            return self.run.branch(self, c)
        i = len(self.path)
        if i < len(self.decisions):
            v = self.decisions[i]
        else:
            if self.fork_limit is not None and i >= self.fork_limit:
                raise Postpone
            v = 0
            self.pending.append([p[1] for p in self.path] + [1])
            self.decisions = [p[1] for p in self.path] + [0]
        self.path.append((c, v))
        self.d.assume(c, v)
        return v

    def call(self, name, args):
        """Calls by mangled name (used by generated code)."""
        dem = self.m.dem.get(name, name)
        h = self.overrides.get(dem)
        if h is not None:
            self.calls[dem] = self.calls.get(dem, 0) + 1
            return h(self, *args)
        f = self.m.funcs.get(name)
        if f is None:
            return self.extern(name, dem, args)
        return self.exec_fn(f, args)

    def call_dem(self, dem, *args):
        f = self.m.by_dem.get(dem)
        if f is None:
            raise ExecError("no function " + dem)
        return self.exec_fn(f, list(args))

    def exec_fn(self, f, args):
        c = f.compiled
        if c is None:
            c = f.compiled = compile_fn(self.m, f)
        blocks, nregs, npar = c
        if len(args) != npar:
            raise ExecError(f"arity of {f.dem}: {len(args)} for {npar}")
        self.depth += 1
        first = self.nobj
        frame = []
        r = [None] * nregs
        r[:npar] = args
        b = 0
        if self.watch is None:
            while b >= 0:
                b = blocks[b](r, self, frame)
                self.steps += 1
        else:
            self.stack.append(f.dem)
            seen = {}
            while b >= 0:
                k = len(self.path)
                n, last = seen.get(b, (0, -1))
                if k > last:
                    if n > self.watch:
                        raise NeedInline(list(self.stack))
                    seen[b] = (n + 1, k)
                b = blocks[b](r, self, frame)
                self.steps += 1
            self.stack.pop()
        if self.maxsteps is not None and self.steps > self.maxsteps:
            raise ExecError("step limit")
        for p in frame:
            del self.objs[p >> SHIFT]
        self.depth -= 1
        return r[-1]

    def extern(self, name, dem, args):
        if "panicking" in dem or "slice_index_fail" in dem or "unwrap_failed" in dem or "len_mismatch_fail" in dem or "expect_failed" in dem or dem.endswith("_fail"):
            raise Panic(dem)
        if dem.startswith("core::slice::copy_from_slice_impl"):
            ne = args[1] != args[3] if type(args[1]) is int and type(args[3]) is int else self.branch(self.d.icmp("ne", 64, args[1], args[3]))
            if ne:
                raise Panic("copy_from_slice: lengths differ")
            self.memcpy(args[0], args[2], args[1])
            return None
        m = re.match(r"<core::slice::iter::Iter(?:Mut)?<u(\d+)> as core::iter::adapters::zip::TrustedRandomAccessNoCoerce>::size", dem)
        if m:
            a, b, k = self.ld(args[0], 8), self.ld(args[0] + 8, 8), int(m.group(1)) // 8
            if type(a) is int and type(b) is int:
                return (b - a) // k
            n = self.d.binop("sub", 64, b, a)
            return n // k if type(n) is int else n if k == 1 else self.d.binop("udiv", 64, n, k)
        if name in ("@memcmp", "@bcmp"):
            a, b = self.get(args[0], args[2]), self.get(args[1], args[2])
            return self.d.memcmp(a, b, name == "@memcmp")
        raise ExecError("call to a function without a body: " + dem)


def explore(ex_factory, body, maxpaths=400):
    """Runs body(ex) for every path; body returns a result.  Yields (path, result, executor)."""
    todo = [[]]
    n = 0
    while todo:
        n += 1
        if n > maxpaths:
            raise ExecError("too many paths")
        ex = ex_factory()
        ex.decisions = todo.pop()
        ex.pending = []
        ex.d.reset_path()
        ex.forks = True
        try:
            res = ("ok", body(ex))
        except Panic as p:
            res = ("panic", str(p))
        ex.forks = False
        todo.extend(ex.pending)
        yield ex.path, res, ex


# ---------------------------------------------------------------- compilation of a function to Python
SIMPLE = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "inbounds", "samesign", "nneg", "tail", "notail", "musttail", "volatile", "noundef", "zeroext", "signext", "fast"}


class Gen:
    def __init__(self, m, f, inline=(), top=None, ret=None):
        self.m, self.f = m, f
        self.consts = {}
        self.prefix = m.prefix_of[f.name]
        # calls of the functions in inline are compiled in place (top: the Gen they are compiled into)
        self.inline, self.top, self.ret = inline, top or self, ret
        self.stack = (top.stack if top else ()) + (f.name,)
        self.allocas = []
        if top is None:
            self.nregs, self.src, self.slots = 0, [], 0
        self.regs = {}
        for p in f.params:
            self.reg(p)

    def reg(self, n):
        if n not in self.regs:
            self.regs[n] = self.top.nregs
            self.top.nregs += 1
        return f"r[{self.regs[n]}]"

    def block(self):
        self.top.src.append(None)
        return len(self.top.src) - 1

    def const_expr(self, tk):
        """Parses '( ... )' of a constant getelementptr/inttoptr, returns a Python expression."""
        raise ExecError("constant expression")

    def val(self, tk, t):
        x = tk.next()
        if x.startswith("%"):
            return self.reg(x)
        if x.startswith("@"):
            g = self.prefix + x
            return f"ex.glob({(g if g in self.m.globals else x)!r})"
        if x == "true":
            return "1"
        if x in ("false", "null"):
            return "0"
        if x in ("undef", "poison"):
            if t[0] == "st":
                return "(" + "UNDEF," * len(t[1]) + ")"
            return "UNDEF"
        if x == "zeroinitializer":
            return "0"
        if x == "getelementptr":
            while tk.peek() in FLAGS:
                tk.next()
            tk.expect("(")
            ty = parse_type(tk, self.m.named)
            tk.expect(",")
            e = self.gep(tk, ty, ")")
            tk.expect(")")
            return e
        if x == "inttoptr" or x == "ptrtoint":
            tk.expect("(")
            ty = parse_type(tk, self.m.named)
            v = self.val(tk, ty)
            tk.expect("to")
            parse_type(tk, self.m.named)
            tk.expect(")")
            return v
        if x == "{":
            parts = []
            while not tk.accept("}"):
                ty = parse_type(tk, self.m.named)
                parts.append(self.val(tk, ty))
                tk.accept(",")
            return "(" + "".join(p + "," for p in parts) + ")"
        if re.fullmatch(r"-?\d+", x):
            return str(int(x) & masks(t[1]))
        raise ExecError("operand " + x)

    def gep(self, tk, ty, end=None):
        pt = parse_type(tk, self.m.named)
        base = self.val(tk, pt)
        first = True
        terms = []
        cur = ty
        while tk.accept(","):
            if tk.peek() and tk.peek().startswith("!"):
                break
            it = parse_type(tk, self.m.named)
            iv = self.val(tk, it)
            if first:
                scale = size_of(cur)
                first = False
            elif cur[0] == "arr":
                cur = cur[2]
                scale = size_of(cur)
            else:
                off, cur = field_off(cur, int(iv))
                terms.append(str(off))
                continue
            if re.fullmatch(r"\d+", iv):
                terms.append(str(to_signed(int(iv), it[1]) * scale))
            else:
                terms.append(f"idx({iv},{it[1]})*{scale}")
        return "(" + base + "".join("+" + t for t in terms) + ")" if terms else base

    def skip_attrs(self, tk):
        while True:
            t = tk.peek()
            if t in FLAGS or t in ("noalias", "nonnull", "readonly", "readnone", "writeonly", "nofree", "nocapture", "immarg", "inreg", "returned"):
                tk.next()
            elif t in ("align", "dereferenceable", "dereferenceable_or_null", "range", "captures", "sret", "byval", "noext", "allocalign", "dead_on_return", "initializes"):
                tk.next()
                if tk.peek() == "(":
                    d = 0
                    while True:
                        x = tk.next()
                        d += {"(": 1, ")": -1}.get(x, 0)
                        if d == 0:
                            break
                elif t == "align":
                    tk.next()
            else:
                return

    def instr(self, line, out, labels, phis, cur):
        tk = Toks(tokenize(line))
        dst = None
        if len(tk.t) > 1 and tk.t[1] == "=":
            dst = self.reg(tk.next())
            tk.next()
        op = tk.next()
        while op in ("tail", "notail", "musttail"):
            op = tk.next()
        P = lambda: parse_type(tk, self.m.named)
        if op == "alloca":
            t = P()
            self.allocas.append(dst)
            if self.ret is None:
                out.append(f"{dst}=ex.alloca({size_of(t)}); frame.append({dst})")
            else:  # the same object on every path and in every iteration
                self.top.slots += 1
                out.append(f"{dst}=ex.alloca({size_of(t)}, {(1 << 18) + self.top.slots})")
            return
        if op == "load":
            tk.accept("volatile")
            t = P()
            tk.expect(",")
            a = self.val_t(tk)
            if t[0] == "i" and t[1] % 8:
                out.append(f"{dst}=trunc1(ex,{size_of(t)},ex.ld({a},{size_of(t)}),{t[1]})")
            elif t[0] in ("i", "ptr"):
                out.append(f"{dst}=ex.ld({a},{size_of(t)})")
            else:
                raise ExecError("load of aggregate")
            return
        if op == "store":
            t = P()
            v = self.val(tk, t)
            tk.expect(",")
            a = self.val_t(tk)
            if t[0] not in ("i", "ptr"):
                raise ExecError("store of aggregate")
            out.append(f"ex.st({a},{size_of(t)},{v})")
            return
        if op == "getelementptr":
            while tk.peek() in FLAGS:
                tk.next()
            ty = P()
            tk.expect(",")
            out.append(f"{dst}={self.gep(tk, ty)}")
            return
        if op in SIMPLE or op in ("shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            while tk.peek() in FLAGS:
                tk.next()
            t = P()
            a = self.val(tk, t)
            tk.expect(",")
            b = self.val(tk, t)
            w = t[1]
            if op in ("and", "or", "xor"):
                e = f"{{a}}{SIMPLE[op]}{{b}}"
            elif op in SIMPLE:
                e = f"({{a}}{SIMPLE[op]}{{b}})&{masks(w)}"
            elif op == "shl":
                e = f"({{a}}<<{{b}})&{masks(w)}"
            elif op == "lshr":
                e = "{a}>>{b}"
            elif op == "ashr":
                e = f"(to_signed({{a}},{w})>>{{b}})&{masks(w)}"
            elif op == "udiv":
                e = "_cdiv({a},{b})"
            elif op == "urem":
                e = "_crem({a},{b})"
            else:
                e = f"sdivrem({op!r},{w},{{a}},{{b}})"
            self.bin(out, dst, a, b, e, f"ex.d.binop({op!r},{w},{{a}},{{b}})")
            return
        if op == "icmp":
            while tk.peek() in FLAGS:
                tk.next()
            pred = tk.next()
            t = P()
            a = self.val(tk, t)
            tk.expect(",")
            b = self.val(tk, t)
            w = 64 if t[0] == "ptr" else t[1]
            py = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}.get(pred)
            e = f"int({{a}}{py}{{b}})" if py else f"int(CMP[{pred!r}]({{a}},{{b}},{w}))"
            self.bin(out, dst, a, b, e, f"ex.d.icmp({pred!r},{w},{{a}},{{b}})")
            return
        if op in ("zext", "sext", "trunc"):
            while tk.peek() in FLAGS:
                tk.next()
            t = P()
            a = self.val(tk, t)
            tk.expect("to")
            t2 = P()
            e = {"zext": "a", "trunc": f"a&{masks(t2[1])}", "sext": f"to_signed(a,{t[1]})&{masks(t2[1])}"}[op]
            out.append(f"a={a}")
            out.append(f"{dst}={e} if type(a) is int else cast(ex,{op!r},{t[1]},{t2[1]},a)")
            return
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            t = P()
            a = self.val(tk, t)
            out.append(f"{dst}={a}")
            return
        if op == "select":
            t = P()
            c = self.val(tk, t)
            tk.expect(",")
            t = P()
            a = self.val(tk, t)
            tk.expect(",")
            P()
            b = self.val(tk, t)
            w = 64 if t[0] == "ptr" else t[1]
            out.append(f"c={c}")
            out.append(f"{dst}=(({a}) if c&1 else ({b})) if type(c) is int else ex.d.select(c,{w},{a},{b})")
            return
        if op == "extractvalue":
            P()
            a = tk.next()
            tk.expect(",")
            out.append(f"{dst}={self.reg(a)}[{tk.next()}]")
            return
        if op == "insertvalue":
            t = P()
            a = self.val(tk, t)
            tk.expect(",")
            t2 = P()
            b = self.val(tk, t2)
            tk.expect(",")
            k = int(tk.next())
            out.append(f"a={a}; {dst}=a[:{k}]+({b},)+a[{k + 1}:]")
            return
        if op == "call":
            self.call(tk, dst, out)
            return
        if op == "br":
            if tk.accept("label"):
                l = tk.next()
                self.edge(out, l, labels, phis, cur)
                return
            P()
            c = self.val(tk, ("i", 1))
            tk.expect(",")
            tk.expect("label")
            l1 = tk.next()
            tk.expect(",")
            tk.expect("label")
            l2 = tk.next()
            out.append(f"c={c}")
            out.append("if (c&1) if type(c) is int else ex.branch(c):")
            sub = []
            self.edge(sub, l1, labels, phis, cur)
            out.extend("  " + s for s in sub)
            self.edge(out, l2, labels, phis, cur)
            return
        if op == "switch":
            t = P()
            c = self.val(tk, t)
            tk.expect(",")
            tk.expect("label")
            dflt = tk.next()
            tk.expect("[")
            out.append(f"c={c}")
            while not tk.accept("]"):
                P()
                v = int(tk.next()) & masks(t[1])
                tk.expect(",")
                tk.expect("label")
                l = tk.next()
                out.append(f"if (c=={v}) if type(c) is int else ex.branch(ex.d.icmp('eq',{t[1]},c,{v})):")
                sub = []
                self.edge(sub, l, labels, phis, cur)
                out.extend("  " + s for s in sub)
            self.edge(out, dflt, labels, phis, cur)
            return
        if op == "ret":
            t = P()
            if self.ret is not None:
                dst, cont = self.ret
                if t[0] != "void" and dst:
                    out.append(f"{dst}={self.val(tk, t)}")
                out.extend(f"ex.objs.pop({a}>>SHIFT,None)" for a in self.allocas)
                out.append(f"return {cont}")
                return
            if t[0] != "void":
                out.append(f"r[-1]={self.val(tk, t)}")
            out.append("return -1")
            return
        if op == "unreachable":
            out.append("raise ExecError('unreachable executed')")
            return
        raise ExecError("instruction " + op)

    def val_t(self, tk):
        t = parse_type(tk, self.m.named)
        return self.val(tk, t)

    def bin(self, out, dst, a, b, conc, sym):
        na, nb = bool(re.fullmatch(r"\d+", a)), bool(re.fullmatch(r"\d+", b))
        if na and nb:
            out.append(f"{dst}=" + conc.format(a=a, b=b))
            return
        test = []
        if not na:
            out.append(f"a={a}")
            test.append("type(a) is int")
            a = "a"
        if not nb:
            out.append(f"b={b}")
            test.append("type(b) is int")
            b = "b"
        out.append(f"{dst}=({conc.format(a=a, b=b)}) if {' and '.join(test)} else {sym.format(a=a, b=b)}")

    def edge(self, out, label, labels, phis, cur):
        k = labels[label[1:]]
        ph = phis.get(label[1:], [])
        for i, (dst, t, inc) in enumerate(ph):
            for v, l in inc:
                if l == cur:
                    out.append(f"t{i}={v}")
        for i, (dst, t, inc) in enumerate(ph):
            out.append(f"{dst}=t{i}")
        out.append(f"return {k}")

    def call(self, tk, dst, out):
        self.skip_attrs(tk)
        while tk.peek() in ("fastcc", "coldcc", "cc"):
            tk.next()
        self.skip_attrs(tk)
        t = parse_type(tk, self.m.named)
        callee = tk.next()
        if not callee.startswith("@"):
            raise ExecError("indirect call")
        tk.expect("(")
        args = []
        types = []
        while not tk.accept(")"):
            at = parse_type(tk, self.m.named)
            self.skip_attrs(tk)
            args.append(self.val(tk, at))
            types.append(at)
            tk.accept(",")
        pre = f"{dst}=" if dst else ""
        if callee.startswith("@llvm."):
            n = callee[6:]
            w = None
            if n.startswith(("memcpy", "memmove")):
                out.append(f"ex.memcpy({args[0]},{args[1]},{args[2]})")
            elif n.startswith("memset"):
                out.append(f"ex.memset({args[0]},{args[1]},{args[2]})")
            elif ".with.overflow." in n:
                k = n.split(".")[0]
                w = types[0][1]
                out.append(f"a={args[0]}; b={args[1]}")
                out.append(f"{pre}ovf({k!r},{w},a,b) if type(a) is int and type(b) is int else ex.d.ovf({k!r},{w},a,b)")
            elif n.startswith(("fshl", "fshr")):
                w = types[0][1]
                out.append(f"{pre}fsh(ex,{n[:4]!r},{w},{args[0]},{args[1]},{args[2]})")
            elif n.startswith("bswap"):
                w = types[0][1]
                out.append(f"a={args[0]}")
                out.append(f"{pre}int.from_bytes(a.to_bytes({w // 8},'little'),'big') if type(a) is int else ex.d.bswap({w},a)")
            elif n.startswith(("umin", "umax", "smin", "smax", "ucmp", "scmp", "abs", "ctpop", "ctlz", "cttz", "usub.sat", "uadd.sat")):
                w = types[0][1]
                rest = ",".join(args)
                out.append(f"{pre}intrin(ex,{n.rsplit('.i', 1)[0]!r},{w},{rest})")
            elif n.startswith(("lifetime", "assume", "experimental.noalias", "dbg")):
                pass
            else:
                raise ExecError("intrinsic " + callee)
            return
        g = self.m.funcs.get(callee)
        if g is not None and g.dem in self.inline and callee not in self.stack:
            cont = self.block()
            top = self.top
            sub = Gen.__new__(Gen)
            stack = self.stack
            sub.__init__(self.m, g, self.inline, top, (dst, cont))
            sub.stack = stack + (g.name,)
            if len(args) != len(g.params):
                raise ExecError("arity of " + g.dem)
            for k, a in enumerate(args):
                out.append(f"t{k}={a}")
            for k, q in enumerate(g.params):
                out.append(f"{sub.reg(q)}=t{k}")
            out.append(f"return {sub.body()}")
            self.split = cont
            return
        out.append(f"{pre}ex.call({callee!r},[{','.join(args)}])")

    def body(self):
        """Compiles the blocks; the number of the first."""
        f = self.f
        blocks, labels, cur = [], {}, None
        for l in f.lines:
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m:
                cur = m.group(1)
                labels[cur] = self.block()
                blocks.append((cur, []))
            elif l.strip() and not l.strip().startswith(";"):
                if cur is None:
                    cur = "start"
                    labels[cur] = self.block()
                    blocks.append((cur, []))
                blocks[-1][1].append(re.sub(r"\s+;.*$", "", l.strip()))
        phis = {}
        for name, ins in blocks:
            for l in ins:
                m = re.match(r"(%\S+) = phi (.*)$", l)
                if m:
                    tk = Toks(tokenize(m.group(2)))
                    t = parse_type(tk, self.m.named)
                    inc = []
                    while tk.accept("["):
                        v = self.val(tk, t)
                        tk.expect(",")
                        lb = tk.next()[1:]
                        tk.expect("]")
                        tk.accept(",")
                        inc.append((v, lb))
                    phis.setdefault(name, []).append((self.reg(m.group(1)), t, inc))
        for name, ins in blocks:
            out, i = [], labels[name]
            # panic blocks: compiled lazily as a single raise where unsupported
            for l in ins:
                if " = phi " in l:
                    continue
                self.split = None
                try:
                    self.instr(l, out, labels, phis, name)
                except ExecError as e:
                    out.append(f"raise ExecError({('%s in %s: %s' % (e, f.dem, l[:100]))!r})")
                    break
                if self.split is not None:
                    self.put(i, out)
                    i, out = self.split, []
            self.put(i, out)
        return labels[blocks[0][0]]

    def put(self, i, out):
        self.top.src[i] = f"def b{i}(r,ex,frame):\n" + "\n".join("  " + s for s in out or ["pass"])

    def compile(self):
        """(blocks, number of registers, number of parameters), successors of the blocks."""
        self.body()
        succ = [sorted({int(x) for x in re.findall(r"return (-?\d+)$", t, re.M)}) for t in self.src]
        src = self.src + ["blocks=[" + ",".join(f"b{i}" for i in range(len(self.src))) + "]"]
        env = dict(ENV)
        exec(compile("\n".join(src), self.f.dem[:60], "exec"), env)
        return (env["blocks"], self.nregs + 1, len(self.f.params)), succ


def _sret(head):
    m = re.search(r"sret\(\[(\d+) x i8\]\)", head)
    return int(m.group(1)) if m else None


def compile_fn(m, f):
    c, f.succ = Gen(m, f).compile()
    return c


def inlined(m, f, inline):
    """f with the calls of the functions in inline compiled in place."""
    g = Func()
    g.name, g.dem, g.params, g.lines, g.sret = f.name, f.dem, f.params, f.lines, f.sret
    g.compiled, g.succ = Gen(m, f, inline).compile()
    return g


def idx(v, w):
    if type(v) is not int:
        if hasattr(v, "p") and v.w == 64 == w:
            return v
        raise ExecError("symbolic index")
    return to_signed(v, w)


def cast(ex, op, w1, w2, a):
    if a is UNDEF:
        return UNDEF
    return getattr(ex.d, op)(w1, w2, a)


def trunc1(ex, n, v, w):
    if type(v) is int:
        return v & masks(w)
    return cast(ex, "trunc", 8 * n, w, v)


def ovf(k, w, a, b):
    s = k[0] == "s"
    if s:
        a, b = to_signed(a, w), to_signed(b, w)
    v = {"add": a + b, "sub": a - b, "mul": a * b}[k[1:]]
    o = not (-(1 << (w - 1)) <= v < 1 << (w - 1)) if s else not (0 <= v < 1 << w)
    return v & masks(w), int(o)


def fsh(ex, k, w, a, b, c):
    if type(c) is not int:
        raise ExecError("symbolic rotate distance")
    c %= w
    if type(a) is int and type(b) is int:
        x = a << w | b
        return (x >> (w - c) if k == "fshl" else x >> c) & masks(w)
    return ex.d.fsh(k, w, a, b, c)


def sdivrem(op, w, a, b):
    a, b = to_signed(a, w), to_signed(b, w)
    if b == 0:
        raise ExecError("division by zero")
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return (q if op == "sdiv" else a - q * b) & masks(w)


def intrin(ex, n, w, *a):
    if all(type(x) is int for x in a):
        s = [to_signed(x, w) for x in a]
        if n == "umin": return min(a)
        if n == "umax": return max(a)
        if n == "smin": return min(s) & masks(w)
        if n == "smax": return max(s) & masks(w)
        if n.startswith("ucmp"): return ((a[0] > a[1]) - (a[0] < a[1])) & 0xFF
        if n.startswith("scmp"): return ((s[0] > s[1]) - (s[0] < s[1])) & 0xFF
        if n == "abs": return abs(s[0]) & masks(w)
        if n == "ctpop": return bin(a[0]).count("1")
        if n == "ctlz": return w - a[0].bit_length()
        if n == "cttz": return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        if n == "usub.sat": return max(0, a[0] - a[1])
        if n == "uadd.sat": return min(masks(w), a[0] + a[1])
    if n.startswith("ucmp") or n.startswith("scmp"):
        p = "u" if n[0] == "u" else "s"
        if ex.branch(ex.d.icmp("eq", w, a[0], a[1])):
            return 0
        return 0xFF if ex.branch(ex.d.icmp(p + "lt", w, a[0], a[1])) else 1
    raise ExecError("symbolic operand of " + n)


ENV = {k: v for k, v in globals().items() if k in ("UNDEF", "ExecError", "CMP", "to_signed", "idx", "cast", "trunc1", "ovf", "fsh", "sdivrem", "intrin", "_cdiv", "_crem", "SHIFT")}


class Concrete:
    """The domain of concrete executions."""

    def __getattr__(self, n):
        def bad(*a):
            raise ExecError("symbolic operation in a concrete run: " + n)
        return bad
