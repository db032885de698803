"""Grade inference over the compiler's intermediate representation.

Every floating point value of a kernel is given a grade: the exponents of the physical units it is measured in,
one reflection parity per coordinate axis, and its weight under a translation of the coordinates.  The inference is a
flow-sensitive forward dataflow analysis (values in SSA registers, memory as cells (object, offset)) run to a fixpoint
over the control flow graph.  Nothing is executed and no path is enumerated; a construct is reported only when two
definite grades contradict each other.
"""
import re
from fractions import Fraction as Fr

UN = ["L", "M", "T", "E", "F", "Q", "A", "B"]          # symbolic base units; kernels choose which they use
NU = len(UN)
U0 = (Fr(0),) * NU
P0 = (0, 0, 0)
W0 = (0.0, 0.0, 0.0)
BOT, ZERO, TOP = ("bot",), ("zero",), ("top",)


def unit(s):
    u = [Fr(0)] * NU
    for t in s.split():
        m = re.fullmatch(r"([A-Z])(-?\d+(?:/\d+)?)?", t)
        if not m:
            raise ValueError("unit %r" % s)
        u[UN.index(m.group(1))] += Fr(m.group(2) or 1)
    return tuple(u)


def ustr(u):
    if u is None:
        return "?"
    t = " ".join(n + ("" if e == 1 else str(e)) for n, e in zip(UN, u) if e)
    return t or "1"


def pstr(p):
    t = "".join(a if b == 1 else "?" if b is None else "" for a, b in zip("xyz", p))
    return "odd in " + t if t else "even"


def G(u=U0, p=P0, w=W0):
    return ("g", u, p, w)


MV = "M"          # moves with the coordinates in a non-constant, non-linear way (a product of a moving value with something)


def wadd(p, q, neg):
    if p is None or q is None:
        return None
    if p == MV or q == MV:
        o = q if p == MV else p
        return MV if o != MV and abs(o) < 1e-9 else None
    return p - q if neg else p + q


def wscale(t, k):
    return t if t is None or t == MV else t * k


def wmul(i, j):
    if i is None or j is None:
        return None
    if i != MV and j != MV and abs(i) < 1e-9 and abs(j) < 1e-9:
        return 0.0
    return MV


def wstr(v):
    return ",".join("?" if x is None else "moving" if x == MV else "%g" % x for x in v[3])


UNK = ("g", None, (None,) * 3, (None,) * 3)


def const(x):
    return ZERO if x == 0 else ("c", x)


def gstr(v):
    if v[0] == "g":
        return "[%s; %s; weight %s]" % (ustr(v[1]), pstr(v[2]), wstr(v))
    if v[0] == "c":
        return "number" if v[1] is None else "%g" % v[1]
    return v[0]


def asg(v):
    """grade of a value used as a factor"""
    return G() if v[0] == "c" else v


class Obj:
    def __init__(self, name, size=None, kind="local"):
        self.name, self.size, self.kind = name, size, kind


class Interp:
    def __init__(self, fn, globs, args, report, out=None):
        """args: per parameter either a value, or an Obj with .cells {off: (value, elem size)}"""
        self.fn, self.globs, self.args, self.report = fn, globs, args, report
        self.unknown_calls = set()
        self.stats = {"instructions": 0, "arith": 0, "unknown": 0, "loads": 0, "stores": 0, "compares": 0, "varindex": 0}
        self.reported = set()
        self.gobj = {}
        self.loc = None
        self.rets = []
        self.exit_states = []
        self.quiet = True
        self.varstore = set()
        self.argobj = {}
        self.rootok = False

    # ------------------------------------------------------------------ reporting
    def rep(self, cls, text):
        if self.quiet:
            return
        loc = self.cur.get("loc") or ["?"]
        k = (cls, tuple(loc), text)
        if k not in self.reported:
            self.reported.add(k)
            self.report(cls, loc, text)

    # ------------------------------------------------------------------ grade operations
    def join(self, a, b, report, what="merges"):
        if a == b:
            return a
        if a[0] == "bot":
            return b
        if b[0] == "bot":
            return a
        if a[0] == "zero":
            return b
        if b[0] == "zero":
            return a
        if a[0] == "top" or b[0] == "top":
            return TOP
        if a[0] == "p" and b[0] == "p":
            return ("p", a[1] | b[1])
        if a[0] == "i" and b[0] == "i":
            return TOP
        if a[0] == "v" and b[0] == "v" and len(a[1]) == len(b[1]):
            return ("v", tuple(self.join(x, y, report, what) for x, y in zip(a[1], b[1])))
        if a[0] == "c" and b[0] == "c":
            # two numbers chosen by a condition: a sign carries the parity of the condition
            if a[1] is not None and b[1] is not None and a[1] * b[1] > 0:
                return ("c", None)
            return ("g", U0, (None,) * 3, W0)
        if a[0] == "c":
            return b if b[0] == "g" else TOP
        if b[0] == "c":
            return a if a[0] == "g" else TOP
        if a[0] != "g" or b[0] != "g":
            return TOP
        return self.meet(a, b, report, what)

    def meet(self, a, b, report, what):
        """two grades that must agree"""
        u = a[1] if a[1] is not None and b[1] is not None else None
        if u is not None and a[1] != b[1]:
            if report:
                self.rep("unit", "%s a value in %s with a value in %s" % (what, ustr(a[1]), ustr(b[1])))
            u = None
        p = []
        bad = False
        for x, y in zip(a[2], b[2]):
            p.append(x if x == y else None)
            bad = bad or (x is not None and y is not None and x != y)
        if bad and report:
            self.rep("parity", "%s a value that is %s with one that is %s" % (what, pstr(a[2]), pstr(b[2])))
        return ("g", u, tuple(p), a[3])

    def mergew(self, a, b, report, what):
        w, bad = [], False
        for x, y in zip(a[3], b[3]):
            if x is None or y is None or MV in (x, y):
                w.append(MV if x == y == MV else None)
            elif abs(x - y) > 1e-6:
                w.append(None); bad = True
            else:
                w.append(x)
        if bad and report:
            self.rep("weight", "%s a value that moves with the coordinates (weight %s) with one that moves differently (%s)" % (what, self.ws(a), self.ws(b)))
        return tuple(w)

    def ws(self, v):
        return wstr(v)

    def merge(self, a, b, report, what="merges"):
        """join including translation weights"""
        r = self.join(a, b, report, what)
        if r[0] == "g" and a[0] == "g" and b[0] == "g" and a != b:
            r = ("g", r[1], r[2], self.mergew(a, b, report, what))
        return r

    def add(self, a, b, neg=False):
        if a[0] == "v" or b[0] == "v":
            return self.vec2(a, b, lambda x, y: self.add(x, y, neg))
        self.stats["arith"] += 1
        if a[0] in ("bot", "top") or b[0] in ("bot", "top"):
            return UNK if "top" in (a[0], b[0]) else BOT
        if a[0] == "zero":
            return self.neg(b) if neg else b
        if b[0] == "zero":
            return a
        if a[0] == "c" and b[0] == "c":
            if a[1] is None or b[1] is None:
                return ("c", None)
            return const(a[1] - b[1] if neg else a[1] + b[1])
        # a tolerance added to a quantity is not a quantity
        if a[0] == "c" and a[1] is not None and abs(a[1]) <= 1e-4:
            return self.neg(b) if neg else b
        if b[0] == "c" and b[1] is not None and abs(b[1]) <= 1e-4:
            return a
        x, y = asg(a), asg(b)
        if x[0] != "g" or y[0] != "g":
            return UNK
        r = self.meet(x, y, True, "adds")
        w = tuple(wadd(p, q, neg) for p, q in zip(x[3], y[3]))
        return ("g", r[1], r[2], w)

    def neg(self, a):
        if a[0] == "v":
            return ("v", tuple(self.neg(x) for x in a[1]))
        if a[0] == "c":
            return ("c", None if a[1] is None else -a[1])
        if a[0] == "g":
            return ("g", a[1], a[2], tuple(wscale(x, -1) for x in a[3]))
        return a

    def vec2(self, a, b, f):
        if a[0] == "v" and b[0] == "v" and len(a[1]) == len(b[1]):
            return ("v", tuple(f(x, y) for x, y in zip(a[1], b[1])))
        n = len(a[1]) if a[0] == "v" else len(b[1])
        return ("v", (UNK,) * n)

    def mul(self, a, b, div=False):
        if a[0] == "v" or b[0] == "v":
            return self.vec2(a, b, lambda x, y: self.mul(x, y, div))
        self.stats["arith"] += 1
        if a[0] in ("bot", "top") or b[0] in ("bot", "top"):
            return UNK if "top" in (a[0], b[0]) else BOT
        if a[0] == "zero" or (b[0] == "zero" and not div):
            return ZERO
        if b[0] == "zero":
            return UNK
        if a[0] == "c" and b[0] == "c":
            if a[1] is None or b[1] is None:
                return ("c", None)
            try:
                return const(a[1] / b[1] if div else a[1] * b[1])
            except OverflowError:
                return ("c", None)
        x, y = asg(a), asg(b)
        if x[0] != "g" or y[0] != "g":
            return UNK
        s = -1 if div else 1
        u = None if x[1] is None or y[1] is None else tuple(p + s * q for p, q in zip(x[1], y[1]))
        p = tuple(None if i is None or j is None else (i + j) & 1 for i, j in zip(x[2], y[2]))
        if b[0] == "c" and b[1] is not None:
            k = 1.0 / b[1] if div else b[1]
            w = tuple(wscale(t, k) for t in x[3])
        elif a[0] == "c" and a[1] is not None and not div:
            w = tuple(wscale(t, a[1]) for t in y[3])
        else:
            w = tuple(wmul(i, j) if not div or (j not in (None, MV) and abs(j) < 1e-9) else None for i, j in zip(x[3], y[3]))
        return ("g", u, p, w)

    def power(self, a, k, what):
        if a[0] in ("zero", "bot", "top"):
            return a if a[0] != "top" else UNK
        if a[0] == "c":
            return ("c", None)
        u = None if a[1] is None else tuple(e * k for e in a[1])
        if k.denominator == 1:
            p = tuple(None if x is None else (x * int(k)) & 1 for x in a[2])
        elif k.denominator == 3 and k.numerator % 2:
            p = a[2]
        else:
            if self.rootok:      # a length taken from a signed area or volume
                a = ("g", a[1], tuple(0 if x is not None else None for x in a[2]), a[3])
            if any(x == 1 for x in a[2]):
                self.rep("root", "takes a root of a value that is %s" % pstr(a[2]))
            p = tuple(0 if x == 0 else None for x in a[2])
        return ("g", u, p, self.still(a, what))

    def still(self, a, what):
        if a[0] == "g" and any(x is not None and (x == MV or abs(x) > 1e-6) for x in a[3]):
            self.rep("weight", "%s a value that moves with the coordinates" % what)
        return tuple(0.0 if x is not None and x != MV and abs(x) < 1e-9 else None for x in a[3]) if a[0] == "g" else W0

    def pure(self, a, what):
        """argument of a transcendental function"""
        if a[0] == "g" and a[1] is not None and a[1] != U0:
            self.rep("unit", "%s of a value in %s" % (what, ustr(a[1])))

    def fabs(self, a):
        if a[0] == "g":
            return ("g", a[1], tuple(0 if x is not None else 0 for x in a[2]), tuple(x if x == 0 else None for x in a[3]))
        if a[0] == "c":
            return ("c", None if a[1] is None else abs(a[1]))
        return a

    def minmax(self, a, b):
        if a[0] == "zero" and b[0] == "g" or b[0] == "zero" and a[0] == "g":
            g = a if a[0] == "g" else b
            return ("g", g[1], tuple(0 if x == 0 else None for x in g[2]), g[3])
        r = self.merge(a, b, False)
        if a[0] == "g" and b[0] == "g" and a[1] is not None and b[1] is not None and a[1] != b[1]:
            self.rep("unit", "compares a value in %s with a value in %s" % (ustr(a[1]), ustr(b[1])))
        if r[0] == "g":
            r = ("g", r[1], tuple(0 if x == 0 else None for x in r[2]), r[3])
        return r

    # ------------------------------------------------------------------ values
    def val(self, o):
        if "i" in o:
            return self.ssa.get(o["i"], BOT)
        if "a" in o:
            return self.argv[o["a"]]
        if "f" in o:
            try:
                return const(float(o["f"]))
            except ValueError:
                return TOP
        if "n" in o:
            return ("i", o["n"])
        if "g" in o:
            return ("p", frozenset([(self.globobj(o["g"]), 0)]))
        if "gep" in o:
            return self.gep(o["gep"])
        if "vec" in o:
            return ("v", tuple(self.val(x) for x in o["vec"]))
        if "undef" in o:
            return BOT
        if "null" in o:
            return ("p", frozenset())
        if "zero" in o:
            return TOP
        return TOP

    def globobj(self, name):
        if name not in self.gobj:
            g = self.globs.get(name, {"size": 0, "v": []})
            o = Obj(name, g.get("size"), "global")
            o.const = {}
            for off, sz, v in g.get("v", []):
                if "f" in v:
                    try:
                        o.const[off] = const(float(v["f"]))
                    except ValueError:
                        o.const[off] = TOP
                elif "n" in v:
                    o.const[off] = ("i", v["n"])
                elif "g" in v:
                    o.const[off] = v
            o.isconst = bool(g.get("const")) and bool(g.get("v"))
            self.gobj[name] = o
        return self.gobj[name]

    def gep(self, g):
        if g.get("top"):
            return TOP
        base = self.val(g["p"])
        if base[0] != "p":
            return base if base[0] == "bot" else TOP
        off, var = g["o"], False
        for x, sc in g["v"]:
            v = self.val(x)
            if v[0] == "i":
                off += v[1] * sc
            elif v[0] == "bot":
                return BOT
            else:
                var = True
        if var:
            self.stats["varindex"] += 1
        return ("p", frozenset((o, None if var or b is None else b + off) for o, b in base[1]))

    # ------------------------------------------------------------------ memory: state = {(obj, off): (value, maybe_unset)}
    def load1(self, st, o, off, n, only=False):
        if off is None:
            r = BOT
            src = [v for (q, k), (v, mu) in st.items() if q is o]
            if o.kind == "global":
                src = list(o.const.values()) if o.isconst else [TOP]
            for v in src:
                if isinstance(v, dict):
                    v = ("p", frozenset([(self.globobj(v["g"]), 0)]))
                if v[0] == "v":
                    for x in v[1]:
                        r = self.merge(r, x, False)
                else:
                    r = self.merge(r, v, False)
            return r if src else TOP
        if o.size is not None and (off < 0 or off + n > o.size):
            self.rep("bounds", "reads %d bytes at offset %d of %s, which has %d" % (n, off, o.name, o.size))
            return TOP
        if o.kind == "global":
            v = o.const.get(off, ZERO if o.isconst else TOP)
            return ("p", frozenset([(self.globobj(v["g"]), 0)])) if isinstance(v, dict) else v
        c = st.get((o, off))
        if c is None:
            if o.kind in ("local", "out") and only and o not in self.varstore:
                self.rep("unset", "reads %s at offset %d before anything is assigned to it" % (o.name, off))
            return BOT if o.kind in ("local", "out") else TOP
        return c[0]

    def load(self, st, p, t, n):
        if p[0] != "p":
            return BOT if p[0] == "bot" else TOP
        m = re.match(r"<(\d+) x (\w+)>", t)
        if m:
            k = int(m.group(1)); e = n // k
            return ("v", tuple(self.load(st, ("p", frozenset((o, None if f is None else f + e * i) for o, f in p[1])), m.group(2), e) for i in range(k)))
        r = BOT
        for o, off in p[1]:
            self.stats["loads"] += 1
            r = self.merge(r, self.load1(st, o, off, n, len(p[1]) == 1), False)
        return r

    def store(self, st, p, v, n):
        if v[0] == "v":
            e = n // len(v[1])
            for i, x in enumerate(v[1]):
                self.store(st, ("p", frozenset((o, None if f is None else f + e * i) for o, f in p[1])) if p[0] == "p" else p, x, e)
            return
        self.stats["stores"] += 1
        if p[0] != "p":
            return
        strong = len(p[1]) == 1
        for o, off in p[1]:
            if o.kind == "in":
                if off is not None:
                    st[(o, off)] = (v, False)
                continue
            if off is None:
                self.varstore.add(o)
                for k in [k for k in st if k[0] is o]:
                    st[k] = (self.merge(st[k][0], v, False), False)
                if not any(k[0] is o for k in st):
                    st[(o, 0)] = (v, True)
                continue
            if o.size is not None and (off < 0 or off + n > o.size):
                self.rep("bounds", "writes %d bytes at offset %d of %s, which has %d" % (n, off, o.name, o.size))
                continue
            if strong:
                st[(o, off)] = (v, False)
            else:
                c = st.get((o, off))
                st[(o, off)] = (v, True) if c is None else (self.merge(c[0], v, False), c[1])

    def joinst(self, a, b, report=False):
        if a is None:
            return dict(b)
        r = {}
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                c = x or y
                # never assigned on the other path
                r[k] = (c[0], True)
            elif x == y:
                r[k] = x
            else:
                r[k] = (self.merge(x[0], y[0], False), x[1] or y[1])
        return r

    # ------------------------------------------------------------------ calls
    FILL = 8          # grain of a fill of memory

    def call(self, ins, st):
        name = ins.get("callee", "")
        A = [self.val(a) for a in ins["args"]]
        n = name
        m = re.match(r"llvm\.(\w+(?:\.\w+)*?)(?:\.(?:f64|f32|v\d\w+|p0\S*|i\d+))*$", n)
        if m:
            n = "@" + m.group(1)
        v = ins["t"].startswith("<") and A and A[0][0] == "v"
        if v and n in ("@fabs", "@sqrt"):
            return ("v", tuple(self.math(n, [x]) for x in A[0][1]))
        r = self.math(n, A)
        if r is not None:
            return r
        if n in ("@memcpy", "@memmove"):
            d, s, ln = A[0], A[1], A[2]
            if d[0] == "p" and s[0] == "p" and ln[0] == "i" and len(d[1]) == 1 and len(s[1]) == 1:
                (do, dof), (so, sof) = next(iter(d[1])), next(iter(s[1]))
                if dof is not None and sof is not None:
                    src = {k[1]: c for k, c in st.items() if k[0] is so and sof <= k[1] < sof + ln[1]}
                    if so.kind == "global":
                        src = {k: (x if not isinstance(x, dict) else ("p", frozenset([(self.globobj(x["g"]), 0)])), False) for k, x in so.const.items() if sof <= k < sof + ln[1]}
                    if do.size is not None and (dof < 0 or dof + ln[1] > do.size):
                        self.rep("bounds", "copies %d bytes to offset %d of %s, which has %d" % (ln[1], dof, do.name, do.size))
                    for k in [k for k in st if k[0] is do and dof <= k[1] < dof + ln[1]]:
                        del st[k]
                    for k, c in src.items():
                        st[(do, dof + k - sof)] = c
                    return TOP
            for o, f in (d[1] if d[0] == "p" else []):
                self.havoc(st, o)
            return TOP
        if n == "@memset":
            d, x, ln = A[0], A[1], A[2]
            if d[0] == "p" and len(d[1]) == 1 and ln[0] == "i":
                o, f = next(iter(d[1]))
                if f is not None:
                    if o.size is not None and (f < 0 or f + ln[1] > o.size):
                        self.rep("bounds", "fills %d bytes at offset %d of %s, which has %d" % (ln[1], f, o.name, o.size))
                    es = getattr(o, "es", self.FILL)
                    for k in range(f, f + ln[1], es):
                        st[(o, k)] = (ZERO if x == ("i", 0) else ("i", -1) if x in (("i", -1), ("i", 255)) else TOP, False)
                    return TOP
            for o, f in (d[1] if d[0] == "p" else []):
                self.havoc(st, o)
            return TOP
        if n in ("_Znwm", "_Znam", "malloc"):
            o = self.alloc.setdefault(ins["id"], Obj("heap block", A[0][1] if A and A[0][0] == "i" else None, "local"))
            return ("p", frozenset([(o, 0)]))
        if n.startswith("@lifetime") or n.startswith("@dbg") or n in ("@assume", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "@stacksave", "@stackrestore", "@experimental.noalias.scope.decl", "@trap"):
            return TOP
        self.unknown_calls.add(name)
        for a in A:
            if a[0] == "p":
                for o, f in a[1]:
                    self.havoc(st, o)
        return UNK if ins["t"] in ("double", "float") else TOP

    def havoc(self, st, o):
        if o.kind in ("global", "in"):
            return
        self.varstore.add(o)
        for k in [k for k in st if k[0] is o]:
            st[k] = (UNK, False)

    def math(self, n, A):
        n = n.lstrip("@")
        if n.endswith("f") and n[:-1] in ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "fabs", "floor", "ceil", "cbrt", "fmin", "fmax", "fmod", "hypot", "copysign"):
            n = n[:-1]
        if n == "fabs":
            return self.fabs(A[0])
        if n == "sqrt":
            return self.power(A[0], Fr(1, 2), "takes the square root of")
        if n == "cbrt":
            return self.power(A[0], Fr(1, 3), "takes the cube root of")
        if n in ("sin", "tan", "asin", "atan", "sinh", "tanh", "cos", "cosh", "exp", "exp2", "log", "log2", "log10", "acos", "log1p", "expm1"):
            a = A[0]
            self.pure(a, n)
            if a[0] == "zero":
                return ("c", 1.0) if n in ("cos", "cosh", "exp", "exp2") else ZERO if n not in ("acos", "log", "log2", "log10") else ("c", None)
            if a[0] == "c":
                return ("c", None)
            if a[0] != "g":
                return UNK
            w = self.still(a, "takes %s of" % n)
            if n in ("sin", "tan", "asin", "atan", "sinh", "tanh"):
                p = a[2]
            elif n in ("cos", "cosh"):
                p = tuple(0 for x in a[2])
            else:
                p = tuple(0 if x == 0 else None for x in a[2])
            return ("g", U0, p, w)
        if n == "atan2":
            y, x = A
            if y[0] == "g" and x[0] == "g":
                if y[1] is not None and x[1] is not None and y[1] != x[1]:
                    self.rep("unit", "atan2 of a value in %s and a value in %s" % (ustr(y[1]), ustr(x[1])))
                p = tuple((a if b == 0 else None) if a is not None and b is not None else None for a, b in zip(y[2], x[2]))
                return ("g", U0, p, self.still(self.add(y, x), "takes atan2 of") if y[1] == x[1] else (None,) * 3)
            return UNK
        if n == "hypot":
            r = self.merge(self.mul(A[0], A[0]), self.mul(A[1], A[1]), True, "adds")
            return self.power(r, Fr(1, 2), "takes the square root of")
        if n == "pow":
            if A[1][0] == "c" and A[1][1] is not None:
                f = Fr(A[1][1]).limit_denominator(12)
                if abs(float(f) - A[1][1]) < 1e-9:
                    return self.power(A[0], f, "takes a power of")
            if A[1][0] == "zero":
                return ("c", 1.0)
            if A[0][0] == "c":
                self.pure(A[1], "pow")
                return UNK if A[1][0] == "g" else ("c", None)
            return UNK
        if n == "powi":
            return self.power(A[0], Fr(A[1][1]), "takes a power of") if A[1][0] == "i" else UNK
        if n in ("fmuladd", "fma"):
            return self.add(self.mul(A[0], A[1]), A[2])
        if n in ("minnum", "maxnum", "fmin", "fmax", "minimum", "maximum"):
            return self.minmax(A[0], A[1])
        if n == "copysign":
            x, y = self.fabs(A[0]), A[1]
            if x[0] == "c":
                x = G()
            if x[0] == "g":
                return ("g", x[1], y[2] if y[0] == "g" else (None,) * 3, x[3])
            return x
        if n in ("floor", "ceil", "round", "trunc", "rint", "nearbyint", "fmod"):
            return UNK if A[0][0] not in ("zero", "c") else ("c", None)
        return None

    # ------------------------------------------------------------------ transfer
    def step(self, ins, st, preds):
        op = ins["op"]
        self.cur = ins
        self.stats["instructions"] += 1
        if op == "phi":
            r = BOT
            for o, b in ins["phi"]:
                if b in preds:
                    v = self.val(o)
                    if r[0] != "bot" and v[0] != "bot" and self.negpair(ins["phi"]):
                        v = self.signless(v)
                    r = self.merge(r, v, True)
            return r
        if op == "select":
            c, a, b = ins["args"]
            x, y = self.val(a), self.val(b)
            if x[0] == "v" or y[0] == "v":
                return self.merge(x, y, True)
            k = self.absform(ins)
            if k is not None:
                return self.fabs(k)
            if self.negpair([[a, 0], [b, 0]]):
                x, y = self.signless(x), self.signless(y)
            mm = self.minmaxform(ins)
            if mm is not None:
                return self.minmax(*mm)
            return self.merge(x, y, True, "selects between")
        if op == "load":
            return self.load(st, self.val(ins["args"][0]), ins["t"], ins["sz"])
        if op == "store":
            self.store(st, self.val(ins["args"][1]), self.val(ins["args"][0]), ins["sz"])
            return None
        if op == "getelementptr":
            return self.gep(ins["gep"])
        if op == "alloca":
            o = self.alloc.setdefault(ins["id"], Obj("local array", None if ins.get("vla") else ins["sz"], "local"))
            return ("p", frozenset([(o, 0)]))
        if op in ("call", "invoke"):
            return self.call(ins, st)
        if op == "ret":
            if ins["args"]:
                self.rets.append((self.val(ins["args"][0]), ins))
            self.exit_states.append((dict(st), ins))
            return None
        if op in ("br", "switch", "unreachable", "resume", "fence"):
            return None
        A = [self.val(a) for a in ins["args"]]
        if op == "fadd":
            return self.add(A[0], A[1])
        if op == "fsub":
            return self.add(A[0], A[1], True)
        if op == "fmul":
            return self.mul(A[0], A[1])
        if op == "fdiv":
            return self.mul(A[0], A[1], True)
        if op == "fneg":
            return self.neg(A[0])
        if op == "fcmp":
            self.stats["compares"] += 1
            a, b = A
            if a[0] == "g" and b[0] == "g" and a[1] is not None and b[1] is not None and a[1] != b[1]:
                self.rep("unit", "compares a value in %s with a value in %s" % (ustr(a[1]), ustr(b[1])))
            if a[0] == "g" and b[0] == "g":
                self.mergew(a, b, True, "compares")
                if any(MV in (p, q) and None not in (p, q) and p != q and abs(p if q == MV else q) < 1e-9 for p, q in zip(a[3], b[3])):
                    self.rep("weight", "compares a value that moves with the coordinates with one that does not")
            return TOP
        if op in ("sitofp", "uitofp"):
            return const(float(A[0][1])) if A[0][0] == "i" else ("c", None)
        if op in ("fpext", "fptrunc", "bitcast", "freeze", "addrspacecast"):
            return A[0]
        if op in ("zext", "sext", "trunc"):
            return A[0] if A[0][0] == "i" else TOP
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor"):
            if len(A) == 2 and A[0][0] == "i" and A[1][0] == "i":
                a, b = A[0][1], A[1][1]
                return ("i", {"add": a + b, "sub": a - b, "mul": a * b, "shl": a << (b & 63), "and": a & b, "or": a | b, "xor": a ^ b}[op])
            return BOT if A and A[0][0] == "bot" and A[1][0] == "bot" else TOP
        if op == "extractelement":
            if A[0][0] == "v" and A[1][0] == "i":
                return A[0][1][A[1][1]]
            return UNK
        if op == "insertelement":
            k = int(re.match(r"<(\d+)", ins["t"]).group(1))
            b = list(A[0][1]) if A[0][0] == "v" else [BOT] * k
            if A[2][0] == "i":
                b[A[2][1]] = A[1]
                return ("v", tuple(b))
            return ("v", (UNK,) * k)
        if op == "shufflevector":
            k = int(re.match(r"<(\d+)", ins["t"]).group(1))
            m = re.match(r"<(\d+)", ins["t"])
            n0 = len(A[0][1]) if A[0][0] == "v" else (len(A[1][1]) if A[1][0] == "v" else k)
            L = list(A[0][1]) if A[0][0] == "v" else [BOT if A[0][0] == "bot" else UNK] * n0
            L += list(A[1][1]) if A[1][0] == "v" else [BOT if A[1][0] == "bot" else UNK] * n0
            return ("v", tuple(L[i] if 0 <= i < len(L) else BOT for i in ins["mask"]))
        if op == "insertvalue":
            base = dict(A[0][1]) if A[0][0] == "agg" else {}
            base[tuple(ins["idx"])] = A[1]
            return ("agg", tuple(sorted(base.items())))
        if op == "extractvalue":
            if A[0][0] == "agg":
                return dict(A[0][1]).get(tuple(ins["idx"]), TOP)
            return UNK if ins["t"] in ("double", "float") else TOP
        return TOP

    def defof(self, o):
        return self.insmap.get(o["i"]) if "i" in o else None

    def negof(self, a, b):
        """b is the negation of a"""
        d = self.defof(b)
        return bool(d and ((d["op"] == "fneg" and d["args"][0] == a) or (d["op"] == "fmul" and {"f": "-1"} in d["args"] and a in d["args"])))

    def negpair(self, L):
        L = [x[0] for x in L]
        return len(L) == 2 and (self.negof(L[0], L[1]) or self.negof(L[1], L[0]))

    def signless(self, v):
        return ("g", v[1], (None,) * 3, v[3]) if v[0] == "g" else v

    def absform(self, ins):
        c, a, b = ins["args"]
        d = self.defof(c)
        if not d or d["op"] != "fcmp":
            return None
        x, y = d["args"]
        z = {"f": "0"}
        q = x if y.get("f") in ("0", "-0") else y if x.get("f") in ("0", "-0") else None
        if q is None:
            return None
        if (self.negof(q, a) and b == q) or (self.negof(q, b) and a == q):
            return self.val(q)
        return None

    def minmaxform(self, ins):
        c, a, b = ins["args"]
        d = self.defof(c)
        if d and d["op"] == "fcmp" and ((d["args"][0] == a and d["args"][1] == b) or (d["args"][0] == b and d["args"][1] == a)):
            return self.val(a), self.val(b)
        return None

    # ------------------------------------------------------------------ fixpoint
    def run(self):
        B = self.fn["blocks"]
        self.insmap = {i["id"]: i for b in B for i in b}
        self.alloc = {}
        self.ssa = {}
        self.argv = []
        init = {}
        for k, a in enumerate(self.args):
            if isinstance(a, Obj):
                self.argv.append(("p", frozenset([(a, 0)])))
                for off, v in a.cells.items():
                    init[(a, off)] = (v, False)
            else:
                self.argv.append(a)
        succ = [b[-1].get("succ", []) if b else [] for b in B]
        pred = [[] for _ in B]
        for i, s in enumerate(succ):
            for j in s:
                pred[j].append(i)
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m); stack.append((m, iter(succ[m]))); break
            else:
                order.append(n); stack.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        self.reach = len(order)
        out = {}
        for rnd in range(12):
            changed = False
            self.rets, self.exit_states = [], []
            for b in order:
                done = {p for p in pred[b] if p in out}
                st = None
                for p in done:
                    st = self.joinst(st, out[p])
                if b == 0:
                    st = dict(init)
                if st is None:
                    continue
                vals = []
                for ins in B[b]:
                    r = self.step(ins, st, done)
                    if r is not None:
                        if self.ssa.get(ins["id"]) != r:
                            changed = True
                        if ins["op"] == "phi":
                            vals.append((ins["id"], r)); self.ssa[ins["id"]] = r
                        else:
                            self.ssa[ins["id"]] = r
                if out.get(b) != st:
                    changed = True
                out[b] = st
            if not changed:
                break
        else:
            self.rep("none", "no fixpoint")
        # reporting pass over the stable solution
        self.quiet = False
        for k in self.stats:
            self.stats[k] = 0
        self.rets, self.exit_states = [], []
        for b in order:
            done = {p for p in pred[b] if p in out}
            st = dict(init) if b == 0 else None
            for p in done:
                st = self.joinst(st, out[p])
            if st is None:
                continue
            for ins in B[b]:
                r = self.step(ins, st, done)
                if r is not None:
                    self.ssa[ins["id"]] = r
                    if r[0] == "g" and r[1] is None:
                        self.stats["unknown"] += 1
        return self
