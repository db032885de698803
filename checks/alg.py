"""Algebraic value numbering over the compiler's intermediate representation.

Every floating point value of a kernel is numbered by its rational normal form over the kernel's inputs, and carries the
formal derivative of that normal form along one symbolic direction (a translation, rotation or change of units of all the
inputs, or an arbitrary variation of them).  Normal forms are stored as fingerprints: residues in a prime field, under
several independent assignments ("lanes") of residues to the inputs, so that equal normal forms always have equal numbers
and different ones collide with probability about 2^-60 per lane (Gulwani and Necula, "Discovering affine equalities using
random interpretation" and "Global value numbering using random interpretation", POPL 2003/2004).  Joins are gated: in a
lane every condition has one truth value, and a join takes the value that belongs to it; loops that the compiler did not
unroll and values from unmodelled operations become opaque symbols.  Roots, sines and cosines obey their defining
equations.  Nothing is executed.
"""
import bisect
import hashlib
import math
from fractions import Fraction as Fr
import common
from grade import Interp, Obj, BOT, TOP, ZERO

P = 2305843009213682039      # = 11 mod 12, and 2, 3, 5, 7, 11, 13 are squares
HALF = (P - 1) // 2
INV2 = (P + 1) // 2
CBRT = pow(3, -1, P - 1)
FL = ("double", "float")


def H(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=16).digest(), "little") % P


def chi(x):
    """sign character: 1 for squares, -1 otherwise, 0 for 0"""
    if x == 0:
        return 0
    return 1 if pow(x, HALF, P) == 1 else -1


PI = next(x for x in (H("pi", k) for k in range(99)) if chi(x) == 1)      # a transcendental, positive
_R2, _R3 = [pow(k * pow(4, -1, P), (P + 1) // 4, P) for k in (2, 3)]
_ANG = {}
for _k, _c, _s in ((0, 1, 0), (30, _R3, INV2), (45, _R2, _R2), (60, INV2, _R3), (90, 0, 1)):
    for _q, (_x, _y) in enumerate(((_c, _s), (-_s, _c), (-_c, -_s), (_s, -_c))):
        for _t in (0, 360, -360):
            _ANG[(_k + 90 * _q + _t) * pow(180, -1, P) * PI % P] = (_x % P, _y % P)
_TURN = [(k * INV2 * PI % P, k % 4) for k in (1, 2, 3, 4, 8, -1, -2, -3, -4, -8)]
_crat = {}
_seen = []


def crat(x):
    """the number a floating point constant stands for"""
    r = _crat.get(x)
    if r is None:
        r = _crat[x] = _rat(x)
    return r


def _rat(x):
    if x < 0:
        return (P - _rat(-x)) % P if x > float("-inf") else H("const", repr(x))
    if x != x or x in (float("inf"), float("-inf")):
        return H("const", repr(x))
    f = Fr(x)
    if abs(x) < 1e-14 and len(repr(x)) > 16:       # a rounding error of folded constants
        return 0
    for den, tol in ((64, 2e-6), (100000, 1e-12)):
        q = f.limit_denominator(den)
        if q != 0 and abs(q - f) <= tol * abs(f):
            return q.numerator * pow(q.denominator, -1, P) % P
    pi = (f / Fr(math.pi)).limit_denominator(360)
    if pi != 0 and abs(pi * Fr(math.pi) - f) <= 2e-16 * abs(f):
        return pi.numerator * pow(pi.denominator, -1, P) * PI % P
    s = (f * f).limit_denominator(100)
    if s != 0 and abs(s - f * f) <= 1e-11 * abs(f * f):
        v = s.numerator * pow(s.denominator, -1, P) % P
        if chi(v) == 1:
            r = pow(v, (P + 1) // 4, P)
            return r if x > 0 else P - r
    for n in (24, 40, 72, 200, 432, 720, 1200, 3600):
        for d in (3, 5, 15, 2):        # (a + b sqrt(d)) / n, as they come from quadrature points
            w = math.sqrt(d)
            for k in range(1, 2 * n):
                for b in (k, -k):
                    a = x * n - b * w
                    if abs(a - round(a)) <= 4e-14 * n * max(abs(x), 1):
                        return (round(a) + b * pow(d, (P + 1) // 4, P)) * pow(n, -1, P) % P
    # equal up to the last bits: the same number computed in two ways
    k = bisect.bisect_left(_seen, x)
    for y in _seen[max(k - 1, 0):k + 1]:
        if abs(x - y) <= 3e-15 * abs(x):
            x = y
            break
    else:
        _seen.insert(k, x)
    q = Fr(repr(x))
    return q.numerator * pow(q.denominator, -1, P) % P


class Alg(Interp):
    def __init__(self, fn, globs, args, report, seed, L):
        Interp.__init__(self, fn, globs, args, report)
        self.seed, self.L = seed, L
        self.Z = (0,) * L
        self.N = (None,) * L
        self.bad = [None] * L
        self.ang = [dict() for _ in range(L)]
        self.acos = [dict() for _ in range(L)]
        self.wid = set()
        self.faults = set()
        self.opaque = [0] * L
        self.degen = [None] * L
        self.nodegen = False
        self.last = {}
        self.cmps = {}
        self.konst = {}
        self.inv = {}

    # ------------------------------------------------------------------ atoms and constants
    def atom(self, key, opaque=True):
        """a value nothing is known about"""
        if opaque:
            for l in range(self.L):
                if self.lane[l]:
                    self.opaque[l] += 1
        return ("a", tuple(H(self.seed, l, key) if self.lane[l] else None for l in range(self.L)), self.N)

    def lift(self, v):
        t = v[0]
        if t == "a":
            return v
        if t == "zero":
            return ("a", self.Z, self.Z)
        if t == "c" and v[1] is not None:
            r = self.konst.get(v[1])
            if r is None:
                r = self.konst[v[1]] = ("a", (crat(v[1]),) * self.L, self.Z)
            return r
        if t == "bot":
            return ("a", self.N, self.N)
        if t == "B":
            return ("a", tuple(None if x is None else int(x) for x in v[1]), self.Z)
        return self.atom(("op", self.cur.get("id"), v[0] if v[0] != "p" else ""))

    def fail(self, l, why):
        if self.bad[l] is None and self.lane[l]:
            self.bad[l] = why

    # ------------------------------------------------------------------ arithmetic
    def add(self, a, b, neg=False):
        if a[0] == "v" or b[0] == "v":
            return self.vecop(a, b, lambda x, y: self.add(x, y, neg))
        self.stats["arith"] += 1
        (_, p, dp), (_, q, dq) = self.lift(a), self.lift(b)
        if neg:
            try:
                return ("a", tuple([(x - y) % P for x, y in zip(p, q)]), tuple([(x - y) % P for x, y in zip(dp, dq)]))
            except TypeError:
                return ("a", tuple([None if x is None or y is None else (x - y) % P for x, y in zip(p, q)]),
                        tuple([None if x is None or y is None else (x - y) % P for x, y in zip(dp, dq)]))
        try:
            return ("a", tuple([(x + y) % P for x, y in zip(p, q)]), tuple([(x + y) % P for x, y in zip(dp, dq)]))
        except TypeError:
            return ("a", tuple([None if x is None or y is None else (x + y) % P for x, y in zip(p, q)]),
                    tuple([None if x is None or y is None else (x + y) % P for x, y in zip(dp, dq)]))

    def neg(self, a):
        return self.add(ZERO, a, True)

    def vecop(self, a, b, f):
        if a[0] == "v" and b[0] == "v" and len(a[1]) == len(b[1]):
            return ("v", tuple(f(x, y) for x, y in zip(a[1], b[1])))
        n = len(a[1]) if a[0] == "v" else len(b[1])
        return ("v", tuple(self.atom(("vec", self.cur.get("id"), i)) for i in range(n)))

    def mul(self, a, b, div=False):
        if a[0] == "v" or b[0] == "v":
            return self.vecop(a, b, lambda x, y: self.mul(x, y, div))
        self.stats["arith"] += 1
        if a[0] == "zero" and not div or b[0] == "zero" and not div:
            return ZERO
        x, y = self.lift(a), self.lift(b)
        if div:
            y = self.recip(y)
        (_, p, dp), (_, q, dq) = x, y
        try:
            return ("a", tuple([x * y % P for x, y in zip(p, q)]), tuple([(x * dy + y * dx) % P for x, y, dx, dy in zip(p, q, dp, dq)]))
        except TypeError:
            return ("a", tuple([0 if x == 0 or y == 0 else None if x is None or y is None else x * y % P for x, y in zip(p, q)]),
                    tuple([0 if (x == 0 and dx == 0) or (y == 0 and dy == 0) else None if None in (x, y, dx, dy) else (x * dy + y * dx) % P for x, y, dx, dy in zip(p, q, dp, dq)]))

    def recip(self, y):
        v, d = [], []
        for l in range(self.L):
            q, dq = y[1][l], y[2][l]
            if q is None:
                v.append(None); d.append(None); continue
            if q == 0:
                if self.bad[l] is None and self.lane[l]:
                    self.faults.add(tuple(self.cur.get("loc") or ()))
                self.fail(l, "division by zero")
                v.append(None); d.append(None); continue
            r = self.inv.get(q)
            if r is None:
                r = self.inv[q] = pow(q, -1, P)
            v.append(r)
            d.append(None if dq is None else -dq * r * r % P)
        return ("a", tuple(v), tuple(d))

    def each(self, a, f):
        """apply f(lane, value, derivative) -> (value, derivative)"""
        a = self.lift(a)
        v, d = [], []
        for l in range(self.L):
            if a[1][l] is None:
                v.append(None); d.append(None); continue
            x, y = f(l, a[1][l], a[2][l])
            v.append(x); d.append(y)
        return ("a", tuple(v), tuple(d))

    def sqrt1(self, l, x, dx):
        if x == 0:
            return 0, (0 if dx == 0 else None)
        if chi(x) != 1:
            self.fail(l, "root")
            return H(self.seed, l, "root", x), None
        r = pow(x, (P + 1) // 4, P)
        return r, None if dx is None else dx * INV2 * pow(r, -1, P) % P

    def power(self, a, k, what=""):
        a = self.lift(a)
        if k.denominator == 1:
            n = int(k)

            def f(l, x, dx):
                if n == 0:
                    return 1, 0
                if x == 0 and n < 0:
                    self.fail(l, "division by zero")
                    return None, None
                return pow(x, n, P), None if dx is None else n * pow(x, n - 1, P) * dx % P if n != 1 else dx
            return self.each(a, f)
        if k == Fr(1, 2):
            return self.each(a, self.sqrt1)
        if k.denominator == 2:
            return self.power(self.power(a, Fr(1, 2)), Fr(k.numerator))
        if k.denominator == 3:
            def f(l, x, dx):
                if x == 0:
                    return 0, (0 if dx == 0 else None)
                r = pow(x, CBRT, P)
                return r, None if dx is None else dx * pow(3 * r * r % P, -1, P) % P
            r = self.each(a, f)
            return r if k.numerator == 1 else self.power(r, Fr(k.numerator))
        kk = k.numerator * pow(k.denominator, -1, P) % P

        def f(l, x, dx):
            if x == 0:
                return 0, None
            v = H(self.seed, l, "pow", x, str(k))
            return v, None if dx is None else kk * v * pow(x, -1, P) * dx % P
        return self.each(a, f)

    def fabs(self, a):
        if a[0] == "v":
            return ("v", tuple(self.fabs(x) for x in a[1]))

        def f(l, x, dx):
            s = chi(x)
            return (x, dx) if s > 0 else (P - x, None if dx is None else -dx % P) if s < 0 else (0, 0 if dx == 0 else None)
        return self.each(a, f)

    def lanesel(self, c, a, b):
        """per lane: a where c is true, b where it is false; c None -> must agree"""
        if a[0] == "v" and b[0] == "v":
            return ("v", tuple(self.lanesel(c, x, y) for x, y in zip(a[1], b[1])))
        if a[0] == "B" or b[0] == "B":
            A, B = self.bools(a), self.bools(b)
            return ("B", tuple(x if k else y if k is not None else (x if x == y else None) for k, x, y in zip(c, A, B)))
        if a[0] in ("i", "p", "agg") or b[0] in ("i", "p", "agg"):
            if a != b and any(self.lane):
                ks = {k for k, n in zip(c, self.lane) if n}
                if len(ks) == 1 and None not in ks:
                    return a if True in ks else b
            return a if a == b else Interp.join(self, a, b, False)
        if (a[0] == "top" and b[0] == "top"):
            return TOP
        a, b = self.lift(a), self.lift(b)
        v, d = [], []
        for l in range(self.L):
            k = c[l]
            if k is None:
                if a[1][l] == b[1][l]:
                    v.append(a[1][l]); d.append(a[2][l] if a[2][l] == b[2][l] else None)
                elif a[1][l] is None or b[1][l] is None:
                    s = b if a[1][l] is None else a
                    v.append(s[1][l]); d.append(s[2][l])
                elif not self.lane[l]:
                    v.append(None); d.append(None)
                else:
                    self.opaque[l] += 1
                    v.append(H(self.seed, l, "sel", self.cur.get("id"), a[1][l], b[1][l])); d.append(a[2][l] if a[2][l] == b[2][l] else None)
            else:
                s = a if k else b
                v.append(s[1][l]); d.append(s[2][l])
        return ("a", tuple(v), tuple(d))

    def minmax(self, a, b):
        return self.minmax2(a, b, True)

    def minmax2(self, a, b, mn):
        a, b = self.lift(a), self.lift(b)
        c = []
        for x, y in zip(a[1], b[1]):
            c.append(None if x is None or y is None else (chi((x - y) % P) < 0) == mn or x == y)
        return self.lanesel(c, a, b)

    def join(self, a, b, report=False, what=""):
        if a == b:
            return a
        if a[0] == "bot":
            return b
        if b[0] == "bot":
            return a
        num = ("a", "c", "zero")
        if a[0] in num or b[0] in num:
            if (a[0] in num or a[0] == "top") and (b[0] in num or b[0] == "top"):
                return self.lanesel(self.N, a, b)
            return TOP
        if a[0] == "v" and b[0] == "v" and len(a[1]) == len(b[1]):
            return ("v", tuple(self.join(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == "B" and b[0] == "B":
            return self.lanesel(self.N, a, b)
        return Interp.join(self, a, b, False)

    def merge(self, a, b, report=False, what=""):
        return self.join(a, b)

    def still(self, a, what):
        return None

    def pure(self, a, what):
        return None

    def bools(self, v):
        if v[0] == "B":
            return v[1]
        if v[0] == "i":
            return (bool(v[1] & 1),) * self.L
        if v[0] == "bot":
            return self.N
        return self.N

    # ------------------------------------------------------------------ trigonometry: sin, cos and their multiples obey the addition law for doubling
    def angsum(self, l, a, n):
        D = self.ang[l]
        for e in list(self.acos[l]):
            for g in (1, -1):
                b = (a - g * e) % P
                t = D[b] if b in D else ((D[P - b][0], (P - D[P - b][1]) % P) if P - b in D else (self.angsum(l, b, n - 1) if n > 2 else None))
                if t is not None:
                    c, s = D[e][0], g * D[e][1] % P
                    return (c * t[0] - s * t[1]) % P, (c * t[1] + s * t[0]) % P
        return None

    def trig(self, l, a):
        D = self.ang[l]
        if a in D:
            return D[a]
        if P - a in D:
            c, s = D[P - a]
            return c, (P - s) % P
        if a in _ANG:
            return _ANG[a]
        for t, k in _TURN:
            b = (a - t) % P
            if b in D or P - b in D:
                c, s = D[b] if b in D else (D[P - b][0], P - D[P - b][1])
                for _ in range(k):
                    c, s = (P - s) % P, c
                return c, s % P
        for m, sg in ((a, 1), (P - a, -1)):
            # half of an arccosine
            x = self.acos[l].get(m * 2 % P)
            if x is not None:
                c, s = (1 + x) * INV2 % P, (1 - x) * INV2 % P
                if chi(c) == 1 and chi(s) == 1:
                    c, s = pow(c, (P + 1) // 4, P), pow(s, (P + 1) // 4, P)
                    D[m] = (c, s)
                    return c, s * sg % P
                self.fail(l, "root")
        # sums of angles that inverse functions returned
        K = self.acos[l]
        if 1 < len(K) < 24:
            t = self.angsum(l, a, 3)
            if t is not None:
                D[a] = t
                return t
        # canonical up to sign and factors of two
        q = a
        for k in range(40):
            if q in self.base[l] or P - q in self.base[l]:
                break
            q = q * INV2 % P
        else:
            q = a * pow(INV2, 3, P) % P
            self.base[l].add(q)
            sg = chi(q)
            t = H(self.seed, l, "angle", q if sg > 0 else P - q)
            t = t if sg > 0 else P - t
            i = pow(1 + t * t, -1, P)
            D[q] = ((1 - t * t) * i % P, 2 * t * i % P)
        if q not in D:
            q = P - q
        c, s = D[q]
        x = q
        for k in range(45):
            D[x] = (c, s)
            if x == a or P - x == a:
                break
            c, s = (c * c - s * s) % P, 2 * c * s % P
            x = 2 * x % P
        return self.trig(l, a) if a in D or P - a in D else (H(self.seed, l, "cos", a), H(self.seed, l, "sin", a))

    def math(self, n, A):
        n = n.lstrip("@")
        if n.endswith("f") and n[:-1] in ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "fabs", "floor", "ceil", "cbrt", "fmin", "fmax", "fmod", "hypot", "copysign"):
            n = n[:-1]
        if n == "fabs":
            return self.fabs(A[0])
        if n == "sqrt":
            return self.power(A[0], Fr(1, 2))
        if n == "cbrt":
            return self.power(A[0], Fr(1, 3))
        if n == "sin":
            def f(l, x, d):
                c, s = self.trig(l, x)
                return s, None if d is None else c * d % P
            return self.each(A[0], f)
        if n == "cos":
            def f(l, x, d):
                c, s = self.trig(l, x)
                return c, None if d is None else -s * d % P
            return self.each(A[0], f)
        if n == "tan":
            def f(l, x, d):
                c, s = self.trig(l, x)
                if c == 0:
                    self.fail(l, "division by zero"); return None, None
                i = pow(c, -1, P)
                return s * i % P, None if d is None else d * i * i % P
            return self.each(A[0], f)
        if n in ("exp", "exp2"):
            def f(l, x, d):
                if x == 0:
                    return 1, d
                sg = chi(x)
                e = H(self.seed, l, n, x if sg > 0 else P - x)
                e = e * e % P
                e = e if sg > 0 else pow(e, -1, P)
                return e, None if d is None else e * d % P if n == "exp" else (0 if d == 0 else None)
            return self.each(A[0], f)
        if n == "log":
            def f(l, x, d):
                if x == 0:
                    self.fail(l, "log of zero")
                    self.faults.add(tuple(self.cur.get("loc") or ()))
                    return None, None
                i = pow(x, -1, P)
                e = H(self.seed, l, "log", min(x, i))
                return (e if x <= i else P - e), None if d is None else d * i % P
            return self.each(A[0], f)
        if n in ("acos", "asin"):
            def f(l, x, d):
                v = H(self.seed, l, n, x)
                w = (1 - x * x) % P
                if chi(w) != 1:
                    self.fail(l, "root"); return v, None
                r = pow(w, (P + 1) // 4, P)
                if n == "acos":
                    self.ang[l][v] = (x, r); self.acos[l][v] = x
                else:
                    sg = chi(x)
                    v = H(self.seed, l, n, x if sg > 0 else P - x)
                    self.ang[l][v] = (r, x if sg > 0 else (P - x) % P)
                    self.acos[l][v] = r
                    v = v if sg > 0 else P - v
                return v, None if d is None else (-d if n == "acos" else d) * pow(r, -1, P) % P
            return self.each(A[0], f)
        if n in ("atan2", "atan"):
            y = self.lift(A[0]); x = self.lift(A[1]) if n == "atan2" else self.lift(("c", 1.0))
            v, d = [], []
            for l in range(self.L):
                a, b, da, db = y[1][l], x[1][l], y[2][l], x[2][l]
                if a is None or b is None:
                    v.append(None); d.append(None); continue
                w = (a * a + b * b) % P
                if w == 0 or chi(w) != 1:
                    self.fail(l, "root"); v.append(H(self.seed, l, n, a, b)); d.append(None); continue
                r = pow(pow(w, (P + 1) // 4, P), -1, P)
                c, s = b * r % P, a * r % P
                sg = 1 if chi(s) >= 0 else -1
                e = H(self.seed, l, "atan2", c, s * sg % P)
                self.ang[l][e] = (c, s * sg % P)
                self.acos[l][e] = c
                v.append(e if sg > 0 else P - e)
                d.append(None if da is None or db is None else (b * da - a * db) * pow(w, -1, P) % P)
            return ("a", tuple(v), tuple(d))
        if n == "hypot":
            return self.power(self.add(self.mul(A[0], A[0]), self.mul(A[1], A[1])), Fr(1, 2))
        if n == "pow":
            if A[1][0] == "c" and A[1][1] is not None:
                f = Fr(A[1][1]).limit_denominator(12)
                if abs(float(f) - A[1][1]) < 1e-9:
                    return self.power(A[0], f)
            if A[1][0] == "zero":
                return ("c", 1.0)
            return self.atom(("pow", self.cur.get("id")))
        if n == "powi":
            return self.power(A[0], Fr(A[1][1])) if A[1][0] == "i" else self.atom(("powi", self.cur.get("id")))
        if n in ("fmuladd", "fma"):
            return self.add(self.mul(A[0], A[1]), A[2])
        if n in ("minnum", "fmin", "minimum"):
            return self.minmax2(A[0], A[1], True)
        if n in ("maxnum", "fmax", "maximum"):
            return self.minmax2(A[0], A[1], False)
        if n == "copysign":
            x, y = self.fabs(A[0]), self.lift(A[1])
            c = [None if t is None else chi(t) >= 0 for t in y[1]]
            return self.lanesel(c, x, self.neg(x))
        if n in ("floor", "ceil", "round", "trunc", "rint", "nearbyint", "tgamma"):
            def f(l, x, d):
                return H(self.seed, l, n, x), (0 if d == 0 else None)
            return self.each(A[0], f)
        if n == "fmod":
            return self.atom((n, self.cur.get("id")))
        return None

    def havoc(self, st, o):
        if o.kind in ("global", "in"):
            return
        self.varstore.add(o)
        for k in [k for k in st if k[0] is o]:
            st[k] = (self.atom(("havoc", self.cur.get("id"), k[1])), False)

    # ------------------------------------------------------------------ transfer
    def call(self, ins, st):
        r = Interp.call(self, ins, st)
        if ins["t"] in FL and r[0] in ("top", "g"):
            r = self.atom(("call", ins["id"]))
        return r

    def load(self, st, p, t, n):
        r = Interp.load(self, st, p, t, n)
        if t in FL and r[0] == "top":
            # a cell nothing is known about: same number while the place is unambiguous
            if p[0] == "p" and len(p[1]) == 1:
                (o, off), = p[1]
                if off is not None and o.kind in ("in",) and (o, off) not in st:
                    r = self.atom(("mem", o.name, off))
                    st[(o, off)] = (r, False)
                    return r
            r = self.atom(("load", self.cur.get("id")))
        return r

    FILL = 4

    def store(self, st, p, v, n):
        if p[0] == "top" and self.generic:
            # could change anything
            self.opaque = [k + 1 if on else k for k, on in zip(self.opaque, self.lane)]
        if p[0] == "p":
            for o, off in p[1]:
                self.last[(o, off)] = self.cur.get("loc")
        Interp.store(self, st, p, v, n)

    def step(self, ins, st, preds):
        op = ins["op"]
        self.cur = ins
        if op == "select":
            self.stats["instructions"] += 1
            c, a, b = ins["args"]
            x, y, k = self.val(a), self.val(b), self.val(c)
            if k[0] == "i":
                return x if k[1] & 1 else y
            if k[0] == "B":
                return self.lanesel(k[1], x, y)
            if k[0] == "top":
                k = self.cond(("sel", ins["id"], repr(c)))
                return self.lanesel(k, x, y)
            return self.lanesel(self.N, x, y)
        if op == "fcmp":
            self.stats["instructions"] += 1
            self.stats["compares"] += 1
            return self.fcmp(ins)
        if op == "icmp" and any("B" == self.val(a)[0] for a in ins["args"]):
            A = [self.bools(self.val(a)) for a in ins["args"]]
            if ins.get("pred") in ("eq", "ne"):
                e = ins["pred"] == "eq"
                return ("B", tuple(None if x is None or y is None else (x == y) == e for x, y in zip(*A)))
        if op == "icmp":
            x, y = [self.val(a) for a in ins["args"]]
            if x[0] == "i" and y[0] == "i":
                f = {"eq": lambda u, v: u == v, "ne": lambda u, v: u != v, "slt": lambda u, v: u < v, "sle": lambda u, v: u <= v, "sgt": lambda u, v: u > v, "sge": lambda u, v: u >= v}
                p = ins.get("pred")
                if p in f or x[1] >= 0 and y[1] >= 0 and "s" + str(p)[1:] in f:
                    return ("i", int(f.get(p, f.get("s" + str(p)[1:]))(x[1], y[1])))
        if op == "icmp" and ins.get("pred") in ("eq", "ne", "ult", "ule", "ugt", "uge"):
            x, y = [self.val(a) for a in ins["args"]]
            if x[0] == "p" and y[0] == "p" and x[1] and y[1]:
                eq = None
                if len(x[1]) == len(y[1]) == 1:
                    (o1, f1), (o2, f2) = next(iter(x[1])), next(iter(y[1]))
                    if o1 is o2 and f1 is not None and f2 is not None:
                        p = ins["pred"]
                        return ("i", int({"eq": f1 == f2, "ne": f1 != f2, "ult": f1 < f2, "ule": f1 <= f2, "ugt": f1 > f2, "uge": f1 >= f2}[p]))
                if not {o for o, f in x[1]} & {o for o, f in y[1]} and ins["pred"] in ("eq", "ne"):
                    return ("i", int(ins["pred"] == "ne"))
        if op in ("lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            x, y = [self.val(a) for a in ins["args"]]
            if x[0] == "i" and y[0] == "i" and x[1] >= 0 and y[1] >= 0 and (op in ("lshr", "ashr") or y[1] > 0):
                return ("i", x[1] >> y[1] if op in ("lshr", "ashr") else x[1] // y[1] if op[1:] == "div" else x[1] % y[1])
        if op == "call" and str(ins.get("callee", "")).startswith(("llvm.smin.", "llvm.smax.", "llvm.umin.", "llvm.umax.")):
            x, y = [self.val(a) for a in ins["args"][:2]]
            if x[0] == "i" and y[0] == "i" and (ins["callee"][5] == "s" or x[1] >= 0 and y[1] >= 0):
                return ("i", (min if ins["callee"][6:9] == "min" else max)(x[1], y[1]))
        if op == "ptrtoint":
            x = self.val(ins["args"][0])
            if x[0] == "p":
                return x
        if op == "sub":
            x, y = [self.val(a) for a in ins["args"]]
            if x[0] == "p" and y[0] == "p" and len(x[1]) == len(y[1]) == 1:
                (o1, f1), (o2, f2) = next(iter(x[1])), next(iter(y[1]))
                if o1 is o2 and f1 is not None and f2 is not None:
                    return ("i", f1 - f2)
        if op in ("and", "or", "xor") and ins["t"] == "i1":
            self.stats["instructions"] += 1
            V = [self.val(a) for a in ins["args"]]
            if any(v[0] == "B" for v in V):
                A = [self.cond(("b", ins["id"], i)) if v[0] == "top" else self.bools(v) for i, v in enumerate(V)]
                f = {"and": lambda x, y: False if x is False or y is False else None if x is None or y is None else True,
                     "or": lambda x, y: True if x is True or y is True else None if x is None or y is None else False,
                     "xor": lambda x, y: None if x is None or y is None else x != y}[op]
                return ("B", tuple(f(x, y) for x, y in zip(*A)))
        if op in ("zext", "sext", "trunc", "freeze"):
            v = self.val(ins["args"][0])
            if v[0] == "B" and self.L == 1 and v[1][0] is not None:
                return ("i", (-1 if op == "sext" else 1) if v[1][0] else 0)
            if v[0] == "B":
                return v
        if op in ("sitofp", "uitofp"):
            v = self.val(ins["args"][0])
            if v[0] == "B":
                s = self.lift(v)
                return s if op == "uitofp" else self.neg(s)
            if v[0] == "i":
                return ("c", float(v[1])) if v[1] else ZERO
            return self.atom(("int", ins["args"][0].get("i", ins["args"][0].get("a", ins["id"]))))
        if op == "br" or op == "switch":
            return None
        r = Interp.step(self, ins, st, preds)
        if r is not None and r[0] in ("top", "g") and ins.get("t") in FL:
            r = self.atom(("op", ins["id"]))
        return r

    def cond(self, key):
        if self.generic:
            self.opaque = [n + 1 if on else n for n, on in zip(self.opaque, self.lane)]
        return tuple(bool(H(self.seed, l, "cond", key) & 1) if self.lane[l] else None for l in range(self.L))

    def fcmp(self, ins):
        a, b = [self.val(x) for x in ins["args"]]
        if a[0] == "v" or b[0] == "v":
            return TOP
        a, b = self.lift(a), self.lift(b)
        pr = ins["pred"]
        out = []
        k = pr[1:] if pr[0] in "ou" and len(pr) == 3 else pr
        if self.generic:
            # away from degenerate inputs a quantity is not below a tolerance
            for i in (0, 1):
                c = ins["args"][i].get("f")
                if c is not None and 0 < float(c) < 2e-5 and k in ("gt", "ge", "lt", "le"):
                    t = (k in ("gt", "ge")) == (i == 1)
                    o = (b if i == 0 else a)[1]
                    return ("B", tuple(None if not x else t != (y == 0) for x, y in zip(self.lane, o)))
                if c is not None and abs(float(c)) < 100 and round(float(c)) != 0 and 0 < abs(float(c) - round(float(c))) < 2e-3 and k in ("gt", "ge", "lt", "le"):
                    # a bound with a small slack: the bound itself decides, and is on the wide side
                    n, up = round(float(c)), float(c) > round(float(c))
                    t = (k in ("gt", "ge")) == (i == 1)       # asks: is it above
                    o = (b if i == 0 else a)[1]
                    ss = [None if y is None else chi((y - n) % P) for y in o]
                    return ("B", tuple(None if y is None else t == (y > 0 or (y == 0 and not up)) for y in ss))
                if c is not None and -2e-3 < float(c) < 0 and k in ("gt", "ge", "lt", "le"):
                    # a small slack below zero: the sign decides, and zero is on the side of the positive values
                    t = (k in ("gt", "ge")) == (i == 1)
                    o = (b if i == 0 else a)[1]
                    return ("B", tuple(None if y is None else t == (chi(y) >= 0) for y in o))
        # a tolerance, when degenerate inputs are followed too: one quantity of a lane is below its tolerances, no other
        tol = None
        if not self.generic and k in ("gt", "ge", "lt", "le"):
            for i in (0, 1):
                c = ins["args"][i].get("f")
                if c is not None and 0 < float(c) < 2e-5:
                    tol = (k in ("gt", "ge")) == (i == 1)
                    other = (b if i == 0 else a)[1]
        rec = []
        for l in range(self.L):
            x, y = a[1][l], b[1][l]
            if x is None or y is None:
                out.append(None); rec.append(None); continue
            d = (x - y) % P
            dd = None if a[2][l] is None or b[2][l] is None else (a[2][l] - b[2][l]) % P
            rec.append((d, dd))
            if tol is not None and self.lane[l]:
                q = other[l] * other[l] % P
                if not self.nodegen and self.degen[l] is None and H(self.seed, l, "degenerate", q) % 8 == 0:
                    self.degen[l] = q
                out.append(tol != (q == 0 or self.degen[l] == q))
                continue
            s = chi(d)
            out.append({"gt": s > 0, "ge": s >= 0, "lt": s < 0, "le": s <= 0, "eq": s == 0, "ne": s != 0, "ord": True, "uno": False, "true": True, "false": False}.get(k))
        self.cmps[ins["id"]] = (ins, rec)
        return ("B", tuple(out))

    # ------------------------------------------------------------------ fixpoint with per-lane activity of the edges
    def run(self):
        B = self.fn["blocks"]
        L = self.L
        self.insmap = {i["id"]: i for b in B for i in b}
        self.alloc, self.ssa, self.argv = {}, {}, []
        self.base = [set() for _ in range(L)]
        init = {}
        self.lane = (True,) * L
        for k, a in enumerate(self.args):
            if isinstance(a, Obj):
                self.argv.append(("p", frozenset([(a, 0)])))
                for off, v in a.cells.items():
                    init[(a, off)] = (v, False)
            else:
                self.argv.append(a)
        succ = [b[-1].get("succ", []) if b else [] for b in B]
        pred = [[] for _ in B]
        for i, s in enumerate(succ):
            for j in s:
                if i not in pred[j]:
                    pred[j].append(i)
        order, seen, stack = [], {0}, [(0, iter(succ[0]))]
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m); stack.append((m, iter(succ[m]))); break
            else:
                order.append(n); stack.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        inloop = set()
        for h in order:
            for u in pred[h]:
                if u in pos and pos[u] >= pos[h]:
                    body, w = {h}, [u]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x); w += [p for p in pred[x] if p in pos]
                    inloop |= body
        self.loops = len(inloop)
        out, act = {}, {}
        FULL, NONE = (True,) * L, (False,) * L
        rounds = 1 if not inloop else 8
        for rnd in range(rounds):
            changed = False
            self.rets, self.exit_states = [], []
            for b in order:
                done = [p for p in pred[b] if p in out]
                if b == 0 and not done:
                    lanes = FULL; st = dict(init)
                else:
                    if len(done) == 1 and done[0] in out:
                        lanes = act[(done[0], b)]
                        st = dict(out[done[0]])
                    elif done:
                        lanes = tuple(any(act[(p, b)][l] for p in done) for l in range(L))
                        st = self.joinlanes(b, done, out, act)
                    else:
                        continue
                if not any(lanes) and not inloop:
                    out.pop(b, None)
                    # nothing of this block belongs to any lane
                    for s in succ[b]:
                        act[(b, s)] = NONE
                    out[b] = {}
                    continue
                self.lane = lanes
                phis = []
                for ins in B[b]:
                    self.cur = ins
                    if ins["op"] == "phi":
                        self.stats["instructions"] += 1
                        phis.append((ins["id"], self.phi(ins, b, done, act)))
                        continue
                    if phis:
                        for i, r in phis:
                            if self.ssa.get(i) != r:
                                changed = True
                            self.ssa[i] = r
                        phis = []
                    r = self.step(ins, st, done)
                    if r is not None:
                        if self.ssa.get(ins["id"]) != r:
                            changed = True
                        self.ssa[ins["id"]] = r
                    if ins["op"] == "ret":
                        v = self.rets.pop() if ins["args"] else None
                        if v:
                            self.rets.append((v[0], lanes))
                        s, i = self.exit_states.pop()
                        self.exit_states.append((s, lanes))
                for i, r in phis:
                    self.ssa[i] = r
                t = B[b][-1] if B[b] else {}
                ss = succ[b]
                old = [act.get((b, s)) for s in ss]
                if len(set(ss)) <= 1 or (b in inloop):
                    for s in ss:
                        act[(b, s)] = lanes
                elif t["op"] == "br":
                    c = self.val(t["args"][0])
                    k = self.bools(c) if c[0] in ("B", "i") else self.cond(("br", t["args"][0].get("i", b)))
                    act[(b, ss[0])] = tuple(n and x is not False for n, x in zip(lanes, k))
                    act[(b, ss[1])] = tuple(n and x is not True for n, x in zip(lanes, k))
                else:
                    c = self.val(t["args"][0]) if t.get("args") and t["op"] == "switch" else TOP
                    if t["op"] != "switch":
                        pick = [0] * L          # a call that does not throw
                    elif c[0] == "i" and t.get("cases") is not None:
                        pick = [t["cases"].index(c[1]) + 1 if c[1] in t["cases"] else 0] * L
                    else:
                        if self.generic:
                            self.opaque = [k + 1 if on else k for k, on in zip(self.opaque, lanes)]
                        pick = [H(self.seed, l, "sw", b) % len(ss) for l in range(L)]
                    for j, s in enumerate(ss):
                        act[(b, s)] = NONE
                    for j, s in enumerate(ss):
                        act[(b, s)] = tuple(x or (n and k == j) for x, n, k in zip(act[(b, s)], lanes, pick))
                if [act.get((b, s)) for s in ss] != old:
                    changed = True
                if out.get(b) != st:
                    changed = True
                out[b] = st
            if not changed:
                break
        else:
            if rounds > 1:
                self.nofix = True
        return self

    nofix = False
    generic = False

    def pick(self, key, items):
        """items: [(value, active lanes)] -> the value of each lane"""
        vs = [v for v, a in items if any(a)]
        if not vs:
            return BOT
        if all(v == vs[0] for v in vs):
            return vs[0]
        kinds = {v[0] for v in vs}
        if kinds <= {"a", "c", "zero", "bot"} or (kinds & {"a", "c", "zero"} and kinds <= {"a", "c", "zero", "bot", "top"}):
            its = [(self.lift(v), a) for v, a in items]
            V, D = [], []
            for l in range(self.L):
                c = [(v[1][l], v[2][l]) for v, a in its if a[l] and v[1][l] is not None]
                if not c:
                    V.append(None); D.append(None); continue
                if (key, l) not in self.wid and all(x[0] == c[0][0] for x in c):
                    V.append(c[0][0]); D.append(c[0][1] if all(x[1] == c[0][1] for x in c) else None); continue
                self.wid.add((key, l))
                self.opaque[l] += 1
                V.append(H(self.seed, l, "join", key)); D.append(c[0][1] if all(x[1] == c[0][1] for x in c) else None)
            return ("a", tuple(V), tuple(D))
        if kinds <= {"B", "i", "bot"} and "B" in kinds:
            its = [(self.bools(v), a) for v, a in items]
            V = []
            for l in range(self.L):
                c = {v[l] for v, a in its if a[l]}
                V.append(c.pop() if len(c) == 1 else None)
            return ("B", tuple(V))
        if kinds == {"v"} and len({len(v[1]) for v in vs}) == 1:
            return ("v", tuple(self.pick((key, i), [(v[1][i], a) for v, a in items if v[0] == "v"]) for i in range(len(vs[0][1]))))
        r = BOT
        for v in vs:
            r = Interp.join(self, r, v, False)
        return r

    def oid(self, o):
        if o.kind != "local":
            return 0
        for i, x in self.alloc.items():
            if x is o:
                return i
        return -1

    def phi(self, ins, b, done, act):
        items = []
        for o, p in ins["phi"]:
            if p in done:
                items.append((self.val(o), act[(p, b)]))
        return self.pick(("phi", ins["id"]), items)

    def joinlanes(self, b, done, out, act):
        live = [p for p in done if any(act[(p, b)])]
        if not live:
            return {}
        if len(live) == 1:
            return dict(out[live[0]])
        keys = set()
        for p in live:
            keys |= out[p].keys()
        st = {}
        self.lane = tuple(any(act[(p, b)][l] for p in live) for l in range(self.L))
        self.cur = {"id": ("join", b), "op": "join"}
        for k in keys:
            cs = [out[p].get(k) for p in live]
            c0 = cs[0]
            if c0 is not None and all(c is not None and c[0] is c0[0] for c in cs):
                st[k] = c0; continue
            items = [(c[0] if c is not None else BOT, act[(p, b)]) for c, p in zip(cs, live)]
            st[k] = (self.pick(("cell", b, k[0].name, k[1], self.oid(k[0])), items), any(c is None or c[1] for c in cs))
        return st

    # ------------------------------------------------------------------ results
    def finals(self):
        """-> (cells {(obj, off): value}, return value) per lane"""
        cells = {}
        self.lane = (True,) * self.L
        self.cur = {"id": "exit", "op": "exit"}
        keys = set()
        for st, a in self.exit_states:
            keys |= {k for k in st if k[0].kind == "out"}
        for k in keys:
            cells[k] = self.pick(("exit", k[0].name, k[1]), [(st[k][0] if k in st else BOT, a) for st, a in self.exit_states])
        ret = self.pick(("ret",), self.rets) if self.rets else None
        return cells, ret
