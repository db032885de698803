"""C09: quadrature rules integrate exactly the polynomials they are meant for (moment equations on the constant tables)."""
from math import factorial
from fractions import Fraction
from tabs import *

F = Fraction


def simplex_moment(e):
    """integral of x^a y^b.. over the unit simplex divided by its volume"""
    d = len(e)
    n = 1
    for k in e:
        n *= factorial(k)
    return F(n * factorial(d), factorial(d + sum(e)))


def exps(d, k):
    if d == 1:
        yield (k,); return
    for i in range(k + 1):
        for r in exps(d - 1, k - i):
            yield (i,) + r


def run(ctx):
    T = Tables(ctx)
    rules = moments = 0

    def bad(t, what):
        ctx.violation("rule:%s:%s:%s" % (t["name"], t["at"].split(":")[0], what.split(":")[0]), "%s: %s" % (t["name"], what), t["at"])

    def check(t, label, pts, deg, mom, tol):
        nonlocal rules, moments
        rules += 1
        d = len(pts[0]) - 1
        for p in pts:
            if any(x != x or abs(x) > 1 + 1e-9 for x in p[:d]):
                bad(t, "%s: point %s outside the element" % (label, p)); return
        for k in range(deg + 1):
            for e in exps(d, k):
                s = F(0)
                for p in pts:
                    w = F(p[d])
                    for x, n in zip(p, e):
                        w *= F(x) ** n
                    s += w
                moments += 1
                if abs(s - mom(e)) > tol:
                    bad(t, "%s: integral of degree-%d monomial %s is %.12g, exact %.12g" % (label, k, e, float(s), float(mom(e)))); return

    legendre = lambda e: F(0) if e[0] % 2 else F(2, e[0] + 1)
    # 1D Gauss rules: n points, degree 2n-1, slices given by the offset table
    g = [t for t in T.named("kPositionWeight_GaussianQuadrature")]
    off = [t for t in T.named("kNumIntegrationPoint_GaussianQuadrature")]
    ctx.need(g and off, "Gauss tables not found")
    o = off[0]["v"]
    for t in g:
        tol = F(1, 10**6) if "float" in t["targs"] else F(1, 10**13)
        for n in range(1, 8):
            a, b = o[n - 1], o[n]
            if b - a != n or b > len(t["v"]) or a < 0:
                bad(off[0], "order %d: offsets %d..%d do not select %d points" % (n, a, b, n)); continue
            check(t, "%d-point Gauss" % n, t["v"][a:b], 2 * n - 1, legendre, tol)
    # Gauss-Kronrod 15, shares its first 7 points with Gauss 7
    kr = T.named("kPositionWeight_GaussKronrodQuadrature")
    ctx.need(kr, "Kronrod table not found")
    for t in kr:
        tol = F(1, 10**6) if "float" in t["targs"] else F(1, 10**13)
        check(t, "15-point Kronrod", t["v"], 22, legendre, tol)
        for gt in g:
            if gt["targs"] == t["targs"] and [p[0] for p in t["v"][:7]] != [p[0] for p in gt["v"][o[6]:o[7]]]:
                bad(t, "nested points: the first 7 points are not the points of the 7-point Gauss rule")
    # triangle / tetrahedron rules
    tri_deg = {1: 1, 3: 2, 7: 5, 12: 6, 13: 7, 16: 8}
    tet_deg = {1: 1, 4: 2, 5: 3, 16: 4}
    def family(nums, tabs, degs, d, tol):
        by = {}
        for t in tabs:
            by.setdefault(t["at"].split(":")[0], []).append(t)
        for nt in nums:
            f = nt["at"].split(":")[0]
            for t in by.get(f, []):
                if len(t["v"]) != len(nt["v"]):
                    bad(t, "orders: %d rules but %d point counts" % (len(t["v"]), len(nt["v"])))
                for i, n in enumerate(nt["v"][:len(t["v"])]):
                    if n > len(t["v"][i]):
                        bad(nt, "order %d: %d points but only %d rows" % (i, n, len(t["v"][i]))); continue
                    if n not in degs:
                        bad(nt, "order %d: unexpected number of points %d" % (i, n)); continue
                    # decimals of the literals bound the attainable accuracy
                    check(t, "%d-point" % n, [r[:d + 1] for r in t["v"][i][:n]], degs[n], lambda e: simplex_moment(e), F(1, 10**6) if "float" in t["targs"] else tol)
                    if any(x != 0.0 for r in t["v"][i][n:] for x in r):
                        bad(t, "order %d: rows beyond the %d points carry weight" % (i, n))
    def cut(tabs, d): return [t for t in tabs if len(shape(t["v"])) == 3 and shape(t["v"])[2] == d + 1]
    nt, tt = T.named("NIntTriGauss"), cut(T.named("TriGauss"), 2)
    family(nt, tt, tri_deg, 2, F(4, 10**9))
    ntet, tet = T.named("NIntTetGauss"), cut(T.named("TetGauss"), 3)
    family(ntet, tet, tet_deg, 3, F(1, 10**13))
    ctx.need(len(tt) >= 2 and len(nt) >= 2 and tet and ntet, "triangle/tetrahedron rules not found")
    ctx.need(rules >= 20, "only %d rules checked" % rules)
    ctx.cover(explanation="every quadrature table of the library: all monomials up to the rule's degree, in exact rational arithmetic on the table's constants", rules=rules, moments=moments, units=T.units)
