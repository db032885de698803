"""Algebraic laws of kernels, decided by algebraic value numbering (alg.py).

  zero z                      every component of output z has the normal form 0
  eq   h[ijab] = h[jiba]      two outputs (or a permuted output) have the same normal forms; optional factor: = -1 h[..]
  d    g[ia] = h[ijab] p[jb]  the derivative of g along an arbitrary variation of input p is h contracted with the variation;
                              several terms are joined by '+'; 'result' is the returned number
"""
import re, time
import equi
from equi import where, usable, SCHEDULE
from alg import Alg, P, H
from kern import Ty


def parse(law):
    kind, _, t = law.partition(" ")
    if kind == "zero":
        return kind, [(n, "") for n in t.split()], None
    ref = lambda s: (re.match(r"\s*(\w+)", s).group(1), (re.search(r"\[(\w+)\]", s) or [None, ""])[1])
    sides = []
    for side in t.split("="):
        terms = []
        for x in side.split("+"):
            f = x.split()
            c = 1
            if re.fullmatch(r"-?\d+(/\d+)?", f[0]):
                a, _, b = f[0].partition("/")
                c = int(a) * pow(int(b or 1), -1, P) % P
                f = f[1:]
            terms.append((c, [ref(y) for y in f]))
        sides.append(terms)
    return kind, sides[0], sides[1]


def indices(letters, dims):
    """all assignments of the letters"""
    L = sorted(letters)
    out = [{}]
    for a in L:
        out = [dict(o, **{a: i}) for o in out for i in range(dims[a])]
    return out


def flat(ref, asg, shape):
    f = 0
    for a, k in zip(ref[1], shape):
        f = f * k + asg[a]
    return f


def analyse(kernel, fn, globs, law, want=3, budget=15.0):
    kind, lhs, terms = parse(law)
    t0 = time.time()
    shapes = {n: (Ty(t, kernel.mix).shape, d) for d, n, t in kernel.params if t not in ("int", "u")}
    shapes["result"] = ([], ">")
    kernel.vary = {y[0] for c, f in terms for y in f[1:]} if kind == "d" else set()
    dims = {}
    refs = [y for c, f in lhs + terms for y in f] if kind != "zero" else []
    for n, idx in refs:
        if len(idx) != len(shapes[n][0]):
            raise ValueError("%s: index of %s does not fit its shape in %r" % (kernel.name, n, law))
        for a, k in zip(idx, shapes[n][0]):
            if dims.setdefault(a, k) != k:
                raise ValueError("%s: extent of %s in %r" % (kernel.name, a, law))
    ok, bad, poss = {}, {}, set()
    npass = good = nfault = nlane = 0
    fault = set()
    it = None
    single = False
    for ps in range(200):
        if not single and ps >= len(SCHEDULE):
            break
        # a choice of an index depends on the lane: follow the lanes one at a time
        L = 1 if single else SCHEDULE[ps]
        args, outs, _ = equi.build(kernel, fn, ps, L, "vary")
        it = Alg(fn, globs, args, lambda *a: None, ps, L)
        it.generic = True
        it.run()
        npass += 1
        cells, ret = it.finals()
        U = [l for l in usable(it) if it.opaque[l] == 0]
        good += len(U)
        # every feasible lane takes the logarithm of zero or divides by zero
        if set(it.bad) <= {"log of zero", "division by zero", "root"} and not any(it.opaque):
            if it.faults:
                fault |= {where(x) for x in it.faults}
                nlane += sum(x != "root" for x in it.bad)
            nfault += 1
        if not single and not U and any(it.opaque[l] for l in usable(it)):
            single = True
        val = {}
        obj = {}
        for n, o, ty, d in outs:
            val[n] = [it.lift(cells[(o, 8 * i)]) if (o, 8 * i) in cells else None for i in range(ty.n)]
            obj[n] = o
            if d == ">+":
                val[n] = [it.add(v, (o.cells[8 * i]), True) if v is not None else None for i, v in enumerate(val[n])]
        if ret is not None:
            val["result"] = [it.lift(ret)]

        def put(k, good_, n, f):
            if good_:
                ok[k] = ok.get(k, 0) + 1
            else:
                o = obj.get(n)
                bad.setdefault(k, where(it.last.get((o, 8 * f))) if o is not None else "")

        if kind == "zero":
            for n, _ in lhs:
                for f, v in enumerate(val[n]):
                    k = (n, f)
                    poss.add(k)
                    if v is None:
                        continue
                    for l in U:
                        if v[1][l] is not None:
                            put(k, v[1][l] == 0, n, f)
        else:
            n, li = lhs[0][1][0]
            free = set(li) if len(lhs[0][1]) == 1 else {x for x in li if x not in "".join(y[1] for y in lhs[0][1][1:])}

            def total(side, asg, l, der):
                s = 0
                for c, fs in side:
                    for a2 in indices(set("".join(y[1] for y in fs)) - free, dims):
                        a3 = dict(asg, **a2)
                        w = val[fs[0][0]][flat(fs[0], a3, shapes[fs[0][0]][0])]
                        w = None if w is None else w[2 if der else 1][l]
                        if w is None:
                            return None
                        for y in fs[1:]:
                            w = w * H("var", ps, l, y[0], flat(y, a3, shapes[y[0]][0])) % P
                        s += c * w
                return s % P

            for asg in indices(free, dims):
                f = flat(lhs[0][1][0], dict(asg, **{x: 0 for x in li if x not in free}), shapes[n][0])
                k = (n, f)
                poss.add(k)
                for l in U:
                    x, y = total(lhs, asg, l, kind == "d"), total(terms, asg, l, False)
                    if x is not None and y is not None:
                        put(k, x == y, n, f)
        # every comparison splits the lanes: follow enough of them to take every combination of a few of them
        need = 0 if not it.cmps else 30 * 2 ** min(len(it.cmps), 6)
        if good >= need and all(ok.get(k, 0) >= want or k in bad for k in poss):
            break
        if time.time() - t0 > budget or (not single and ps >= 7 and good >= max(24, need)) or (single and (good >= 48 or good >= 6 and time.time() - t0 > 1.5)):
            break
    if good == 0 and nfault == npass and nlane >= 16:
        bad = {k: min(fault) for k in poss or {(lhs[0][0] if kind == "zero" else lhs[0][1][0][0], 0)}}
        poss |= set(bad)
    finds = [("law", "%s[%d]" % k if k[0] != "result" else "result", w) for k, w in sorted(bad.items())]
    return {"total": len(poss), "decided": sum(1 for k in poss if ok.get(k, 0) >= 1 or k in bad), "bad": len(bad), "finds": finds,
            "cmps": 0, "stats": it.stats, "passes": npass, "good": good, "ncmp": len(it.cmps), "loops": it.loops, "nofix": it.nofix}
