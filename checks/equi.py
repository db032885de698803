"""Invariance of kernels under translations and rotations of the coordinates, and under changes of units, decided by
algebraic value numbering (alg.py): every input carries its derivative along a symbolic motion of the frame, and the derivative
of every result must be the one its declared type prescribes."""
import common
from common import Broken
import alg
from alg import Alg, H, P
from grade import Obj, UN
from kern import Ty

DIMTOK = "vpa"


class Frame:
    """a symbolic infinitesimal change of frame in one lane"""
    def __init__(self, mode, seed, l):
        self.mode = mode
        r = lambda k: H("frame", seed, l, mode, k)
        if mode == "rot":
            w = [r(i) for i in range(3)]
            self.W3 = [[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]]
            t = r(3)
            self.W2 = [[0, -t], [t, 0]]
        elif mode == "trans":
            self.t = [r(i) for i in range(3)]
        else:
            self.s = [r(i) for i in range(len(UN))]


def supported(ty, mode):
    """can the effect of the motion on a value of this type be written down"""
    if mode == "scale":
        return ty.u is not None
    if mode == "trans":
        return True
    return all(k in (2, 3) for t, k in ty.toks if t in "vpab" and t not in ty.mix) and all(t != "y" or t in ty.mix for t, k in ty.toks)


def groups(mix):
    """the components of a mixed index that transform together: [[i, j, k] or [i, j]] (vectors, in order; axial vectors alike)"""
    one, two = {}, {}
    three = any("z" in ax for ax, u in mix)
    for i, (ax, u) in enumerate(mix):
        if len(ax) == 1:
            one.setdefault(ax, []).append(i)
        elif len(ax) == 2 and three:
            two.setdefault(({"x", "y", "z"} - set(ax)).pop(), []).append(i)
    out = []
    for d in (one, two):
        if d:
            rows = list(zip(*[d.get(a, []) for a in ("xyz" if three else "xy")]))
            out += [list(r) if three else sorted(r) for r in rows]
    return out


def motion(ty, fr, vals, mode):
    """derivative of the components of a value of type ty (flat list vals, entries may be None) in one lane"""
    n = ty.n
    idx, out = [0] * len(ty.shape), []
    strides = []
    m = 1
    for k in reversed(ty.shape):
        strides.insert(0, m); m *= k
    axes = [(t, k) for t, k in ty.toks if t not in "xs" or t in ty.mix]
    grp = {t: {i: g for g in groups(ty.mix[t]) for i in g} for t, k in axes if t in ty.mix}
    for f in range(n):
        if mode == "trans":
            d = 0
            for (t, k), i in zip(axes, idx):
                if t == "p" and t not in ty.mix and i < 3:
                    d = fr.t[i]
        elif mode == "rot":
            d = 0
            for j, (t, k) in enumerate(axes):
                i = idx[j]
                if t in ty.mix:
                    g = grp[t].get(i)
                    if g is None:
                        continue
                elif t in "vpab" and k in (2, 3) or t in "qhg":
                    g = range(3 if k != 2 else 2)
                    if i >= len(g):
                        continue
                else:
                    g = None
                if g is not None:
                    W = fr.W2 if len(g) == 2 else fr.W3
                    for c in range(len(W)):
                        w = W[g.index(i)][c]
                        if w == 0:
                            continue
                        v = vals[f + (g[c] - i) * strides[j]]
                        if v is None:
                            d = None
                            break
                        if d is not None:
                            d += w * v
                    if d is None:
                        break
        else:
            g = ty.grade(idx)
            e = 0
            for u, s in zip(g[1], fr.s):
                if u:
                    e += u.numerator * pow(u.denominator, -1, P) * s
            d = None if vals[f] is None else e * vals[f]
        out.append(None if d is None else d % P)
        for q in range(len(idx) - 1, -1, -1):
            idx[q] += 1
            if idx[q] < ty.shape[q]:
                break
            idx[q] = 0
    return out


def parity(ty, axis):
    """sign of every component under a reflection of one axis"""
    idx, out = [0] * len(ty.shape), []
    for f in range(ty.n):
        out.append(-1 if ty.grade(idx)[2][axis] else 1)
        for q in range(len(idx) - 1, -1, -1):
            idx[q] += 1
            if idx[q] < ty.shape[q]:
                break
            idx[q] = 0
    return out


def build(kernel, fn, seed, L, mode, axis=None):
    frames = [Frame(mode, seed, l) for l in range(L)] if mode in ("rot", "trans", "scale") else None
    args, outs = [], []
    for (d, n, t), at in zip(kernel.params, fn["args"]):
        if t == "int":
            args.append(("top",)); continue
        if t == "u":
            o = Obj(n, None, "in"); o.cells = {}; args.append(o); continue
        ty = Ty(t, kernel.mix)
        vals = [[0 if n in kernel.null else H("in", seed, l, n, i) for i in range(ty.n)] for l in range(L)]
        if axis is not None:
            pr = parity(ty, axis)
            vals = [[v if g > 0 else (P - v) % P for v, g in zip(vs, pr)] for vs in vals]
        if mode in ("rot", "trans", "scale"):
            ders = [motion(ty, frames[l], vals[l], mode) for l in range(L)]
        elif mode == "vary":
            ders = [[H("var", seed, l, n, i) if n in kernel.vary else 0 for i in range(ty.n)] for l in range(L)]
        else:
            ders = [[0] * ty.n for l in range(L)]
        cell = lambda i: ("a", tuple(v[i] for v in vals), tuple(v[i] for v in ders))
        if d == "<" and not ty.shape:
            args.append(cell(0)); continue
        o = Obj(n, 8 * ty.n, "in" if d == "<" else "out")
        o.cells = {8 * i: cell(i) for i in range(ty.n)} if d in ("<", "<>", ">+") else {}
        o.ty = ty
        args.append(o)
        if d != "<":
            outs.append((n, o, ty, d))
    return args, outs, frames


def mirror(kernel, fn, globs, want=3, budget=20.0):
    """the results of the mirrored inputs are the mirrored results, for each of the three axes"""
    import time
    t0 = time.time()
    ok, bad, poss = {}, {}, set()
    npass = good = 0
    for ps, L in enumerate(SCHEDULE):
        npass += 1
        base = None
        for ax in (None, 0, 1, 2):
            args, outs, _ = build(kernel, fn, ps, L, "mirror", ax)
            if ax is not None and not any(-1 in parity(Ty(t, kernel.mix), ax) for d, n, t in kernel.params if t not in ("int", "u")) \
                    and not any(-1 in parity(ty, ax) for n, o, ty, d in outs) and not (kernel.ret is not None and -1 in parity(kernel.ret, ax)):
                continue
            it = Alg(fn, globs, args, lambda *a: None, ps, L)
            it.nodegen = "degen" in kernel.skip
            it.run()
            cells, ret = it.finals()
            res = [(n, [cells.get((o, 8 * i)) for i in range(ty.n)], ty, o) for n, o, ty, d in outs]
            if kernel.ret is not None and ret is not None:
                res.append(("result", [ret], kernel.ret, None))
            res = [(n, [it.lift(v)[1] if v is not None else None for v in vs], ty, o) for n, vs, ty, o in res]
            if ax is None:
                base = (it, res)
                continue
            U = [l for l in usable(it) if base[0].bad[l] is None and base[0].opaque[l] == 0 and it.opaque[l] == 0]
            good += len(U)
            for (n, vs, ty, o), (_, ws, _, _) in zip(base[1], res):
                pr = parity(ty, ax)
                for i in range(ty.n):
                    k = (n, i, ax)
                    poss.add(k)
                    if vs[i] is None or ws[i] is None:
                        continue
                    for l in U:
                        if vs[i][l] is None or ws[i][l] is None:
                            continue
                        if (vs[i][l] - pr[i] * ws[i][l]) % P == 0:
                            ok[k] = ok.get(k, 0) + 1
                        else:
                            bad.setdefault(k, where(it.last.get((o, 8 * i))) if o is not None else "")
        # every comparison splits the lanes: follow enough of them to take every combination of a few of them
        need = 0 if not it.cmps else 15 * 2 ** min(len(it.cmps), 5)
        if good >= need and all(ok.get(k, 0) >= want or k in bad for k in poss):
            break
        if time.time() - t0 > budget or (ps >= 7 and good >= max(24, need)):
            break
    finds = [("result", ("%s[%d]" % k[:2] if k[0] != "result" else "result") + " under a reflection of " + "xyz"[k[2]], w) for k, w in sorted(bad.items())]
    return {"total": len(poss), "decided": sum(1 for k in poss if ok.get(k, 0) >= 1 or k in bad), "bad": len(bad), "finds": finds,
            "cmps": 0, "stats": it.stats, "passes": npass, "good": good, "loops": it.loops, "nofix": it.nofix}


def where(loc):
    for l in loc or []:
        if l.startswith(common.REPO + "/"):
            return l[len(common.REPO) + 1:]
        if "/include/delfem2/" in l:
            return "include/delfem2/" + l.split("/include/delfem2/", 1)[1]
    return ""


def usable(it):
    return [l for l in range(it.L) if it.bad[l] is None]


SCHEDULE = [8] * 4 + [64] * 4 + [512] * 20


def analyse(kernel, fn, globs, mode, want=3, budget=20.0):
    """-> dict(total, decided, finds=[(kind, label, text, where)], cmp_total, cmp_decided, stats)"""
    import time
    t0 = time.time()
    ok, bad, poss = {}, {}, set()
    if not all(supported(Ty(t, kernel.mix), mode) for d, n, t in kernel.params if t not in ("int", "u")):
        return None
    cok, cbad = {}, {}
    stats = None
    npass = good = 0
    for ps, L in enumerate(SCHEDULE):
        args, outs, frames = build(kernel, fn, ps, L, mode)
        it = Alg(fn, globs, args, lambda *a: None, ps, L)
        it.nodegen = "degen" in kernel.skip
        it.run()
        npass += 1
        stats = it.stats
        cells, ret = it.finals()
        U = usable(it)
        good += len(U)
        res = [(n, [cells.get((o, 8 * i)) for i in range(ty.n)], ty, o) for n, o, ty, d in outs]
        if kernel.ret is not None and ret is not None:
            res.append(("result", [ret], kernel.ret, None))
        for n, vs, ty, o in res:
            if not supported(ty, mode):
                continue
            vs = [it.lift(v) if v is not None else None for v in vs]
            for i in range(ty.n):
                poss.add((n, i))
            for l in U:
                exp = motion(ty, frames[l], [v[1][l] if v is not None else None for v in vs], mode)
                for i, v in enumerate(vs):
                    if v is None or v[1][l] is None or v[2][l] is None or exp[i] is None:
                        continue
                    if v[2][l] == exp[i]:
                        ok[(n, i)] = ok.get((n, i), 0) + 1
                    elif it.opaque[l] == 0 or mode != "law":
                        bad.setdefault((n, i), where(it.last.get((o, 8 * i))) if o is not None else "")
        for i, (ins, rec) in it.cmps.items():
            for l in U:
                if rec[l] is None or rec[l][1] is None:
                    continue
                if mode == "scale" or rec[l][1] == 0:
                    cok[i] = cok.get(i, 0) + 1
                else:
                    cbad.setdefault(i, ins)
        # every comparison splits the lanes: follow enough of them to take every combination of a few of them
        need = 0 if not it.cmps else 15 * 2 ** min(len(it.cmps), 5)
        if good >= need and all(ok.get(k, 0) >= want or k in bad for k in poss):
            break
        if time.time() - t0 > budget or (ps >= 7 and good >= max(24, need)):
            break
    finds = [("result", "%s[%d]" % k if k[0] != "result" else "result", w) for k, w in sorted(bad.items())]
    if mode != "scale":
        finds += [("branch", where(ins.get("loc")), where(ins.get("loc"))) for i, ins in sorted(cbad.items())]
    return {"total": len(poss), "decided": sum(1 for k in poss if ok.get(k, 0) >= 1 or k in bad), "bad": len(bad), "finds": finds,
            "cmps": len(set(cok) | set(cbad)), "stats": stats, "passes": npass, "good": good, "loops": it.loops, "nofix": it.nofix}
