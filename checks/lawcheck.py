"""Shared driver of the checks of algebraic laws (C16 derivatives, C17 identities)."""
import importlib.util, traceback
import common, kern, laws, algs


def load(which):
    """[(headers, [kernels with laws])]"""
    p = common.VERIF + "/spec/laws.py"
    spec = importlib.util.spec_from_file_location("lawspec", p)
    m = importlib.util.module_from_spec(spec)
    m.Kernel, m.BASE = kern.Kernel, kern.load_kernels()
    spec.loader.exec_module(m)
    groups = []
    for h, ks in getattr(m, which):
        ks = [k for k in ks if k.laws]
        if ks:
            groups.append((h, ks))
    return groups


def compiled(ctx, groups):
    comp = common.pmap(lambda j: kern.compile_group(ctx, "l%d" % j[0], j[1][0], j[1][1]), list(enumerate(groups)))
    items, dropped = [], []
    for L, d in comp:
        items += [x for x in L if x[1] is not None]
        dropped += list(d) + [(x[0].name, "no code generated") for x in L if x[1] is None]
    return items, dropped


def _an(j):
    i, law, budget = j
    k, f, g = algs._ITEMS[i]
    try:
        return laws.analyse(k, f, g, law, budget=budget)
    except Exception:
        return {"err": traceback.format_exc()[-600:]}


def results(items, budget=15.0, sel=None):
    jobs = [(i, l, budget) for i, (k, f, g) in enumerate(items) for l in k.laws if sel is None or any(s in k.name for s in sel)]
    jobs.sort(key=lambda j: -len(items[j[0]][1]["blocks"]))
    return list(zip(jobs, algs.forkmap(items, jobs, _an)))


CAN = {
    "d": ("canary derivative", "a:v3 L, >g:v3 L", "  g[0]=2*a[0]; g[1]=2*a[1]; g[2]=3*a[2]; return a[0]*a[0]+a[1]*a[1]+a[2]*a[2];", "s L2", ["d result = g[i] a[i]"]),
    "zero": ("canary identity", "a:v3 L, b:v3 L, >z:n2", "  double s=a[0]+b[0]; z[0]=s*s-a[0]*a[0]-2*a[0]*b[0]-b[0]*b[0]; z[1]=s*s-a[0]*a[0]-a[0]*b[0]-b[0]*b[0];", None, ["zero z"]),
}


def run(ctx, which, canary, what, rule, text, budget=15.0):
    n, ps, body, ret, lw = CAN[canary]
    it, _ = compiled(ctx, [([], [kern.Kernel(n, ps, body, ret, laws=lw)])])
    ctx.need(it, "canary does not compile")
    r = results(it)[0][1]
    ctx.need(r.get("bad") == 1, "the analysis no longer reports its positive example: %s" % r)
    groups = load(which)
    items, dropped = compiled(ctx, groups)
    total = len(items) + len(dropped)
    ctx.need(len(dropped) <= total // 4, "%d of %d kernels no longer match the library: %s" % (len(dropped), total, dropped[:4]))
    tot = dec = ops = 0
    undec, errs, nlaws = [], [], 0
    for (i, law, _), r in sorted(results(items, budget), key=lambda x: (items[x[0][0]][0].name, x[0][1])):
        k = items[i][0]
        nlaws += 1
        if "err" in r:
            errs.append("%s: %s" % (k.name, r["err"].strip().splitlines()[-1])); continue
        tot += r["total"]; dec += r["decided"]
        if r["stats"]:
            ops += r["stats"]["arith"]
        if r["decided"] < r["total"]:
            undec.append("%s: %s: %d of %d" % (k.name, law, r["total"] - r["decided"], r["total"]))
        if r["finds"]:
            labels = [f[1] for f in r["finds"]]
            where = next((f[2] for f in r["finds"] if f[2]), "")
            ctx.violation("%s:%s" % (k.name, law), "%s: %s [%s] fails for %s" % (k.name, k.note or text, law, ", ".join(labels[:6]) + (" ..." if len(labels) > 6 else "")), where or k.name)
    ctx.need(len(errs) <= nlaws // 10, "analysis failed for %s" % errs[:5])
    ctx.need(tot == 0 or dec >= tot * 0.7, "only %d of %d equations could be decided" % (dec, tot))
    ctx.cover(explanation=what, rule=rule, kernels_analysed=len(items), kernels_set_aside=[d[0] for d in dropped], laws=nlaws,
              equations=tot, equations_decided=dec, undecided=undec, analysis_errors=errs, operations_numbered=ops)
