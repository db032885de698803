"""Shared driver of the checks that use algebraic value numbering (C12 mirror, C13 translation, C15 rotation)."""
import traceback
import common, kern, equi

CAN = {
    "trans": ("canary trans", "a:p3 L, b:p3 L", "  double x=a[0]-b[0], y=a[1]+b[1]; return x*x+y*y;", "s L2"),
    "rot": ("canary rot", "a:p3 L, b:p3 L", "  double x=a[0]-b[0], y=a[1]-b[1]; return x*x+y*y;", "s L2"),
    "mirror": ("canary mirror", "a:v3 L, b:v3 L", "  return a[0]*b[0]+a[1]*b[2];", "s L2"),
}
SKIP = {"trans": {"weight"}, "rot": {"rot"}, "mirror": {"parity", "root"}}
BRANCH = {"trans"}
_ITEMS = None


def _an(j):
    i, mode, budget = j
    k, f, g = _ITEMS[i]
    try:
        return equi.mirror(k, f, g, budget=budget) if mode == "mirror" else equi.analyse(k, f, g, mode, budget=budget)
    except Exception:
        return {"err": traceback.format_exc()[-400:]}


def forkmap(items, jobs, fn=None):
    global _ITEMS
    import multiprocessing
    _ITEMS = items
    with multiprocessing.get_context("fork").Pool(common.JOBS) as pool:
        return pool.map(fn or _an, jobs, chunksize=1)


def compiled(ctx):
    groups = kern.load_kernels()
    comp = common.pmap(lambda j: kern.compile_group(ctx, j[0], j[1][0], j[1][1]), list(enumerate(groups)))
    items, dropped = [], []
    for L, d in comp:
        items += [x for x in L if x[1] is not None]
        dropped += list(d) + [(x[0].name, "no code generated") for x in L if x[1] is None]
    return items, dropped


def canary(ctx, mode):
    n, ps, body, ret = CAN[mode]
    items, dropped = kern.compile_group(ctx, "can" + mode, [], [kern.Kernel(n, ps, body, ret)])
    ctx.need(items and items[0][1], "canary does not compile")
    r = equi.mirror(*items[0]) if mode == "mirror" else equi.analyse(*items[0], mode)
    ctx.need(any(f[0] == "result" for f in r["finds"]), "the analysis no longer reports its positive example for '%s'" % mode)


def run(ctx, mode, what, rule, text, budget=20.0):
    """-> set of the names of the kernels that were decided"""
    canary(ctx, mode)
    items, dropped = compiled(ctx)
    total = len(items) + len(dropped)
    ctx.need(len(dropped) <= total // 4, "%d of %d kernels no longer match the library: %s" % (len(dropped), total, dropped[:4]))
    live = [i for i, x in enumerate(items) if not (SKIP[mode] & x[0].skip)]
    R = forkmap(items, [(i, mode, budget) for i in live])
    tot = dec = arith = cmps = 0
    undec, decided, errs, exempt = [], set(), [], [x[0].name for x in items if SKIP[mode] & x[0].skip]
    for i, r in zip(live, R):
        k = items[i][0]
        if r is None:
            undec.append(k.name + ": argument type"); continue
        if "err" in r:
            errs.append(k.name); continue
        tot += r["total"]; dec += r["decided"]
        if r["stats"]:
            arith += r["stats"]["arith"]
        cmps += r["cmps"]
        if r["decided"] < r["total"]:
            undec.append("%s: %d of %d results" % (k.name, r["total"] - r["decided"], r["total"]))
        if r["decided"] or r["cmps"]:
            decided.add(k.name)
        by = {}
        for kind, label, where in r["finds"]:
            if kind == "branch" and mode not in BRANCH:
                continue
            by.setdefault((kind, where), []).append(label)
        for (kind, where), labels in sorted(by.items()):
            if kind == "branch":
                ctx.violation("%s:%s:branch:%s" % (k.name, mode, where), "%s decides by a quantity that %s" % (k.name, text[1]), where or k.name)
            else:
                ctx.violation("%s:%s:%s" % (k.name, mode, labels[0]), "%s: %s %s" % (k.name, text[0], ", ".join(labels[:6]) + (" ..." if len(labels) > 6 else "")), where or k.name)
    ctx.need(len(errs) <= total // 10, "analysis failed for %s" % errs[:5])
    ctx.need(tot == 0 or dec >= tot * 0.7, "only %d of %d results could be decided" % (dec, tot))
    ctx.cover(explanation=what, rule=rule, kernels_analysed=len(live), kernels_exempt=exempt, kernels_set_aside=[d[0] for d in dropped],
              results=tot, results_decided=dec, undecided=undec, analysis_errors=errs, operations_numbered=arith, comparisons_checked=cmps)
    return decided
