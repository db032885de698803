"""Shared driver of the grade-inference checks (C11 units, C12 mirror parity, C14 definite results)."""
import common, kern
from common import Broken

CAN = {
    "unit": ("canary unit", "a:v3 L, b:v3 L", "  return a[0]*b[0]+a[1];", "s L2"),
    "parity": ("canary parity", "a:v3 L, b:v3 L", "  return a[0]*b[0]+a[1]*b[2];", "s L2"),
    "weight": ("canary weight", "a:p3 L, b:p3 L", "  double x=a[0]-b[0], y=a[1]+b[1]; return x*x+y*y;", "s L2"),
    "root": ("canary root", "a:v2 L, b:v2 L", "  return std::sqrt(a[0]*b[1]-a[1]*b[0]);", "s L"),
    "unset": ("canary unset", "a:v3 L, >o:v3 L", "  o[0]=a[0]; if(a[0]>0){ o[1]=a[1]; } o[2]=a[2];", None),
    "bounds": ("canary bounds", "a:v3 L, >o:v3 L", "  o[0]=a[0]; o[1]=a[1]; o[2]=a[3];", None),
}


def canaries(ctx, classes):
    for c in classes:
        n, ps, body, ret = CAN[c]
        k = kern.Kernel(n, ps, body, ret)
        items, dropped = kern.compile_group(ctx, "can" + c, [], [k])
        ctx.need(items and items[0][1], "canary does not compile")
        r = kern.analyse(*items[0])
        ctx.need(any(f[0] == c for f in r["finds"]), "the inference no longer reports its positive example for '%s'" % c)


def run(ctx, classes, count, what, rule, drop=None):
    canaries(ctx, classes)
    R, dropped = kern.all_results(ctx)
    total = len(R) + len(dropped)
    ctx.need(len(dropped) <= total // 4, "%d of %d kernels no longer match the library: %s" % (len(dropped), total, dropped[:4]))
    tot = dec = instr = arith = cmp_ = skipped = 0
    unk = set()
    for k, r in R:
        instr += r["stats"]["instructions"]; arith += r["stats"]["arith"]; cmp_ += r["stats"]["compares"]
        unk |= r["unknown_calls"]
        if classes[0] in k.skip and classes[0] != "unset":
            skipped += 1
            continue
        tot += r["out_total"]; dec += r[count]
        seen = set()
        for c, where, text in r["finds"]:
            if c not in classes or c in k.skip or (drop and drop(k, c)):
                continue
            key = "%s:%s:%s" % (k.name, c, where)
            if key in seen:
                continue
            seen.add(key)
            loc = where if where.startswith("include/") else "result of"
            ctx.violation(key, "%s: %s %s" % (k.name, where if loc == "result of" else "", text), where if loc != "result of" else k.name)
    ctx.need(tot == 0 or dec >= tot * 0.75, "only %d of %d results could be decided" % (dec, tot))
    ctx.cover(explanation=what, rule=rule, kernels_analysed=len(R) - skipped, kernels_exempt=skipped,
              kernels_set_aside=[d[0] for d in dropped], results=tot, results_decided=dec,
              instructions=instr, arithmetic_operations=arith, comparisons=cmp_, unmodelled_calls=sorted(unk))
