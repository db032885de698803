"""C26: read-only arguments are never written through: no cast removes constness."""
from common import *


def run(ctx):
    n = nf = 0
    seen = set()
    for unit, d in ctx.everywhere(["casts"]):
        c = d["casts"]
        n += c["casts_analysed"]
        if unit == "header-only":
            nf = c["functions_analysed"]
            ctx.need(c["casts_analysed"] > 2000, "cast pass saw too little")
        for b in c["bad"]:
            k = "cast:%s:%s" % (b["in"], b["expr"])
            if k in seen or b["at"].startswith("opengl/"):
                continue
            seen.add(k)
            ctx.violation(k, "%s casts away constness: %s (%s to %s)" % (b["in"], b["expr"], b["from"], b["to"]), b["at"])
    ctx.cover(explanation="every explicit cast of the type-checked program, header-only and static: none drops a const qualifier at any pointer level (implicit conversions cannot)", casts=n, functions=nf)
