"""C27: every value-returning function returns a value on every path, checked and unchecked builds (compiler flow analysis)."""
import re
from common import *

W = ["-Wreturn-type", "-Wuninitialized", "-Wsometimes-uninitialized", "-Wconditional-uninitialized", "-Winfinite-recursion", "-Wreturn-stack-address", "-Wdangling", "-Wdelete-non-virtual-dtor", "-Wmismatched-new-delete"]
# (file, variable): read before set only on an infeasible path; confirmed by reading
INFEASIBLE = {
    ("geo_polyline.h", "ie_min"): "Nearest_Polyline: at least one edge exists and the first edge always sets it (dist_min starts at -1)",
    ("geo_polyline.h", "ratio_min"): "as above",
}


def run(ctx):
    base = [f for f in BASEFLAGS if f != "-w"]
    jobs = []
    for nd in ([], ["-DNDEBUG"]):
        jobs.append(("header-only", ctx.instances(), nd))
        jobs += [("static:" + c, ROOT + "/" + c, ["-DDFM2_STATIC_LIBRARY"] + nd) for c in sources()]
    def one(j):
        r = subprocess.run(["clang++", "-fsyntax-only", "-Wno-everything", "-ferror-limit=0"] + W + base + j[2] + [j[1]], capture_output=True, text=True)
        return j, r
    seen = set()
    for j, r in pmap(one, jobs):
        if r.returncode != 0:
            raise Broken("does not compile: %s: %s" % (j[1], r.stderr[-500:]))
        for ln in r.stderr.splitlines():
            m = re.match(r"(.*?):(\d+):(\d+): warning: (.*) \[(-W[\w-]+)\]", ln)
            if not m or not m.group(1).startswith(ROOT):
                continue
            f = m.group(1)[len(ROOT) + 1:]
            if f.startswith("opengl/"):
                continue
            v = re.match(r"variable '(\w+)'", m.group(4))
            if m.group(5) == "-Wconditional-uninitialized" and v and (f, v.group(1)) in INFEASIBLE:
                continue
            k = "%s:%s:%s" % (m.group(5), f, m.group(4)[:80])
            if k in seen:
                continue
            seen.add(k)
            ctx.violation(k, "%s [%s, %s]" % (m.group(4), m.group(5), "NDEBUG" if "-DNDEBUG" in j[2] else "checked"), "%s:%s" % (f, m.group(2)))
    ctx.cover(explanation="the compiler's own flow-sensitive analyses over every library function in header-only and static mode, with and without assertions", units=len(jobs), rules=len(W))
