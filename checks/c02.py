"""C02: every core header is usable on its own, with any other one, and from several translation units.

Compile witnesses (front end only) + linkage query over the resolved program."""
import re
from common import *


def first_error(txt):
    for ln in txt.splitlines():
        m = re.match(r"(.*?):(\d+):(\d+): (?:fatal )?error: (.*)", ln)
        if m:
            f = m.group(1).replace(ROOT + "/", "")
            return f + ":" + m.group(2), m.group(4)
    return None


def run(ctx):
    hs = headers()
    ctx.need(len(hs) >= 150, "only %d core headers found" % len(hs))
    modes = [("header-only", []), ("static", ["-DDFM2_STATIC_LIBRARY"])]
    compilers = ["clang++", "g++"]
    jobs = [(h, m, f, c) for h in hs for m, f in modes for c in compilers]

    def one(j):
        h, m, f, c = j
        src = '#include "delfem2/%s"\n#include "delfem2/%s"\n' % (h, h)
        r = subprocess.run([c] + BASEFLAGS + f + ["-fsyntax-only", "-x", "c++", "-"], input=src, capture_output=True, text=True)
        return j, r
    n = 0
    for (h, m, f, c), r in pmap(one, jobs):
        n += 1
        if r.returncode != 0:
            e = first_error(r.stderr)
            if not e:
                raise Broken("%s died on %s: %s" % (c, h, r.stderr[-500:]))
            ctx.violation("selfcontained:%s:%s" % (h, m), "header %s does not compile on its own (%s mode, %s): %s" % (h, m, c, e[1]), e[0])
    npair = 0
    for order in ("asc", "desc"):
        for m, f in modes:
            src = ctx.mega(order)
            r = subprocess.run(["clang++"] + BASEFLAGS + f + ["-fsyntax-only", src], capture_output=True, text=True)
            npair += 1
            if r.returncode != 0:
                e = first_error(r.stderr)
                if not e:
                    raise Broken("clang died: " + r.stderr[-500:])
                ctx.violation("together:%s:%s:%s" % (order, m, e[0].split(":")[0]), "the core headers do not compile together (%s order, %s mode): %s" % (order, m, e[1]), e[0])
    nfun = nvar = 0
    if not ctx.viol:
        for m, f in modes:
            d = ctx.ast(["linkage"], ctx.mega(), f)["linkage"]
            nfun += d["functions_analysed"]; nvar += d["variables_analysed"]
            ctx.need(d["functions_analysed"] > (1000 if m == "header-only" else 300), "linkage pass saw %d functions" % d["functions_analysed"])
            for x in d["strong_functions"]:
                ctx.violation("strong:%s" % x["name"], "function %s is defined with strong external linkage in code every includer compiles (%s mode): two translation units including it do not link" % (x["name"], m), "%s:%d" % (x["file"], x["line"]))
            for x in d["strong_variables"]:
                ctx.violation("strongvar:%s" % x["name"], "variable %s is defined with strong external linkage in code every includer compiles (%s mode)" % (x["name"], m), "%s:%d" % (x["file"], x["line"]))
        # positive example: the linkage rule must match a planted strong definition
        p = ctx.tmp + "/pos/delfem2"; os.makedirs(p)
        open(p + "/pos.cpp", "w").write("namespace delfem2 { int pos_strong(int a){return a;} inline int pos_ok(int a){return a;} }\n")
        t = tool("dfmast")
        r = run_([t, "--root=" + p, "--pass=linkage", p + "/pos.cpp", "--", "-std=c++17", "-resource-dir=" + RES])
        ps = json.loads(r.stdout)["linkage"]["strong_functions"]
        ctx.need([x["name"] for x in ps] == ["delfem2::pos_strong(int)"], "linkage rule does not match its positive example")
    ctx.cover(explanation="front-end compile witness of every core header alone (included twice) in both library modes, of all core headers in ascending and descending order (every ordered pair of headers is covered by one of the two), and a linkage query over every function/variable definition an includer compiles",
              headers=len(hs), single_header_units=n, together_units=npair, functions_linkage_checked=nfun, variables_linkage_checked=nvar, compilers=compilers,
              samples=[hs[0], hs[len(hs) // 2], hs[-1]])
    ctx.assumptions += ["g++/clang++ with libstdc++ of this sandbox; core headers are include/delfem2/*.h (no third-party dependency)"]


def run_(c):
    return subprocess.run(c, capture_output=True, text=True)
