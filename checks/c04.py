"""C04: switching assertion checks on or off does not change what is computed."""
from common import *


def run(ctx):
    A = R = NR = F = 0
    for flags in ([], ["-DNDEBUG"]):
        for unit, d in ctx.everywhere(["asserts"], flags):
            a = d["asserts"]
            if unit == "header-only":
                A += a["assertions"]; R += a["regions"]; F += a["functions_analysed"]; NR += a["region_statements"]
                if not flags:
                    ctx.need(a["assertions"] >= 400, "only %d assertions found" % a["assertions"])
            for b in a["bad"]:
                f = b["at"].rsplit(":", 1)[0]
                if f.startswith("opengl/"):
                    continue
                ctx.violation("assert:%s:%s" % (b["in"], b["what"][:80]), "%s: %s" % (b["in"], b["what"]), b["at"])
    # the rule must see an effect in an assertion
    p = ctx.tmp + "/pos"; os.makedirs(p)
    open(p + "/pos.cpp", "w").write("#include <cassert>\n#include <vector>\nstatic bool f(std::vector<int>& v){ v.push_back(1); return true; }\nvoid g(std::vector<int>& v){ assert(f(v)); }\nint h(int a){\n#ifndef NDEBUG\n a+=1;\n#endif\n return a; }\n bool k(std::vector<int>& v){ return v.size()>1; }\n void ok(std::vector<int>& v){ assert(k(v)); }\n")
    t = tool("dfmast")
    r = subprocess.run([t, "--root=" + p, "--pass=asserts", p + "/pos.cpp", "--", "-std=c++17", "-resource-dir=" + RES], capture_output=True, text=True)
    bad = sorted(x["in"] for x in json.loads(r.stdout)["asserts"]["bad"])
    ctx.need(bad == ["g", "h"], "assertion rule does not match its positive examples: %s" % bad)
    ctx.cover(explanation="effect analysis of every assertion condition and of every statement under an NDEBUG conditional, in checked and unchecked configuration, over the header-only library (class templates instantiated) and every static-library unit; callee parameters are followed interprocedurally", functions=F, assertions=A, ndebug_conditionals=R, statements_under_conditionals=NR)
    ctx.assumptions += ["assertion conditions that hold: a failing assertion stops the program by design"]
