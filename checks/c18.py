"""C18: double-precision computations stay in double precision; ratios are not computed in integers."""
from common import *


def run(ctx):
    n = nf = sites = 0
    seen = set()
    for unit, d in ctx.everywhere(["conv"]):
        c = d["conv"]
        n += c["conversions"]
        if unit == "header-only":
            nf = c["functions_analysed"]
            ctx.need(c["conversions"] > 50000, "only %d conversions seen" % c["conversions"])
        for h in c["hits"]:
            if h["at"].startswith("opengl/"):
                continue
            sites += 1
            bad = None
            if "double->float" in h["kind"] and h["dbl"] and not h["floatif"]:
                bad = "a value computed in double precision passes through single precision although nothing in the interface is single precision: " + h["expr"]
            elif h["kind"] == "float->int":
                bad = "a floating value is silently truncated to an integer: " + h["expr"]
            elif h["kind"] == "int-div->float":
                bad = "a ratio used as a floating value is computed by integer division: " + h["expr"]
            elif h["kind"] == "explicit int-div->float":
                bad = "a ratio used as a floating value is computed by integer division: " + h["expr"]
            elif h["kind"] == "float local" and not h["floatif"]:
                bad = "a single-precision local variable in an operation whose interface does not mention single precision: " + h["expr"]
            if not bad:
                continue
            k = "%s:%s:%s" % (h["kind"], h["in"], h["expr"])
            if k in seen:
                continue
            seen.add(k)
            ctx.violation(k, "%s: %s" % (h["in"], bad), h["at"])
    p = ctx.tmp + "/pos"; os.makedirs(p)
    open(p + "/pos.cpp", "w").write('''#include <cstdlib>
#include <vector>
double a(double x){ float y = x*2; return y; }
double b(double x){ return abs((int)1) + (x>0 ? 1/2 : 0) ; }
double c(int n, int m){ return n/m; }
double d(double x){ int i = x; return i*0.5; }
int e(double x, const std::vector<int>& v){ int i = x; return v[i]; }
float f(double x){ return x; }
double g(double x){ auto s = 0.f; s += x; return s; }
float g1(double x){ auto s = 0.f; s += x; return s; }
''')
    r = subprocess.run([tool("dfmast"), "--root=" + p, "--pass=conv", p + "/pos.cpp", "--", "-std=c++17", "-resource-dir=" + RES], capture_output=True, text=True)
    hs = json.loads(r.stdout)["conv"]["hits"]
    got = sorted((h["in"], h["kind"]) for h in hs if ("double->float" in h["kind"] and h["dbl"] and not h["floatif"]) or h["kind"] in ("float->int", "int-div->float") or (h["kind"] == "float local" and not h["floatif"]))
    ctx.need(got == [("a", "double->float"), ("a", "float local"), ("b", "int-div->float"), ("c", "int-div->float"), ("d", "float->int"), ("g", "double->float"), ("g", "float local")], "conversion rule does not match its positive examples: %s" % got)
    ctx.cover(explanation="every conversion of the type-checked program (header-only library with class templates instantiated for float and double, and every static-library unit with its explicit instantiations): value-losing conversions of data held in double precision, silent truncation to integer, integer division feeding a floating value", conversions=n, functions=nf, narrowing_sites_judged=sites)
