"""C05: no hidden mutable state."""
from common import *

# scratch buffers documented as such: a mutable member is allowed only where the class already had mutable scratch members
def run(ctx):
    allow = set(l.strip() for l in open(VERIF + "/spec/mutable_classes.txt") if l.strip() and not l.startswith("#"))
    G = L = F = 0
    for unit, d in ctx.everywhere(["state"]):
        s = d["state"]
        if unit == "header-only":
            G += s["globals_analysed"]; L += s["static_locals_analysed"]; F += s["fields_analysed"]
            ctx.need(s["globals_analysed"] >= 40 and s["fields_analysed"] >= 500, "state pass saw too little")
        for v in s["mutable_state"]:
            ctx.violation("state:" + v["name"], "%s %s of type %s is mutable state that outlives a call%s" % (v["kind"], v["name"], v["type"], " (thread-local)" if v["tls"] else ""), "%s:%d" % (v["file"], v["line"]))
        for v in s["mutable_fields"]:
            cls = v["name"].rsplit("::", 1)[0]
            if cls in allow or ")::" in v["name"]:
                continue
            ctx.violation("mutable:" + v["name"], "field %s is writable through const access" % v["name"], "%s:%d" % (v["file"], v["line"]))
    p = ctx.tmp + "/pos"; os.makedirs(p)
    open(p + "/pos.cpp", "w").write("int g0; const int g1=1; static const int t[2]={1,2}; int f(){ static int c; static const int d=3; thread_local int e; return ++c+d+e+g1+t[0]; } struct A{ mutable int m; };\n")
    r = subprocess.run([tool("dfmast"), "--root=" + p, "--pass=state", p + "/pos.cpp", "--", "-std=c++17", "-resource-dir=" + RES], capture_output=True, text=True)
    s = json.loads(r.stdout)["state"]
    ctx.need(sorted(x["name"].split("::")[-1] for x in s["mutable_state"]) == ["c", "e", "g0"] and len(s["mutable_fields"]) == 1, "state rule does not match its positive examples")
    ctx.cover(explanation="every variable with static or thread storage duration and every data member, over the header-only library and every static-library unit, must be immutable (documented scratch members excepted)", globals=G, static_locals=L, fields=F, scratch_classes_allowed=len(allow))
