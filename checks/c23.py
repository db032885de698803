"""C23: objects come out of their constructors with every scalar member set."""
from common import *


def run(ctx):
    nc = nr = 0
    seen = set()
    for unit, d in ctx.everywhere(["classes"]):
        c = d["classes"]
        if unit == "header-only":
            nc = c["ctors"]; nr = c["records"]
            ctx.need(nc >= 100, "only %d constructors found" % nc)
        for x in c["ctor_init"]:
            if not x["missing"] or x.get("anon") or x["at"].startswith("opengl/"):
                continue
            if x["ctor"] == "<implicit>" and not x["inits"]:
                continue  # plain record, filled by whoever creates it
            k = "init:%s:%s" % (x["class"], ",".join(x["missing"]))
            if k in seen:
                continue
            seen.add(k)
            ctx.violation(k, "constructor %s leaves %s uninitialised" % (x["ctor"] if x["ctor"] != "<implicit>" else "of " + x["class"], ", ".join(x["missing"])), x["at"])
        for x in c["freeing"]:
            if x["copy_ctor"] and x["copy_assign"] or x["noncopyable_member"]:
                continue
            k = "copy:" + x["class"]
            if k not in seen:
                seen.add(k)
                ctx.violation(k, "class %s releases a resource in its destructor but can be copied member by member: the resource is released twice" % x["class"], x["at"])
    # members read by an initialiser that runs before their own
    base = [f for f in BASEFLAGS if f != "-w"] + ["-fsyntax-only", "-Wno-everything", "-ferror-limit=0", "-Wuninitialized"]
    jobs = [(ctx.instances(), [])] + [(ROOT + "/" + c, ["-DDFM2_STATIC_LIBRARY"]) for c in sources()]
    for r in pmap(lambda j: subprocess.run(["clang++"] + base + j[1] + [j[0]], capture_output=True, text=True), jobs):
        for m in re.finditer(r"^(\S+?):(\d+):\d+: warning: (field '.*?' is uninitialized when used here)", r.stderr, re.M):
            if m.group(1).startswith(ROOT) and not m.group(1).startswith(ROOT + "/opengl/"):
                k = "order:%s:%s" % (m.group(1)[len(ROOT) + 1:], m.group(3))
                if k not in seen:
                    seen.add(k)
                    ctx.violation(k, m.group(3) + " by the initialiser of another member", "%s:%s" % (m.group(1)[len(ROOT) + 1:], m.group(2)))
    ctx.cover(explanation="every constructor of every library class: each scalar (or scalar-array, anonymous-union) member is assigned by an in-class initialiser, the initialiser list or the body (followed into called members); classes whose destructor releases a resource declare their copy operations", classes=nr, constructors=nc)
