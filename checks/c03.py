"""C03: every member of the public class templates is usable for the documented scalar types
(compile witness: explicit class-template instantiation makes the compiler check every member body)."""
import re
from common import *


GONE = re.compile(r"undeclared identifier|no template named|no member named|unknown type name|was not declared|has no member|does not name a type|no type named")


def run(ctx):
    txt = open(VERIF + "/spec/instances.inc").read()
    want = sorted(set(re.findall(r"template class ([\w:]+)<", txt) + re.findall(r"FD\(([\w:]+)\)", txt)))
    base = open(ctx.mega()).read() + txt
    base = base if base.endswith("\n") else base + "\n"
    gen = open(VERIF + "/spec/generic.inc").read().splitlines()
    off = base.count("\n")
    src = ctx.tmp + "/instances.cpp"
    n, dropped = 0, []
    for comp in (["clang++", "g++"] if ctx.tier == "thorough" else ["clang++"]):
        lim = ["-ferror-limit=0"] if comp == "clang++" else []
        for nd in ([], ["-DNDEBUG"]):
            for attempt in range(2):
                open(src, "w").write(base + "\n".join(gen) + "\n")
                r = subprocess.run([comp] + BASEFLAGS + lim + nd + ["-fsyntax-only", src], capture_output=True, text=True)
                n += 1
                if r.returncode not in (0, 1):
                    raise Broken("%s died: %s" % (comp, r.stderr[-500:]))
                errs, gone = [], set()
                for ln in r.stderr.splitlines():
                    m = re.match(r"(.*?):(\d+):(\d+): (?:fatal )?(error|note): (.*)", ln)
                    if not m:
                        continue
                    f, line, msg = m.group(1), int(m.group(2)), m.group(5)
                    if m.group(4) == "note":
                        if errs and "in instantiation of" in msg and "[" not in errs[-1][2][-1:]:
                            errs[-1][2] += " [" + msg + "]"
                        continue
                    if msg.startswith("duplicate explicit instantiation"):
                        continue
                    if f == src:
                        if line <= off:
                            raise Broken("the list of class templates does not match the library: " + msg)
                        if GONE.search(msg):
                            gone.add(line - off - 1); continue
                        errs.append(["(use of a public generic function)", 0, msg]); continue
                    errs.append([f.replace(ROOT + "/", ""), line, msg])
                if not gone:
                    break
                for g in gone:
                    if gen[g].startswith("  "):
                        dropped.append(gen[g].strip()); gen[g] = ""
            ctx.need(len(dropped) <= 12, "the list of generic functions no longer matches the library: %s" % dropped[:4])
            for f, line, msg in errs:
                ctx.violation("inst:%s:%s" % (f, msg[:60]), "a generic class member or function does not compile for its documented types (%s): %s" % (comp, msg), "%s:%d" % (f, line))
    # count the member functions the instantiation checks, from the resolved program
    members = 0
    if not ctx.viol:
        d = ctx.ast(["classes", "linkage", "tmpl"], src)
        members = d["linkage"]["functions_analysed"]
        ctx.need(members > 2000, "instantiation witness saw only %d functions" % members)
    ctx.cover(explanation="explicit instantiation of every public class template of the core headers; the compiler type-checks every member body for that scalar type", class_templates=len(want), functions_type_checked=members, compilations=n, samples=want[:5])
