"""Shared driver for the static checks.

A check module defines run(ctx).  It calls ctx.violation(...) for every violating construct,
ctx.cover(...) for measured coverage and returns.  Exit codes: 0 held, 1 violation, 3 analysis broken.
"""
import json, os, re, threading, subprocess, sys, time, hashlib, shutil, tempfile, concurrent.futures, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DFM2_REPO", "/repo")
INC = REPO + "/include"
ROOT = INC + "/delfem2"
RES = "/usr/lib/llvm-18/lib/clang/18"
# the test build's flags (no build type; C++17; the stub headers of the sandbox)
BASEFLAGS = ["-std=c++17", "-I" + INC, "-I/opt/vp/compat", "-I/usr/include/stb", "-w"]
JOBS = int(os.environ.get("DFM2_JOBS", "8"))


class Broken(Exception):
    """the analysis itself could not be carried out (never a pass, never a violation)"""


def tooldir():
    return VERIF + "/build"


_toollock = threading.Lock()
_built = set()


def tool(name):
    with _toollock:
        if name in _built:
            return tooldir() + "/" + name
        r = _tool(name)
        _built.add(name)
        return r


def _tool(name):
    out = tooldir() + "/" + name
    env = dict(os.environ, TOOLS=name)
    r = subprocess.run(["bash", VERIF + "/tools/build.sh", tooldir()], env=env, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken("cannot build %s: %s" % (name, r.stderr[-2000:]))
    return out


def headers(sub=""):
    d = ROOT + ("/" + sub if sub else "")
    return sorted(f for f in os.listdir(d) if f.endswith(".h"))


def sources(sub=""):
    d = ROOT + ("/" + sub if sub else "")
    return sorted(f for f in os.listdir(d) if f.endswith(".cpp"))


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def pmap(fn, items, jobs=None):
    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []
        self.coverage = {}
        self.assumptions = []
        self.level = "other"
        self.tmp = tempfile.mkdtemp(prefix="dfm2_%s_" % prop)
        self.known = {}
        kf = VERIF + "/known_findings.txt"
        for ln in open(kf) if os.path.exists(kf) else []:
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            # finding: property=<id> key=<key> :: text
            if ln.startswith("finding: property=%s " % prop):
                rest = ln.split("key=", 1)[1]
                key, _, text = rest.partition(" :: ")
                self.known[key.strip()] = text.strip()
        self.known_hit = set()

    # ---- facts
    def mega(self, order="asc", extra_first=""):
        p = self.tmp + "/mega_%s.cpp" % order
        hs = headers()
        if order == "desc":
            hs = hs[::-1]
        with open(p, "w") as f:
            f.write(extra_first)
            for h in hs:
                f.write('#include "delfem2/%s"\n' % h)
        return p

    def ast(self, passes, src, flags=()):
        t = tool("dfmast")
        r = run([t, "--root=" + ROOT, "--pass=" + ",".join(passes), src, "--"] + BASEFLAGS + ["-resource-dir=" + RES] + list(flags))
        try:
            d = json.loads(r.stdout)
        except Exception:
            raise Broken("dfmast failed on %s: %s" % (src, (r.stderr or r.stdout)[-1500:]))
        if "error" in d:
            raise Broken("does not compile: %s: %s" % (src, r.stderr[-1500:]))
        return d

    def static_units(self, passes, flags=()):
        """facts of every library source compiled as the static library compiles it"""
        cs = sources()
        self.need(len(cs) >= 80, "only %d library sources found" % len(cs))
        return dict(zip(cs, pmap(lambda c: self.ast(passes, ROOT + "/" + c, ["-DDFM2_STATIC_LIBRARY"] + list(flags)), cs)))

    def instances(self):
        """all core headers plus explicit instantiations of the public class templates"""
        p = self.mega()
        q = self.tmp + "/instances.cpp"
        base = open(p).read() + open(VERIF + "/spec/instances.inc").read()
        gen = open(VERIF + "/spec/generic.inc").read().splitlines()
        self.generic_dropped = []
        nbase = base.count("\n") if base.endswith("\n") else base.count("\n") + 1
        base = base if base.endswith("\n") else base + "\n"
        for attempt in range(3):
            open(q, "w").write(base + "\n".join(gen) + "\n")
            r = run(["clang++"] + BASEFLAGS + ["-ferror-limit=0", "-fsyntax-only", q])
            bad = set()
            for blk in re.split(r"(?m)^(?=\S+:\d+:\d+: (?:fatal )?error: )", r.stderr):
                if re.match(r"\S+:\d+:\d+: (?:fatal )?error: ", blk):
                    bad |= {int(m) for m in re.findall(r"(?m)^%s:(\d+):" % re.escape(q), blk)}
            self.instances_err = r.stderr if r.returncode else ""
            bad = {b - nbase - 1 for b in bad if b > nbase}
            if not bad:
                break
            for b in bad:
                if gen[b].startswith("  "):
                    self.generic_dropped.append(gen[b].strip()); gen[b] = ""
        self.need(len(self.generic_dropped) <= 12, "the list of generic functions no longer matches the library: %s" % self.generic_dropped[:5])
        self.generic_uses = sum(1 for g in gen if g.startswith("  "))
        return q

    def everywhere(self, passes, flags=()):
        """[(unit, facts)] over header-only mode (with class templates instantiated) and the static library"""
        jobs = [("header-only", self.instances(), list(flags))]
        jobs += [("static:" + c, ROOT + "/" + c, ["-DDFM2_STATIC_LIBRARY"] + list(flags)) for c in sources()]
        self.need(len(jobs) >= 80, "only %d library sources found" % len(jobs))
        return list(zip([j[0] for j in jobs], pmap(lambda j: self.ast(passes, j[1], j[2]), jobs)))

    # ---- results
    def violation(self, key, text, where=""):
        """key: stable identity of the violating construct (for known findings)"""
        if key in self.known:
            self.known_hit.add(key)
            return
        self.viol.append({"key": key, "where": where, "what": text})

    def cover(self, **kw):
        self.coverage.update(kw)

    def need(self, cond, text):
        if not cond:
            raise Broken(text)

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        if self.known:
            ev["coverage"]["known_findings_seen"] = len(self.known_hit)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, self.known[k], k))
        if self.viol:
            rp = VERIF + "/evidence/%s.violations.txt" % self.prop
            with open(rp, "w") as f:
                for v in self.viol:
                    f.write("%s: %s: %s [key=%s]\n" % (self.prop, v["where"], v["what"], v["key"]))
            for v in self.viol[:20]:
                print("  %s: %s" % (v["where"], v["what"]))
            if len(self.viol) > 20:
                print("  ... and %d more in %s" % (len(self.viol) - 20, rp))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.coverage.items() if isinstance(v, int)})))
        return 0


def main(prop, fn, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        fn(ctx)
        rc = ctx.finish()
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.exit(rc)
