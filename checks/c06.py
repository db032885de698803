"""C06: results are reproducible: who may draw randomness / read clock, environment, terminal, or end the process."""
import re
from common import *

RANDOM = re.compile(r"^(std::)?(rand|srand|random|srandom|drand48|lrand48|rand_r|time|clock|gettimeofday|clock_gettime|getenv|getpid|secure_getenv)$"
                    r"|^std::random_device::|^std::chrono::.*::now$|^std::this_thread::get_id$|^std::hash<.*(thread::id|\*).*$|^(std::)?locale$|^setlocale$|^std::setlocale$")
STOP = re.compile(r"^(std::)?(exit|_Exit|_exit|abort|quick_exit|terminate|raise|kill|system|popen|longjmp|getchar|getc|gets|scanf|sleep|usleep|__builtin_trap|__builtin_unreachable)$|^std::this_thread::sleep")
# reading the terminal through std::cin is visible as a reference to the object, handled separately


def closure(nodes, direct, allowed):
    """functions that reach a source; allowed ones and helpers used only by allowed ones are fine"""
    callers = {n["id"]: set() for n in nodes}
    for n in nodes:
        for c, _ in n["calls"]:
            callers[c].add(n["id"])
    T = set(direct)
    w = list(direct)
    while w:
        x = w.pop()
        for c in callers[x]:
            if c not in T:
                T.add(c); w.append(c)
    ok = {i for i in T if nodes[i]["name"] in allowed}
    ch = True
    while ch:
        ch = False
        for i in T:
            # a private helper: not declared in a header by itself, every caller is fine
            if i not in ok and callers[i] and callers[i] <= ok:
                ok.add(i); ch = True
    return T, ok, callers


def path(nodes, i, direct):
    # shortest call path from i to a direct source
    from collections import deque
    prev = {i: None}; q = deque([i])
    while q:
        x = q.popleft()
        if x in direct:
            p = []
            while x is not None:
                p.append(x); x = prev[x]
            return " -> ".join(nodes[k]["name"] for k in reversed(p))
        for c, _ in nodes[x]["calls"]:
            if c not in prev:
                prev[c] = x; q.append(c)
    return nodes[i]["name"]


def load(f):
    return set(l.strip() for l in open(VERIF + "/spec/" + f) if l.strip() and not l.startswith("#"))


def run(ctx):
    allowed = load("random_allowed.txt")
    stop_allowed = load("stop_allowed.txt")
    nf = ncalls = ndecl = nT = nS = 0
    seen = set()
    for unit, d in ctx.everywhere(["graph", "types", "casts"]):
        N = d["graph"]["nodes"]
        if unit == "header-only":
            nf = d["graph"]["functions_analysed"]; ncalls = d["graph"]["call_sites"]; ndecl = d["types"]["declarations"]
            ctx.need(nf > 2000 and ncalls > 30000, "call graph too small")
        direct = {n["id"] for n in N if any(RANDOM.search(e) for e in n["ext"])}
        if unit == "header-only":
            ctx.need(len(direct) >= 8, "no randomness sources found: anchor lost")
        T, ok, callers = closure(N, direct, allowed)
        nT = max(nT, len(T))
        for i in sorted(T - ok):
            n = N[i]
            if n["at"].startswith("opengl/"):
                continue
            k = "random:" + n["name"]
            if k in seen:
                continue
            seen.add(k)
            src = [e for e in n["ext"] if RANDOM.search(e)]
            ctx.violation(k, "%s is not a randomised operation but reaches a source of nondeterminism (%s)" % (n["sig"], ", ".join(src) or path(N, i, direct)), n["at"])
        direct = {n["id"] for n in N if any(STOP.search(e) for e in n["ext"])}
        for i in sorted(direct):
            n = N[i]
            nS += 1
            k = "stop:" + n["name"]
            if k in seen or n["at"].startswith("opengl/") or n["name"] in stop_allowed:
                continue
            seen.add(k)
            e = [e for e in n["ext"] if STOP.search(e)]
            ctx.violation(k, "%s calls %s: a library call ends, suspends or blocks the host process" % (n["sig"], ", ".join(e)), n["ext"][e[0]])
        for x in d["casts"]["addresses"]:
            k = "address:%s:%s" % (x["in"], x["expr"])
            if k not in seen and not x["at"].startswith("opengl/"):
                seen.add(k)
                ctx.violation(k, "%s turns an address into a number, which differs from run to run: %s" % (x["in"], x["expr"]), x["at"])
        for at, what in d["types"]["order_dependent"].items():
            f = at.rsplit(":", 1)[0]
            k = "order:" + what
            if k in seen or f.startswith("opengl/"):
                continue
            seen.add(k)
            ctx.violation(k, "container whose iteration order depends on addresses or hashing: " + what, at)
    ctx.cover(explanation="call-graph reachability (lambdas and local classes attributed to their function, virtual calls to every override, templates by pattern and instance) from every library function to a source of nondeterminism or a process-ending/blocking call; container types ordered by address or hash",
              functions=nf, call_sites=ncalls, declarations_checked=ndecl, functions_reaching_randomness=nT, functions_reaching_stop=nS, allowed_random=len(allowed))
    ctx.assumptions += ["functions that take a caller-supplied random engine are deterministic functions of that engine",
                        "failing assertions are outside the property"]
