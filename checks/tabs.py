"""constant tables of the type-checked program (value of every constant array, evaluated by the compiler's front end)"""
from common import *


def _num(v):
    if isinstance(v, list):
        return [_num(x) for x in v]
    if isinstance(v, str) and v.startswith("f:"):
        return float(v[2:])
    if isinstance(v, str) and v.startswith("&"):
        return v
    return v


class Tables:
    def __init__(self, ctx):
        self.by = {}
        self.units = 0
        for unit, d in ctx.everywhere(["tables"]):
            self.units += 1
            for t in d["tables"]["vars"]:
                t = dict(t, v=_num(t["value"]), unit=unit)
                k = (t["name"], t["targs"], t["in"])
                L = self.by.setdefault(k, [])
                if all(x["v"] != t["v"] or x["at"] != t["at"] for x in L):
                    L.append(t)
            self.enums = getattr(self, "enums", {})
            for e in d["tables"]["enums"]:
                self.enums[e["name"]] = dict(e["values"])

    def named(self, short):
        """every table with this unqualified name, wherever it is defined"""
        return [t for L in self.by.values() for t in L if t["short"] == short and isinstance(t["v"], list)]


def shape(v):
    s = []
    while isinstance(v, list):
        s.append(len(v)); v = v[0] if v else None
    return tuple(s)


def sub(a, b): return [x - y for x, y in zip(a, b)]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def mean(P): return [sum(p[i] for p in P) / len(P) for i in range(len(P[0]))]


TET = [[0,0,0],[1,0,0],[0,1,0],[0,0,1]]
HEX = [[-1,-1,-1],[1,-1,-1],[1,1,-1],[-1,1,-1],[-1,-1,1],[1,-1,1],[1,1,1],[-1,1,1]]
VOX = [[(i & 1)*2-1, (i >> 1 & 1)*2-1, (i >> 2)*2-1] for i in range(8)]
PYR = [[-1,-1,0],[1,-1,0],[1,1,0],[-1,1,0],[0,0,1]]
WED = [[0,0,0],[0,1,0],[1,0,0],[0,0,1],[0,1,1],[1,0,1]]   # VTK_WEDGE: the normal of (0,1,2) points outwards


def faces3(faces, P):
    """[] if the faces bound the polyhedron with corner coordinates P, outward oriented; else reasons"""
    bad, de = [], {}
    c = mean(P)
    for i, f in enumerate(faces):
        if len(set(f)) != len(f) or any(n < 0 or n >= len(P) for n in f):
            bad.append("face %d %s repeats a node or leaves the element" % (i, f)); continue
        n = [0, 0, 0]
        for k in range(1, len(f) - 1):
            n = [a + b for a, b in zip(n, cross(sub(P[f[k]], P[f[0]]), sub(P[f[k+1]], P[f[0]])))]
        if dot(n, sub(mean([P[x] for x in f]), c)) <= 0:
            bad.append("face %d %s is not oriented outwards" % (i, f))
        if any(abs(dot(n, sub(P[x], P[f[0]]))) > 1e-9 for x in f):
            bad.append("face %d %s is not planar on the reference element" % (i, f))
        if any(dot(n, sub(p, P[f[0]])) > 1e-9 for p in P):
            bad.append("face %d %s is not a face of the element" % (i, f))
        for k in range(len(f)):
            e = (f[k], f[(k + 1) % len(f)])
            de[e] = de.get(e, 0) + 1
    for (a, b), k in de.items():
        if k != 1 or de.get((b, a), 0) != 1:
            bad.append("edge (%d,%d) is not shared by exactly two faces" % (a, b)); break
    return bad


def trim(f): return [x for x in f if x >= 0]


def edges_of(faces):
    return {tuple(sorted((f[k], f[(k+1) % len(f)]))) for f in faces for k in range(len(f))}
