"""C10: combinatorial tables (tetrahedron relations, marching cubes, octree, separating axes, small index maps) satisfy their defining laws."""
from itertools import permutations
from tabs import *

MC_EDGE = [(0,1),(1,2),(2,3),(3,0),(4,5),(5,6),(6,7),(7,4),(0,4),(1,5),(2,6),(3,7)]
VOX_EDGE = [(0,1),(2,3),(4,5),(6,7),(0,2),(1,3),(4,6),(5,7),(0,4),(1,5),(2,6),(3,7)]


def parity(p):
    return sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2


def run(ctx):
    T = Tables(ctx)
    st = {"laws": 0, "tables": 0}
    absent = []

    def bad(t, what):
        ctx.violation("table:%s:%s" % (t["name"], t["in"]), "%s%s: %s" % (t["name"], " in " + t["in"] if t["in"] else "", what), t["at"])

    def law(t, ok, what):
        st["laws"] += 1
        if not ok:
            bad(t, what)
        return ok

    def each(name, shp=None):
        L = [t for t in T.named(name) if shp is None or shape(t["v"]) == shp]
        if not L:
            # a table of another shape under the expected name cannot describe what its users index
            for t in T.named(name):
                if shp is not None and shape(t["v"])[:1] != shp[:1]:
                    bad(t, "has shape %s instead of %s" % (shape(t["v"]), shp))
            absent.append(name)
        st["tables"] += len(L)
        return L

    # ---- tetrahedron relations: the 12 orientation-preserving correspondences between the corners of two tetrahedra
    rel = each("tetRel", (12, 4))
    for t in rel:
        v = [tuple(r) for r in t["v"]]
        law(t, all(sorted(r) == [0, 1, 2, 3] for r in v), "a row is not a permutation of the four corners")
        # sharing a face reverses orientation: the rows are exactly the odd permutations
        law(t, len(set(v)) == 12, "two rows are equal")
        law(t, len({parity(r) for r in v}) == 1 and parity(v[0]) == 1, "a row is not an orientation-reversing correspondence")
    for t in each("invTetRel", (12,)):
        for r in rel:
            v = [list(x) for x in r["v"]]
            for i, j in enumerate(t["v"]):
                law(t, 0 <= j < 12 and all(v[j][v[i][k]] == k for k in range(4)), "entry %d is not the inverse of relation %d" % (i, i))
    for t in each("noel2Rel", (16,)):
        for r in rel:
            for a in range(4):
                for b in range(4):
                    x = t["v"][a * 4 + b]
                    law(t, (x == -1) if a == b else (0 <= x < 12 and r["v"][x][0] == a and r["v"][x][1] == b), "entry (%d,%d) is not the relation that maps corners 0,1 to them" % (a, b))
    se = each("sEdge2Noel", (6, 2))
    for t in se:
        law(t, [tuple(e) for e in t["v"]] == [(a, b) for a in range(4) for b in range(a + 1, 4)], "the six edges are not listed in lexicographic order")
    de = each("dEdge2Noel", (12, 2))
    for t in de:
        law(t, [tuple(e) for e in t["v"]] == [(a, b) for a in range(4) for b in range(4) if a != b], "the twelve directed edges are not listed in lexicographic order")
    for t in each("noel2DEdge", (16,)):
        for d in de:
            for a in range(4):
                for b in range(4):
                    x = t["v"][a * 4 + b]
                    law(t, (x == -1) if a == b else (0 <= x < 12 and d["v"][x] == [a, b]), "entry (%d,%d) is not the directed edge between them" % (a, b))
    for t in each("sEdge2DEdge", (6,)):
        for s in se:
            for d in de:
                for i, x in enumerate(t["v"]):
                    law(t, 0 <= x < 12 and d["v"][x] == s["v"][i], "edge %d maps to a different directed edge" % i)
    for t in each("sEdge2FaTet", (6, 2)):
        for s in se:
            for i, (f, g) in enumerate(t["v"]):
                a, b = s["v"][i]
                law(t, {f, g} == {0, 1, 2, 3} - {a, b}, "edge %d: faces %s are not the two faces at the edge" % (i, (f, g)))
                # face i is opposite to corner i; the pair is ordered so that (edge, faces) is an orientation-preserving quadruple
                law(t, parity((a, b, f, g)) == parity((0, 1, 3, 2)), "edge %d: the two faces are exchanged" % i)

    # ---- marching cubes
    mcE, mcT = each("edgeTable", (256,)), each("triTable", (256, 16))
    corners = HEX
    faces = [[i for i in range(8) if corners[i][ax] == s] for ax in range(3) for s in (-1, 1)]
    eface = [{f for f, c in enumerate(faces) if a in c and b in c} for a, b in MC_EDGE]
    mid = [[(x + y) / 2 for x, y in zip(corners[a], corners[b])] for a, b in MC_EDGE]
    def crossing(i): return {e for e, (a, b) in enumerate(MC_EDGE) if (i >> a & 1) != (i >> b & 1)}
    for t in mcE:
        for i in range(256):
            law(t, t["v"][i] == sum(1 << e for e in crossing(i)), "case %d: edges %s instead of the edges whose corners differ" % (i, bin(t["v"][i])))
    for t in mcT:
        pattern = {}
        for i in range(256):
            r = t["v"][i]
            n = r.index(-1) if -1 in r else len(r)
            if not law(t, -1 in r and n % 3 == 0 and all(x == -1 for x in r[n:]), "case %d is not a -1 terminated list of triangles" % i):
                continue
            if not law(t, set(r[:n]) == crossing(i), "case %d: triangles use edges %s, the surface crosses %s" % (i, sorted(set(r[:n])), sorted(crossing(i)))):
                continue
            tri = [r[k:k + 3] for k in range(0, n, 3)]
            he = {}
            for q in tri:
                for k in range(3):
                    he[(q[k], q[(k + 1) % 3])] = he.get((q[k], q[(k + 1) % 3]), 0) + 1
            law(t, all(k == 1 for k in he.values()), "case %d: two triangles run along an edge in the same direction" % i)
            bd = [e for e in he if (e[1], e[0]) not in he]
            ok = all(eface[a] & eface[b] for a, b in bd)
            law(t, ok, "case %d: the patch is not closed inside the cell" % i)
            # what the patch leaves on a cell face depends on the corners of that face only, so neighbouring cells match
            if ok:
                for f, c in enumerate(faces):
                    seg = frozenset((a, b) for a, b in bd if f in eface[a] & eface[b])
                    key = (f, tuple(i >> k & 1 for k in c))
                    law(t, pattern.setdefault(key, seg) == seg, "case %d: its trace on face %d differs from other cells with the same face" % (i, f))
                    # the segment separates the corners: every crossed edge of the face is an end point exactly once
                    ends = sorted(x for s in seg for x in s)
                    law(t, ends == sorted(e for e in crossing(i) if f in eface[e]), "case %d: the trace on face %d does not join its crossed edges" % (i, f))
        # opposite faces see mirrored traces in opposite direction
        for (f, pat), seg in pattern.items():
            g = f ^ 1
            m = {}
            for e in range(12):
                if f in eface[e]:
                    p = list(mid[e]); p[f // 2] = -p[f // 2]
                    m[e] = mid.index(p)
            cm = {}
            for k, c in zip(pat, faces[f]):
                p = list(corners[c]); p[f // 2] = -p[f // 2]
                cm[corners.index(p)] = k
            key = (g, tuple(cm[c] for c in faces[g]))
            if key in pattern:
                want = frozenset((m[b], m[a]) for a, b in seg)
                law(t, pattern[key] == want, "faces %d and %d with the same corner signs carry different surface segments (the surface would have a crack)" % (f, g))
    for t in each("phexflg", (8, 3)):
        law(t, t["v"] == [[float(x) for x in p] for p in HEX], "corner directions are not the corners of the cell in marching-cubes order")

    # ---- octree / voxel cells (corner i has coordinates given by the bits of i)
    for t in each("aCellPointDirection", (27, 3)):
        for i in range(8):
            law(t, t["v"][i] == [float(x) for x in VOX[i]], "point %d is not corner %d" % (i, i))
        for i, (a, b) in enumerate(VOX_EDGE):
            law(t, t["v"][8 + i] == mean([VOX[a], VOX[b]]), "point %d is not the middle of edge %d-%d" % (8 + i, a, b))
        for i in range(6):
            w = [0.0, 0.0, 0.0]; w[i // 2] = float(i % 2 * 2 - 1)
            law(t, t["v"][20 + i] == w, "point %d is not the centre of face %d" % (20 + i, i))
        law(t, t["v"][26] == [0.0, 0.0, 0.0], "point 26 is not the centre")
    for t in each("dir", (8, 3)):
        law(t, t["v"] == [[float(x) for x in p] for p in VOX], "child directions are not the corners in child order")
    for t in each("edgeHex", (12, 2)):
        law(t, [tuple(e) for e in t["v"]] == VOX_EDGE, "edges are not the cell edges in the order of the edge points")
    for t in each("aFace", (6, 3)):
        law(t, t["v"] == [[(i % 2 * 2 - 1) if i // 2 == k else 0 for k in range(3)] for i in range(6)], "neighbour steps are not -x +x -y +y -z +z")
    for t in each("oppFace", (6,)):
        law(t, t["v"] == [i ^ 1 for i in range(6)], "opposite faces differ in direction, not only in sign")
    def side(i, f): return (i >> (f // 2) & 1) == (f & 1)      # corner i lies on face f
    for t in each("adjFacePair", (6, 4, 2)):
        for f, L in enumerate(t["v"]):
            law(t, sorted(a for a, b in L) == [i for i in range(8) if side(i, f)], "face %d: not the four children on the face" % f)
            for a, b in L:
                law(t, b == a ^ (1 << f // 2), "face %d: child %d does not touch child %d" % (f, a, b))
    for t in each("adjChildInside", (8, 6)):
        for i in range(8):
            for f in range(6):
                law(t, t["v"][i][f] == (-1 if side(i, f) else i ^ (1 << f // 2)), "child %d, face %d: neighbour %d" % (i, f, t["v"][i][f]))
    for t in each("edge2Face", (12, 4)):
        for e, (f, g, e1, e2) in enumerate(t["v"]):
            a, b = VOX_EDGE[e]
            on = [k for k in range(6) if side(a, k) and side(b, k)]
            if law(t, [f, g] == on, "edge %d lies on faces %s" % (e, on)):
                for k, (h, x) in enumerate(((f, e1), (g, e2))):
                    m = tuple(sorted((a ^ (1 << h // 2), b ^ (1 << h // 2))))
                    law(t, VOX_EDGE.index(m) == x, "edge %d seen from the neighbour across face %d is %d" % (e, h, VOX_EDGE.index(m)))
    fv = [t for t in T.named("faceHex")] or T.named("noelElemFace_Vox")
    for t in each("edgePointFace", (6, 4)):
        for h in fv[:1]:
            for f in range(6):
                for k in range(4):
                    e = tuple(sorted((h["v"][f][k], h["v"][f][(k + 1) % 4])))
                    law(t, t["v"][f][k] == 8 + VOX_EDGE.index(e), "face %d side %d is not the middle of that side" % (f, k))
    for t in each("halfPyramidPtn", (8, 6)):
        for h in fv[:1]:
            for i in range(8):
                for f in range(6):
                    c = h["v"][f]
                    d = {c[0], c[2]} if t["v"][i][f] == 0 else {c[1], c[3]}
                    law(t, (i in d or 7 ^ i in d), "child %d face %d: the diagonal passes through neither the outer corner nor the centre of the parent" % (i, f))

    # ---- small index maps
    for t in each("FaceToEdge"):
        v = t["v"] if not isinstance(t["v"][0], list) else [x for r in t["v"] for x in r]
        got = {(v[2 * k], v[2 * k + 1]) for k in range(len(v) // 2)}
        law(t, got == {(a, b) for a in range(3) for b in range(3)}, "edge pairs of two triangles that are never tried as separating axes: %s" % sorted({(a, b) for a in range(3) for b in range(3)} - got))
    for t in each("istdim2ij", (6, 2)):
        law(t, sorted(tuple(sorted(x)) for x in t["v"]) == [(a, b) for a in range(3) for b in range(a, 3)], "the six components are not the upper triangle of a symmetric matrix")
        law(t, t["v"][:3] == [[0, 0], [1, 1], [2, 2]], "normal components do not come first")
    for t in each("dNdr"):
        v = t["v"]
        for k in range(len(v[0])):
            law(t, abs(sum(r[k] for r in v)) < 1e-12, "shape function derivatives do not sum to zero")
        law(t, [list(r) for r in v[1:]] == [[1.0 if i == k else 0.0 for k in range(len(v[0]))] for i in range(len(v) - 1)], "shape function derivatives of the unit simplex")
    for t in each("triEd", (3, 2)):
        for i, e in enumerate(t["v"]):
            law(t, e == [(i + 1) % 3, (i + 2) % 3], "side %d is not opposite to corner %d" % (i, i))
    for t in each("pGauss", (3, 2)):
        law(t, all(abs(mean(t["v"])[k] - 1/3) < 1e-12 for k in range(2)) and all(abs(sum(p[a] * p[b] for p in t["v"]) / 3 - (1/6 if a == b else 1/12)) < 1e-12 for a in range(2) for b in range(2)), "sampling points do not integrate quadratics")
    ctx.need(len(absent) <= 10, "tables not found: %s" % absent)
    ctx.cover(explanation="constant tables evaluated by the front end; laws: permutations, inverses, orientation parity, marching-cubes edge sets, closedness and matching traces on shared faces, octree adjacency by bit arithmetic, completeness of separating axes", units=T.units, absent=len(absent), **st)
