"""C08: tables of element topology describe the elements (algebraic laws on the constant tables of the type-checked program)."""
from tabs import *

ELEMS = {"TRI": (3, None), "TET": (4, TET), "QUAD": (4, None), "HEX": (8, HEX), "PYRAMID": (5, PYR), "WEDGE": (6, WED), "VOX": (8, VOX), "LINE": (2, None)}
CYC = {"TRI": 3, "QUAD": 4}


def run(ctx):
    T = Tables(ctx)
    laws = tables = 0

    def one(name):
        L = [t for t in T.named(name) if t["in"] == ""]
        ctx.need(L, "table %s not found" % name)
        return L[0]

    def bad(t, what):
        ctx.violation("table:%s:%s" % (t["name"], t["in"]), "%s: %s" % (t["name"], what), t["at"])

    en = next((v for k, v in T.enums.items() if k.endswith("MESHELEM_TYPE")), None)
    ctx.need(en, "enumeration of element types not found")
    types = {k.replace("MESHELEM_", ""): v for k, v in en.items()}
    ctx.need(set(types) >= set(ELEMS), "element types changed: %s" % sorted(types))
    # --- counts and dispatch tables cover every element type
    nnode, nface, nnf, nedge = one("mapMeshElemType2NNodeElem"), one("mapMeshElemType2NFaceElem"), one("mapMeshElemTypeIndFace2NNoelElemFace"), one("mapMeshElemType2NEdgeElem")
    dface = T.named("noelElemFace0"); dedge = T.named("noelElemEdge0")
    SUF = {"TRI": "Tri", "TET": "Tet", "QUAD": "Quad", "HEX": "Hex", "PYRAMID": "Pyram", "WEDGE": "Wed", "VOX": "Vox", "LINE": "Line"}
    name_of = {types[e]: SUF[e] for e in ELEMS}
    # a dispatch that is not a table (a switch, say) is read by the names of the tables
    fake = lambda base: {"v": ["&%s_%s" % (base, name_of.get(i, "?")) for i in range(max(types.values()) + 1)], "at": "mshelm.h", "name": base, "in": ""}
    dface = dface[0] if dface else fake("noelElemFace")
    dedge = dedge[0] if dedge else fake("noelElemEdge")
    for t in (nnode, nface, nnf, nedge, dface, dedge):
        tables += 1; laws += 1
        if len(t["v"]) <= max(types.values()):
            bad(t, "has %d entries for %d element types" % (len(t["v"]), max(types.values()) + 1))

    def deref(d, i):
        n = str(d["v"][i]).lstrip("&").split("::")[-1]
        L = T.named(n)
        return L[0] if L else None

    def at(t, i):
        return t["v"][i] if i < len(t["v"]) else None
    for el, (nn, P) in ELEMS.items():
        i = types[el]
        laws += 1
        if at(nnode, i) is not None and at(nnode, i) != nn:
            bad(nnode, "%s has %d nodes, not %s" % (el, nn, at(nnode, i)))
        ft = deref(dface, i) if i < len(dface["v"]) else None
        if ft is None:
            bad(dface, "no face table for %s" % el); continue
        tables += 1
        faces = [trim(f) for f in ft["v"]]
        if at(nface, i) is not None and at(nface, i) != len(faces):
            bad(nface, "%s has %d faces, not %s" % (el, len(faces), at(nface, i)))
        if at(nnf, i) is not None:
            if [len(f) for f in faces] != [x for x in at(nnf, i)[:len(faces)]]:
                bad(nnf, "%s: nodes per face are %s, not %s" % (el, [len(f) for f in faces], at(nnf, i)))
        laws += 2
        if P:
            for w in faces3(faces, P):
                bad(ft, w)
            E = edges_of(faces)
            laws += 4 * len(faces)
        elif el == "LINE":
            E = {(0, 1)}
            if sorted(map(tuple, faces)) != [(0,), (1,)]:
                bad(ft, "end points of a line are nodes 0 and 1")
        else:
            n = CYC[el]
            if {tuple(f) for f in faces} != {(k, (k + 1) % n) for k in range(n)} or len(faces) != n:
                bad(ft, "sides of %s must run once around the element in node order" % el)
            E = {tuple(sorted(f)) for f in faces}
            laws += 2
        # edges
        if i < len(dedge["v"]):
            et = deref(dedge, i)
            if et is None:
                bad(dedge, "no edge table for %s" % el); continue
            tables += 1; laws += 2
            got = [tuple(sorted(e)) for e in et["v"]]
            if set(got) != E or len(got) != len(E):
                bad(et, "edges of %s are not the edges of its faces (differing: %s)" % (el, sorted(set(got) ^ E) or "duplicates"))
            if at(nedge, i) is not None and at(nedge, i) != len(E):
                bad(nedge, "%s has %d edges, not %s" % (el, len(E), at(nedge, i)))
    # every edge table, also those not reachable through the dispatch
    for nm, P in (("noelElemEdge_Vox", "noelElemFace_Vox"), ("noelElemEdge_Hex", "noelElemFace_Hex"), ("noelElemEdge_Tet", "noelElemFace_Tet")):
        for et in T.named(nm):
            E = edges_of([trim(f) for f in T.named(P)[0]["v"]]); laws += 1
            got = [tuple(sorted(e)) for e in et["v"]]
            if set(got) != E or len(got) != len(E):
                bad(et, "not the edges of the faces in %s (differing: %s)" % (P, sorted(set(got) ^ E) or "duplicates"))
    # --- every other copy of a face table in the library
    nc = 0
    for nm, P, k in (("noelElemFace_Vox", VOX, 6), ("faceHex", VOX, 6), ("noelElemFace_Hex", HEX, 6), ("noelHexFace", HEX, 6), ("noelTetFace", TET, 4)):
        for t in T.named(nm):
            nc += 1; tables += 1; laws += 4 * k
            v = t["v"][:k]
            for w in faces3([trim(f) for f in v], P):
                bad(t, "in %s: %s" % (t["in"] or "namespace scope", w))
            if nm == "noelTetFace":
                for i, f in enumerate(v):
                    if i in f:
                        bad(t, "face %d must be opposite to node %d" % (i, i))
    ctx.need(nc >= 8, "only %d copies of the face tables found" % nc)
    for t in T.named("noelElemFace_Tet"):
        for i, f in enumerate(t["v"]):
            if i in f:
                bad(t, "face %d must be opposite to node %d" % (i, i))
    for t in T.named("noelElemFace_Tri"):
        for i, f in enumerate(t["v"]):
            if i in f:
                bad(t, "side %d must be opposite to node %d" % (i, i))
    # --- voxel faces: -x +x -y +y -z +z in this order
    for nm, P in (("noelElemFace_Vox", VOX), ("faceHex", VOX), ("noelElemFace_Hex", HEX)):
        for t in T.named(nm):
            laws += 6
            for i, f in enumerate(t["v"][:6]):
                m = mean([P[x] for x in trim(f)])
                want = [0, 0, 0]; want[i // 2] = -1 if i % 2 == 0 else 1
                if any(abs(a - b) > 1e-9 for a, b in zip(m, want)):
                    bad(t, "in %s: face %d is not the %s face" % (t["in"], i, "-x +x -y +y -z +z".split()[i]))
    ctx.cover(explanation="constant tables evaluated by the front end from every unit; laws: faces bound the reference element and point outwards, every edge shared by two faces, edge tables equal the edges of the faces, counts and dispatch tables agree and cover all element types, face order", tables=tables, laws=laws, units=T.units)
