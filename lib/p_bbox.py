"""C20: extents."""
import fw, gen
from p_dom import REG, prop
def doc(g, r):
    ctr = [0]; vals = r.choice([["0", "1", "-1", "2.5"], ["10", "-10", "179.999", "-180", "180", "45.125"], None])
    def n(lat=False):
        if vals: return r.choice(vals)
        return "%d.%03d" % (r.randint(-179, 179), r.randint(0, 999)) if r.random() < .5 else str(r.randint(-180, 180))
    def m(): ctr[0] += 1; return [("m", "k%d" % ctr[0])]
    def coords(k=None):
        if k is None and r.random() < .003: k = 300
        k = r.choice([0, 1, 1, 2, 3, 5]) if k is None else k
        return ("coordinates", [], [" ".join("%s,%s%s" % (n(), n(), r.choice(["", ",7", ",0"])) for _ in range(k))] if k else [])
    def ring(): return ("LinearRing", m(), [coords()] if r.random() < .9 else [])
    def geom(d=2):
        k = r.random()
        if k < .25: return ("Point", m(), [coords(r.choice([0, 1, 1, 1, 2]))] if r.random() < .9 else [])
        if k < .4: return ("LineString", m(), [coords()] if r.random() < .9 else [])
        if k < .5: return ring()
        if k < .65:
            ks = [("outerBoundaryIs", [], [ring()] if r.random() < .9 else [])] if r.random() < .9 else []
            return ("Polygon", m(), ks)
        if k < .75: return ("Model", m(), [("Location", [], [(q, [], [n()]) for q in r.sample(["latitude", "longitude", "altitude"], r.randint(0, 3))])] if r.random() < .8 else [])
        if k < .8: return ("gx:Track", m(), [("gx:coord", [], ["1 2 3"])])
        if d: return ("MultiGeometry", m(), [geom(d - 1) for _ in range(r.randint(0, 3) if r.random() < .96 else r.randint(13, 18))])
        return ("Point", m(), [coords(1)])
    def feat(d):
        k = r.random(); ks = [("name", [], ["n"])] if r.random() < .2 else []
        if r.random() < .1: ks.append(("LookAt", [], [("longitude", [], ["33"]), ("latitude", [], ["44"])]))
        if r.random() < .1: ks.append(("Region", [], [("LatLonAltBox", m(), [(q, [], [n()]) for q in ("north", "south", "east", "west") if r.random() < .9])]))
        if d and k < .4: return (r.choice(["Folder", "Document"]), m(), ks + [feat(d - 1 if big < 9 else 0) for big in [r.choice([0, 1, 2, 3, 4] * 16 + [15, 25])] for _ in range(big)])
        if k < .5: return ("PhotoOverlay", m(), ks + ([("Point", m(), [coords(r.choice([0, 1, 1, 2]))])] if r.random() < .8 else []))
        if k < .6: return ("GroundOverlay", m(), ks + [("LatLonBox", m(), [(q, [], [n()]) for q in ("north", "south", "east", "west") if r.random() < .9])])
        if k < .65: return ("NetworkLink", m(), ks)
        return ("Placemark", m(), ks + ([geom()] if r.random() < .9 else []))
    f = feat(3)
    return ("kml", [], [f]) if r.random() < .5 else f
@prop("C20")
def c20(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    pts = [[y, x] for y in (-8, -2, 0, 1, 5) for x in (-8, -1, 0, 4, 6)]; boxes = [[8, -8, 8, -8], [5, -1, 5, -1], [5, 0, 0, -8], [8, 5, 5, 5], [-180, 180, -180, 180]]
    beh = ctx.generate("MCBbox", ctx.pick("MCBbox.cfg", "MCBboxX.cfg"))
    if len(beh) > ctx.pick(3000, 40000): beh = r.sample(beh, ctx.pick(3000, 40000))
    for b in beh:  # the box of no point is that of the code
        ops = [["box", -180, 180, -180, 180] if o == ["box", -8, 8, -8, 8] else o for o in b]
        sc.append({"kind": "history", "lim": 180, "ops": ops, "pts": pts, "boxes": boxes, "qt": [64, -64, 64, -64], "depth": 4})
    for _ in range(ctx.pick(1500, 15000)):
        ops = []; v = lambda: r.choice([r.randint(-64, 64), r.randint(-180, 180), 0, 180, -180, 32, -16])
        for _ in range(r.randint(1, 8)):
            k = r.random()
            if k < .4: ops.append(["pt", v(), v()])
            elif k < .5: ops.append(["lat", v()])
            elif k < .6: ops.append(["lon", v()])
            elif k < .85:
                y, x = sorted([v(), v()]), sorted([v(), v()]); ops.append([r.choice(["box", "box", "new"]), y[1], y[0], x[1], x[0]])
            else: ops.append(["box", -180, 180, -180, 180])
        sc.append({"kind": "random history", "lim": 180, "ops": ops, "pts": [[v(), v()] for _ in range(4)], "boxes": [[64, -64, 64, -64], [v(), v(), v(), v()]], "qt": r.choice([[64, -64, 64, -64], [128, 0, 64, -64], [0, -64, 32, -32]]), "depth": 5})
    U = 1 << 22; top = 180 * U   # parts of a degree: boxes deep in the quadtree
    for _ in range(ctx.pick(300, 3000)):
        q = r.choice([[64, -64, 64, -64], [128, 0, 64, -64], [0, -64, 32, -32], [128, -128, 128, -128], [180, -180, 180, -180]]); q = [x * U for x in q]; z = q
        for _ in range(r.randint(0, 24)):   # a node
            y, x = (z[0] + z[1]) // 2, (z[2] + z[3]) // 2
            z = r.choice([[z[0], y, z[2], x], [z[0], y, x, z[3]], [y, z[1], z[2], x], [y, z[1], x, z[3]]])
        v = lambda i: min(top, max(-top, r.choice([z[i], z[i + 1], r.randint(z[i + 1], z[i]), (z[i] + z[i + 1]) // 2, z[i] + r.randint(-3, 3)])))
        ops = [["pt", v(0), v(2)] for _ in range(r.randint(1, 4))]
        if r.random() < .3: ops.insert(r.randint(0, len(ops)), ["box", *z])
        sc.append({"kind": "deep", "lim": top, "unit": U, "ops": ops, "pts": [[v(0), v(2)] for _ in range(4)], "boxes": [z, q], "qt": q, "depth": 25})
    ctx.run("bbox", "JBbox", sc, lambda s, r: {"id": r["id"], "lim": s["lim"], "pts": s["pts"], "boxes": s["boxes"], "qt": s["qt"], "ev": r["ev"]})
    sc = []
    for _ in range(ctx.pick(2000, 30000)):
        sc.append({"kind": "extents", "x": g.doc(doc(g, r)), "start": r.choice([[-180000, 180000, -180000, 180000], [1000, 0, 2000, -1000], [90000, 80000, -5000, -6000]])})
    ctx.run("bounds", "JBbox", sc, lambda s, r: {"id": r["id"], "doc": r["doc"], "start": s["start"], "ev": r["ev"]})
    return ctx.finish("every history of %d points and boxes over a small grid, random longer histories, each step with containment, centre and alignment to every depth; random documents of all geometries and containers, each feature and geometry; non-trivial = distinct history or document" % ctx.pick(3, 4),
                      ["latitudes and longitudes are within -180 to 180", "coordinates have at most three decimals"])
