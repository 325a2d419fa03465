"""C08, C09: cloning and merging."""
import fw, gen
from p_dom import REG, prop
@prop("C08")
def c08(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    for _ in range(ctx.pick(1, 4)):
        for kind, t in g.systematic(): sc.append({"kind": kind, "x": g.doc(t)})
    for kind, t in g.random_docs(ctx.pick(1500, 20000)): sc.append({"kind": kind, "x": g.doc(t)})
    for f in g.simple:
        if f != "coordinates": sc.append({"kind": "field", "x": g.doc((f, [], [g.string() or "v"]))})
    for f in g.simple:
        if f != "coordinates": sc.append({"kind": "long text", "x": g.doc((f, [], ["w <" * r.choice([500, 3000])]))})
    for t in sorted(g.text): sc += [{"kind": "long text", "x": g.doc((t, [], ["w <" * n]))} for n in (500, 1200, 7000)]
    for ty in g.types:
        for sl in g.types[ty]["slots"]:
            if sl["k"] in "fF" and sl["v"] == "str" and ty != "IconStyleIcon": sc.append({"kind": "long text", "x": g.doc((ty, [], [(sl["n"], [], ["w <" * r.choice([500, 1200, 3000])])]))})
    ctx.run("clone", "JClone", sc, lambda s, r: {"id": r["id"], "ev": [r]})
    return ctx.finish("every slot of every type alone, repeated and together, random trees with unknown and misplaced content, every field; each original and clone is then changed everywhere; non-trivial = distinct document",
                      ["expat, the reader used to observe output, is correct"])
def vary(g, r, t, parent=""):
    """A variant of the tree t: some children dropped, replaced or kept."""
    tag, at, kids = t; ty = g.tname(tag, parent); out = []
    for k in kids:
        if isinstance(k, str): out.append(k if r.random() < .5 else g.string() or "w"); continue
        x = r.random()
        if x < .3: continue
        if x < .6 and k[0] in g.types and k[0] not in g.text: out.append(vary(g, r, k, ty)); continue
        sl = [s for s in g.types[ty]["slots"] if k[0] in s["ts"]]
        out.append(g.slotchild(sl[0], ty, 1) if sl and x < .9 else k)
    return (tag, g.attrs(ty) if r.random() < .5 else at, out)
def clean_src(g, t, parent=""):
    """Without misplaced fields and without empty text elements."""
    tag, at, kids = t; ty = g.tname(tag, parent)
    if tag in g.text: return (tag, at, [k for k in kids if isinstance(k, str)] or ["t"])
    legal = {x for s in g.types[ty]["slots"] for x in s["ts"]}
    out = []
    for k in kids:
        if isinstance(k, str): out.append(k)
        elif k[0] in g.types: out.append(clean_src(g, k, ty))
        elif k[0] in g.simple and k[0] not in legal: continue
        else: out.append(k)
    return (tag, at, out)
PAIRS = [("LookAt", "Camera"), ("Camera", "LookAt"), ("Point", "LineString"), ("LineString", "LinearRing"), ("LatLonBox", "LatLonAltBox"), ("LineStyle", "PolyStyle"),
         ("IconStyle", "LabelStyle"), ("Link", "Icon"), ("Placemark", "NetworkLink"), ("GroundOverlay", "PhotoOverlay"), ("Icon", "Link"), ("TimeSpan", "TimeStamp"), ("Snippet", "linkSnippet"), ("hotSpot", "size")]
@prop("C09")
def c09(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    def add(kind, s, t, how): sc.append({"kind": kind, "src": g.doc(clean_src(g, s)), "tgt": g.doc(t), "how": how})
    tys = [t for t in g.complex]
    for _ in range(ctx.pick(3, 40)):
        for ty in tys:
            for sl in g.types[ty]["slots"]:   # one slot in the source
                s = (ty, [], [g.slotchild(sl, ty, 2)]); 
                if r.random() < .5: add("slot", s, g.elem(ty, "", 2, fill=.5), r.choice(["elements", "elements", "fields"]))
                t = (ty, [], [g.slotchild(sl, ty, 2)])
                if r.random() < .5: add("slot-same", s, t, "elements")
            for sl in g.types[ty]["slots"]:
                if sl["k"] in "mF" and r.random() < .4: add("many", (ty, [], [g.slotchild(sl, ty, 1) for _ in range(24)]), (ty, [], [g.slotchild(sl, ty, 1) for _ in range(r.choice([0, 3, 20]))]), "elements")
            t = g.elem(ty, "", 2, fill=.5, noise=.3)
            add("variant", vary(g, r, t), t, r.choice(["elements", "elements", "fields"]))
            add("random", g.elem(ty, "", 3, fill=.4, noise=.3), g.elem(ty, "", 3, fill=.4, noise=.3), r.choice(["elements", "elements", "fields"]))
        for a, b in PAIRS:
            add("types", g.elem(a, "", 2, fill=.5, noise=0), g.elem(b, "", 2, fill=.5, noise=0), r.choice(["elements", "fields"]))
    for how in ("nullsrc", "nulltgt"):
        for ty in tys: add(how, g.elem(ty, "", 2), g.elem(ty, "", 2), how)
    ctx.run("merge", "JMerge", sc, lambda s, r: {"id": r["id"], "how": s["how"], "ev": [r]})
    return ctx.finish("pairs of trees of every type: one slot against random trees, variants of the target, independent random trees, pairs of different types; non-trivial = distinct pair",
                      ["expat, the reader used to observe output, is correct"])
