"""C21: traversals and searches."""
import fw, gen
from p_dom import REG, prop
import p_update
ABS = ["AbstractColorStyleGroup", "Container", "Feature", "Geometry", "AbstractLatLonBox", "AbstractObjectGroup", "AbstractOverlayGroup", "StyleSelector", "AbstractSubStyleGroup", "TimePrimitive", "AbstractView", "BasicLink", "vec2Type", "gx:AbstractTourPrimitiveGroup"]
HREFS = ["a.png", "#s", "#ab", "http://h/x.kml#s", "a/b.kmz/c.png", "", "#", "s.kml#z", "http://h", "../x", "mailto:x", " y ", "x&y", "//h/p", "c:\\d"]
def mark(g, r, t, ctr, parent=""):
    if isinstance(t, str): return t
    tag, at, kids = t
    if tag in ("href", "styleUrl", "targetHref"): return (tag, at, [h] if (h := r.choice(HREFS)) else [])
    if tag not in g.types: return t
    ctr[0] += 1; a = [(k, v) for k, v in at if k not in ("m", "id", "schemaUrl")] + [("m", "k%d" % ctr[0])]
    if tag in ("Style", "StyleMap", "Schema") and r.random() < .6: a.append(("id", r.choice("abcd")))
    if tag == "SchemaData" and r.random() < .7: a.append(("schemaUrl", r.choice(HREFS)))
    return (tag, a, [mark(g, r, k, ctr, tag) for k in kids])
def links(g, r, d=3):
    def h(n="href"): return (n, [], ["x"])
    def f(d):
        k = r.random(); ks = [h("styleUrl")] * (r.random() < .5)
        if r.random() < .3: ks.append((r.choice(["Style", "StyleMap"]), [], [("IconStyle", [], [("Icon", [], [h()])]), ("ListStyle", [], [("ItemIcon", [], [h()])]), ("Pair", [], [h("styleUrl")])][:r.randint(0, 3)]))
        if r.random() < .3: ks.append(("ExtendedData", [], [("SchemaData", [], [])] * r.randint(0, 2)))
        if d and k < .45: ks += [f(d - 1) for _ in range(r.randint(0, 4) if r.random() < .98 else 45)]; tag = r.choice(["Folder", "Document"])
        elif k < .6: tag = "NetworkLink"; ks.append((r.choice(["Link", "Url"]), [], [h()]))
        elif k < .75: tag = r.choice(["GroundOverlay", "ScreenOverlay", "PhotoOverlay"]); ks.append(("Icon", [], [h()]))
        elif k < .85: tag = "Placemark"; ks.append(("Model", [], [("Link", [], [h()]), ("ResourceMap", [], [("Alias", [], [h("targetHref"), h("sourceHref")])])]))
        elif k < .9: tag = "gx:Tour"; ks.append(("gx:Playlist", [], [("gx:SoundCue", [], [h()]), ("gx:AnimatedUpdate", [], [("Update", [], [h("targetHref"), ("Change", [], [f(0)])])])]))
        else: tag = "Placemark"; ks.append(("Point", [], [("coordinates", [], ["1,2"])]))
        if r.random() < .2: r.shuffle(ks)
        return (tag, [], ks)
    t = f(d)
    if r.random() < .2: return ("kml", [], [("NetworkLinkControl", [], [("Update", [], [h("targetHref"), ("Create", [], [("Document", [], [f(0), ("Style", [], [])])]), ("Delete", [], [("Placemark", [], [])])])]), t])
    return ("kml", [], [t]) if r.random() < .5 else t
@prop("C21")
def c21(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    def add(kind, t, nt=12):
        ty = r.sample(g.complex + ["coordinates", "IconStyleIcon"], nt) + r.sample(ABS, 5) + ["AbstractObjectGroup", "Feature"]
        sc.append({"kind": kind, "x": g.doc(mark(g, r, t, [0])), "types": ty, "base": r.choice(["", "style.kml", "http://h/s.kml"])})
    for _ in range(ctx.pick(1, 4)):
        for kind, t in g.systematic(): add(kind, t)
    for kind, t in g.random_docs(ctx.pick(500, 12000)): add(kind, t)
    for _ in range(ctx.pick(800, 15000)): add("links", links(g, r))
    ctx.run("walk", "JWalk", sc, lambda s, r: {"id": r["id"], "base": s["base"], "ev": [r]})
    return ctx.finish("every slot of every type, random trees with misplaced and unknown content, documents full of links and updates; each traversed, searched for 19 types and scanned for links; non-trivial = distinct document",
                      ["expat, the reader used to observe documents, is correct"])
