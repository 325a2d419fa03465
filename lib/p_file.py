"""C10: ids and shared styles; C26: writing files."""
import fw, gen
from p_dom import REG, prop
def mark(g, r, t, pool, p=.5, ctr=None, parent="", style=False):
    """The tree with a mark on every element and ids from a small pool."""
    ctr = ctr if ctr is not None else [0]
    if isinstance(t, str): return t
    tag, at, kids = t
    if tag not in g.types: return t
    if style and tag == "Document": tag, at, kids = "Folder", at, []
    ctr[0] += 1
    a = [("m", "k%d" % ctr[0])]
    if r.random() < p: a.append(("id", r.choice(pool)))
    if r.random() < .1: a.append(("targetId", r.choice(pool)))
    ty = g.tname(tag, parent); style = style or tag in ("Style", "StyleMap")
    return (tag, a, [mark(g, r, k, pool, p, ctr, ty, style) for k in kids])
def styled_doc(g, r, depth=2):
    """Documents with shared and inline styles, at several places."""
    kids = []
    for _ in range(r.randint(0, 3) if r.random() < .94 else 18): kids.append((r.choice(["Style", "StyleMap"]), [], r.choice([[], [("LineStyle", [], [])], [("Pair", [], [("Style", [], [])])]])))
    for _ in range(r.randint(0, 3)):
        if depth and r.random() < .5: kids.append(styled_doc(g, r, depth - 1))
        else: kids.append(("Placemark", [], r.choice([[], [("Style", [], [])], [("StyleMap", [], []), ("Point", [], [])], [("Style", [], []), ("Style", [], [])]])))
    r.shuffle(kids)
    return (r.choice(["Document", "Document", "Folder"]), [], kids)
@prop("C10")
def c10(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    pool = ["a", "b", "c", "a b", "", "x&y"]
    def add(kind, t):
        t = mark(g, r, t, pool[:r.choice([2, 3, 6])] if r.random() < .7 else ["i%d" % i for i in range(40)], r.choice([.2, .5, .9]))
        x = g.doc(t)
        remap = [[a, r.choice(["z", "b", "y%s" % i])] for i, a in enumerate(r.sample(pool, r.randint(0, 3)))]
        for mode in ("parse", "import", "lax"): sc.append({"kind": kind + "-" + mode, "x": x, "mode": mode, "q": pool + ["i%d" % i for i in range(0, 40, 5)] + ["nope", "z"], "remap": remap, "under": mode != "parse" and r.random() < .3})
    for _ in range(ctx.pick(400, 6000)):
        t = styled_doc(g, r); add("styles", ("kml", [], [t]) if r.random() < .5 else t)
    for ty in g.complex:
        for _ in range(ctx.pick(2, 20)): add("type", g.elem(ty, "", 3, fill=.3, noise=.3))
    for _ in range(ctx.pick(200, 5000)):
        add("random", g.elem(r.choice(["kml", "Document", "Folder"]), "", 4, fill=r.choice([.1, .3]), noise=.2))
    ctx.run("ids", "JIds", sc, lambda s, r: {"id": r["id"], "remap": s["remap"], "ev": [r]})
    return ctx.finish("documents with ids from small pools on objects of every type, duplicates and shared, inline and nested styles included; each is parsed, imported strictly and imported laxly; every lookup is compared with the model; non-trivial = distinct document and mode",
                      ["no Document is placed within a style"])
@prop("C26")
def c26(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    g.unknown = ["Foo", "x:bar", "b", "Object", "Feature", "description2", "y:nope", "Geometry", "_a-b.c"]
    def clean(t, root=True, unk=False):
        if isinstance(t, str): return t
        tag, at, kids = t
        if unk and ":" in tag and tag[:2] not in ("x:", "y:"): tag = "x:" + tag.split(":")[1]
        unk = unk or tag not in g.types
        at = [(k, v) for k, v in at if ":" not in k]
        if root:
            at = at + [("xmlns:x", "http://x.example/x"), ("xmlns:y", "urn:y")]
            if r.random() < .5: at.append(("xmlns", r.choice(["http://earth.google.com/kml/2.1", "http://www.opengis.net/kml/2.2", "urn:other", "http://earth.google.com/kml/2.2"])))
            if r.random() < .3: at.append(("xmlns:gx", r.choice(["http://www.google.com/kml/ext/2.2", "urn:other"])))
        if tag == "Schema": at = [a for a in at if a[0] != "parent"]
        return (tag, at, [clean(k, False, unk) for k in kids])
    docs = []
    for _ in range(ctx.pick(1, 5)): docs += list(g.systematic())
    docs += list(g.random_docs(ctx.pick(1500, 20000)))
    for kind, t in docs: sc.append({"kind": kind, "x": g.doc(clean(t)), "enc": r.choice(["", "iso-8859-1", "UTF-8", "us-ascii"])})
    ctx.run("writefile", "JWrite", sc, lambda s, r: {"id": r["id"], "ev": [r]})
    return ctx.finish("every slot of every type alone and together, random trees with unknown and misplaced content, several namespace declarations; written files are read with a namespace-aware reader; non-trivial = distinct document",
                      ["expat, the reader used to observe output, is correct", "prefixes used by unknown content are declared by the document"])
