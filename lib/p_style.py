"""C12, C13: styles."""
import fw, gen
from p_dom import REG, prop
from p_update import to_xml
SUB = ["IconStyle", "LabelStyle", "LineStyle", "PolyStyle", "BalloonStyle", "ListStyle"]
def style(g, r, d=1):
    kids = []
    for s in r.sample(SUB, r.randint(0, 3)): kids.append(g.elem(s, "Style", 1, fill=.4, noise=getattr(g, "style_noise", .05)))
    return ("Style", [], kids)
def smap(g, r, ref, d=2):
    ps = []
    for k in r.choice([["normal", "highlight"], ["normal"], ["highlight"], ["normal", "normal", "highlight"], [None, "highlight"], [], ["highlight", "highlight", "normal", "highlight", "normal", "normal"], ["normal"] * 4 + ["highlight"], ["highlight"] * 5 + ["normal"]]):
        kids = []
        if k: kids.append(("key", [], [k]))
        if r.random() < .7: kids.append(("styleUrl", [], [ref()]))
        if d and r.random() < .3: kids.append(selector(g, r, ref, d - 1))
        if r.random() < .3: r.shuffle(kids)
        ps.append(("Pair", [], kids))
    return ("StyleMap", [], ps)
def selector(g, r, ref, d=2): return style(g, r) if r.random() < .6 else smap(g, r, ref, d)
def doc_tree(g, r, ids, ref, ctr, depth=2, feats=(1, 4)):
    kids = []
    for _ in range(r.randint(1, 4)):
        s = selector(g, r, ref); kids.append((s[0], [("id", r.choice(ids))] if r.random() < .9 else [], s[2]))
    for _ in range(r.randint(*feats)): kids.append(feature(g, r, ids, ref, ctr, depth))
    if r.random() < .2: r.shuffle(kids)
    if r.random() < .3: kids.insert(0, ("styleUrl", [], [ref()]))
    ctr[0] += 1
    return ("Document", [("m", "k%d" % ctr[0])], kids)
def feature(g, r, ids, ref, ctr, depth):
    ctr[0] += 1; m = ("m", "k%d" % ctr[0]); k = r.random()
    if depth and k < .15: return doc_tree(g, r, ids, ref, ctr, depth - 1, (0, 2))
    kids = [("name", [], ["n%d" % ctr[0]])] if r.random() < .5 else []
    if r.random() < .7: kids.append(("styleUrl", [], [ref()]))
    if r.random() < .4: s = selector(g, r, ref); kids.append((s[0], [("id", r.choice(ids))] if r.random() < .3 else [], s[2]))
    if r.random() < .2: r.shuffle(kids)
    if depth and k < .35: return ("Folder", [m], kids + [feature(g, r, ids, ref, ctr, depth - 1) for _ in range(r.randint(0, 3))])
    return (r.choice(["Placemark", "Placemark", "GroundOverlay", "NetworkLink"]), [m], kids)
def chain(g, r, n, cyc, ctr):
    """A chain of n style maps that ends in a style or runs into a cycle."""
    kids = [("StyleMap", [("id", "c%d" % i)], [("Pair", [], [("key", [], ["normal"]), ("styleUrl", [], ["#c%d" % (i + 1)])] + ([style(g, r)] if r.random() < .3 else []))]) for i in range(n)]
    kids.append(("Style", [("id", "c%d" % n)], style(g, r)[2]) if cyc is None else ("StyleMap", [("id", "c%d" % n)], [("Pair", [], [("key", [], ["normal"]), ("styleUrl", [], ["#c%d" % cyc])])]))
    if r.random() < .5: r.shuffle(kids)
    return ("Document", [("m", "d")], kids + [("Placemark", [("m", "p")], [("styleUrl", [], ["#c0"])])])
def relay_tree(g, r, ids, ref, ctr, feats):
    """shared styles that mostly refer on, and features that refer to other files"""
    def m(): ctr[0] += 1; return ("m", "k%d" % ctr[0])
    kids = []
    for i in ids:
        if r.random() < .4: kids.append(("Style", [("id", i)], [("LineStyle", [], [("width", [], [str(r.randint(1, 99))])])]))
        else: kids.append(("StyleMap", [("id", i)], [("Pair", [], [("key", [], [k]), ("styleUrl", [], [ref()])]) for k in r.choice([["normal"], ["normal", "highlight"], ["highlight", "normal"]])]))
    n = r.randint(1, 3) if feats else 0
    return ("Document", [m()], kids + [("Placemark", [m()], [("styleUrl", [], [ref()])]) for _ in range(n)])
@prop("C12")
def c12(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    base = "http://h.example/d/m.kml"
    graphs = [g.xml(to_xml(g, b)) for b in ctx.generate("MCStyle")]
    for x in (graphs if ctx.thorough else r.sample(graphs, min(len(graphs), 2500))): sc.append({"kind": "graph", "web": [[base, x]], "remote": False})
    for n in range(0, 9):
        for cyc in [None] + list(range(0, n + 1)):
            for rm in (False, True): sc.append({"kind": "chain", "web": [[base, g.doc(chain(g, r, n, cyc, [0]))]], "remote": rm})
    others = ["http://h.example/d/o.kml", "http://h.example/d/sub/s.kml", "http://k.example/r.kml", "http://z.example"]
    for _ in range(ctx.pick(900, 12000)):
        ids = ["a", "b", "c", "d"][:r.randint(2, 4)]
        def ref():
            k = r.random(); i = r.choice(ids)
            if k < .6: return "#" + i
            if k < .7: return r.choice(["#zz", "", "#", "a", "o.kml", "nope.kml#a", "http://none.example/x.kml#a"])
            return r.choice(["o.kml#", "sub/s.kml#", "m.kml#", "s.kml#", "http://h.example/d/o.kml#", "http://k.example/r.kml#", "r.kml#", "http://z.example#"]) + i
        web = [[base, g.doc(doc_tree(g, r, ids, ref, [0]))]]
        for u in others:
            if r.random() < .7: web.append([u, g.doc(doc_tree(g, r, ids, ref, [0], 1, (0, 1)))])
        sc.append({"kind": "web", "web": web, "remote": r.random() < .7})
    # the same names in several directories: a reference resolved against the wrong file finds another style
    places = [d + f for d in ("http://h.example/d/", "http://h.example/d/sub/", "http://h.example/d/sub/sub/", "http://k.example/") for f in ("m.kml", "o.kml")]
    for _ in range(ctx.pick(700, 8000)):
        ids = ["a", "b"]; ctr = [0]
        def far():
            k = r.random(); i = r.choice(ids)
            if k < .25: return "#" + i
            return r.choice(["o.kml#", "sub/o.kml#", "sub/m.kml#", "m.kml#", "http://k.example/o.kml#", "sub/sub/o.kml#"]) + i
        web = []
        for u in places:
            if u == base or r.random() < .7: web.append([u, g.doc(relay_tree(g, r, ids, far, ctr, u == base))])
        web.sort(key=lambda w: w[0] != base)
        sc.append({"kind": "relay", "web": web, "remote": True})
    ctx.run("resolve", "JStyle", sc, lambda s, r: {"id": r["id"], "web": r["web"], "remote": s["remote"], "ev": r["ev"]})
    return ctx.finish("graphs of three shared styles and style maps with every reference (sampled from all 17576, all in the thorough tier), chains and cycles of every length to 9, random webs of files with shared, inline, nested and remote styles; every feature in both states; non-trivial = distinct web",
                      ["style references are plain relative or absolute URLs without dot segments (URL resolution itself is C18)"])
def update(r, m, ref, sel):
    ops = []
    for _ in range(r.choice([1, 2, 2, 3])):
        k = r.random(); u, i = ("styleUrl", [], [ref()]), sel(True)
        kids = r.choice([[], [u], [i], [i], [u, i], [i, u]])
        if k < .45: ops.append(("Change", [], [("Placemark", [("targetId", "t"), m()], kids)]))
        elif k < .65: ops.append(("Delete", [], [("Placemark", [("targetId", "t"), m()], [])]))
        else: ops.append(("Create", [], [(r.choice(["Folder", "Document"]), [("targetId", "t"), m()], [("Placemark", [m()], kids) for _ in range(r.randint(0, 2))])]))
    return ("Update", [], [("targetHref", [], ["x"])] + ops)
def restyle_doc(g, r, ordered, op):
    """A document with shared styles before the features; with ordered, every
    local reference of a style or feature is to a style that precedes it."""
    ctr = [0]; defined = []
    def ref(styles=False):
        k = r.random()
        if k < .7 and defined: return "#" + r.choice(defined)
        if op == "inline" and styles and ordered: return r.choice(["#zz", ""])
        return r.choice(["#zz", "o.kml#a", "http://k.example/r.kml#b", "zz.kmz/doc.kml#a"] + ([] if ordered else ["#s%d" % r.randint(0, 6)]))
    def m(): ctr[0] += 1; return ("m", "k%d" % ctr[0])
    def sel(inline):
        if not inline or op == "split": return selector(g, r, lambda: ref(True), 2)
        return selector(g, r, lambda: "#zz", 1)
    def mix(kids, fs): # some of the fields after, or between, the features
        if r.random() < .6: return kids + fs
        a, b, out = list(kids), list(fs), []
        while a or b: out.append((a if a and (not b or r.random() < .5) else b).pop(0))
        return out
    def feat(depth, indoc):
        k = r.random(); kids = []
        if r.random() < .6: kids.append(("styleUrl", [], [ref()]))
        if r.random() < .5:
            for _ in range(r.choice([1, 1, 1, 2])):
                s = sel(True); kids.append((s[0], [("id", r.choice(["i0", "_0", "_1", "q"]))] if r.random() < .3 else [], s[2]))
        if r.random() < .3: r.shuffle(kids)
        if r.random() < .5: kids.insert(r.randint(0, len(kids)), ("name", [], ["n"]))
        if depth and k < .3: return ("Folder", [m()], mix(kids, [feat(depth - 1, indoc) for _ in range(r.randint(0, 3))]))
        if depth and k < .4: return doc(depth - 1)
        if k < .6: return ("gx:Tour", [m()], mix(kids, [("gx:Playlist", [], [("gx:AnimatedUpdate", [], [update(r, m, ref, sel)]) for _ in range(r.choice([1, 1, 2]))])]))
        return (r.choice(["Placemark", "GroundOverlay", "NetworkLink", "ScreenOverlay"]), [m()], kids)
    def doc(depth):
        kids = []
        for _ in range(r.randint(0, 4)):
            s = sel(False); n = "s%d" % len(defined)
            if op == "split" and r.random() < .3: n = "_%d" % r.randint(0, 3)
            if n in defined: continue
            kids.append((s[0], [("id", n)], s[2])); defined.append(n)
        if r.random() < .2: s = sel(False); kids.append((s[0], [], s[2]))
        fs = [feat(depth, True) for _ in range(r.randint(1, 4))]
        if not ordered: kids = kids + fs; r.shuffle(kids)
        else: kids += fs
        if r.random() < .2: kids.insert(0, ("styleUrl", [], ["o.kml#a"]))
        return ("Document", [m()], kids)
    d = doc(2); k = r.random()
    if k < .15: return ("kml", [], [("NetworkLinkControl", [], [update(r, m, ref, sel)]), d][:: r.choice([1, -1])])
    return ("kml", [], [d]) if k < .6 else d
@prop("C13")
def c13(ctx):
    r = ctx.rng; g = gen.Gen(r); g.style_noise = 0; sc = []
    for _ in range(ctx.pick(1200, 20000)):
        op = r.choice(["inline", "split"]); o = r.random() < .8
        sc.append({"kind": op + ("" if o else "-any order"), "x": g.doc(restyle_doc(g, r, o, op)), "op": op, "look": o or op == "split"})
    ctx.run("restyle", "JRestyle", sc, lambda s, r: {"id": r["id"], "before": r["before"], "look": s["look"], "ev": [r]})
    return ctx.finish("random documents with shared styles, style maps, inline styles, references and updates at several depths; non-trivial = distinct document and operation",
                      ["for inlining, references within shared styles are local and to styles that precede them, and inline style maps hold no references"])
