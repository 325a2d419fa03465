"""C19: entities."""
import itertools
import fw, gen
from p_dom import REG, prop
def feature_doc(g, r):
    ctr = [0]; vals = ["v", "", "two words", "<b>m</b>", "a & b", "$[name]", "x$[id]y", "$[", "]", "[$]", "$$[id]", "10"]
    names = ["k", "j", "name", "id", "k/displayName", "long name", "A", "S/f1", "$"]
    def v(): return r.choice(vals) if r.random() < .8 else g.string()
    def leaf(n, s): return (n, [], [s] if s else [])
    def ref(): return "$[%s]" % r.choice(["name", "id", "targetId", "description", "Snippet", "address", "k", "j", "k/displayName", "zz", "S/f1", "S/f2", "S/f1/displayName", "/f1", "T/f1", "", " name", "Name"])
    def tmpl(): return "".join(r.choice([ref, ref, ref, lambda: r.choice([" ", "a", "$", "[", "]", "$[", "text", "$[na", "me]"])])() for _ in range(r.randint(0, 6)))
    def schema():
        at = []
        if r.random() < .9: at.append(("name", r.choice(["S", "T", "", "S T"])))
        if r.random() < .9: at.append(("id", r.choice(["s", "t", "u"])))
        return ("Schema", at, [("SimpleField", ([("name", r.choice(["f1", "f2", "f3", "f4", "f5", "f9"][:r.choice([3, 3, 6])]))] if r.random() < .95 else []) + [("type", "int")], [leaf("displayName", v())] if r.random() < .5 else []) for _ in range(r.randint(0, 3) if r.random() < .94 else 14)])
    def ext():
        ks = []
        for _ in range(r.choice([0, 1, 2, 3]) if r.random() < .94 else 14):
            ks.append(("Data", [("name", r.choice(names))] if r.random() < .95 else [], ([leaf("displayName", v())] if r.random() < .4 else []) + ([leaf("value", v())] if r.random() < .9 else [])))
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            ks.append(("SchemaData", [("schemaUrl", r.choice(["#s", "#s", "#t", "#u", "#zz", "s", "#", "#q"]))] if r.random() < .9 else [],
                       [("SimpleData", [("name", r.choice(["f1", "f2", "f3", "f9"]))], [v()] if r.random() < .9 else []) for _ in range(r.randint(0, 3) if r.random() < .94 else 14)]))
        if r.random() < .2: r.shuffle(ks)
        return ("ExtendedData", [], ks)
    def bstyle(): return ("Style", [], [("BalloonStyle", [], [leaf("text", tmpl())] if r.random() < .8 else [leaf("textColor", "ff00ff00")])] if r.random() < .8 else [])
    def feat(d):
        ctr[0] += 1; at = [("m", "k%d" % ctr[0])]; ks = []
        if r.random() < .5: at.append(("id", r.choice(["p", "q", "p%d" % ctr[0]])))
        if r.random() < .2: at.append(("targetId", "tt"))
        for n, p in (("name", .6), ("address", .3), ("Snippet", .3), ("description", .5), ("phoneNumber", .1)):
            if r.random() < p: ks.append(leaf(n, v() if n != "description" or r.random() < .4 else tmpl()))
        if r.random() < .3: ks.append(leaf("styleUrl", r.choice(["#b1", "#b2", "#zz"])))
        if r.random() < .25: ks.append(bstyle())
        if r.random() < .7: ks.append(ext())
        if r.random() < .2: r.shuffle(ks)
        if d and r.random() < .3: return ("Folder", at, ks + [feat(d - 1) for _ in range(r.randint(1, 2))])
        return (r.choice(["Placemark", "Placemark", "Placemark", "NetworkLink", "GroundOverlay", "PhotoOverlay", "ScreenOverlay"]), at, ks)
    if r.random() < .05: return feat(0), [tmpl() for _ in range(2)]
    ks = [schema() for _ in range(r.randint(0, 3))]
    if r.random() < .4: ks.append(("Style", [("id", "b1")], bstyle()[2]))
    if r.random() < .3: ks.append(("StyleMap", [("id", "b2")], [("Pair", [], [leaf("key", "normal"), leaf("styleUrl", "#b1")])]))
    ks += [feat(1) for _ in range(r.randint(1, 3))]
    if r.random() < .3: r.shuffle(ks)
    d = ("Document", [("m", "d")] + ([("id", "doc")] if r.random() < .3 else []), ks)
    return (("kml", [], [d]) if r.random() < .5 else d), [tmpl() for _ in range(3)]
@prop("C19")
def c19(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    ctx.model("MCExpand")
    maps = [[["a", "1"]], [["a", ""]], [["a", "$[a]"]], [["a", "xa"]], [["a", "1"], ["b", "$[a]"]], [["a", "$[b]"], ["b", "2"]], [["a", "12345678"], ["b", "9"]], [["a", "$["], ["b", "]"]], [["", "e"], ["a", "1"]], []]
    toks = ["$[a]", "$[b]", "$[", "]", "a", "$[z]"]
    for m in maps:
        for n in range(0, ctx.pick(4, 5) + 1):
            for c in itertools.product(toks, repeat=n): sc.append({"kind": "expansion", "t": "".join(c), "map": m, "a": "$[", "b": "]"})
    if not ctx.thorough: sc = r.sample(sc, min(len(sc), 6000))
    for _ in range(ctx.pick(1000, 10000)):
        a, b = r.choice([("{", "}"), ("<<", ">>"), ("$[", "]"), ("%", "%"), ("{", "")])
        ks = r.sample(["k", "key", "q", "w w"] if b else ["k", "q", "z"], r.randint(0, 3))
        sc.append({"kind": "expansion", "t": "".join(r.choice([a, b, "k", "key", "q", a + "k" + b, a + "q" + b, a + "key" + b, " ", "--"]) for _ in range(r.randint(0, 8) if r.random() < .95 else r.choice([40, 150]))),
                   "map": [[k, r.choice(["", "v", k, a + k + b, a + "q" + b, "long value of it", "x" * 300])] for k in ks], "a": a, "b": b})
    ctx.run("expand", "JEntity", sc)
    sc = []
    for _ in range(ctx.pick(1500, 20000)):
        x, ts = feature_doc(g, r); sc.append({"kind": "features", "x": g.doc(x), "ts": [fw.lat(t) for t in ts]})
    ctx.run("entity", "JEntity", sc, lambda s, r: {"id": r["id"], "doc": r["doc"], "ts": r["ts"], "ev": r["ev"]})
    return ctx.finish("texts of up to %d references, markers and plain text over ten value maps (values that hold references, markers, nothing, their own key), random markers; random documents with schemas, typed and untyped data and balloon styles, every feature; non-trivial = distinct text and map or document" % ctx.pick(4, 5),
                      ["no entity name contains the end marker", "schemas are referred to within the same file"])
