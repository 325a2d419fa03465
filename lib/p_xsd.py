"""C35: schema files."""
import fw, gen, vb
from p_dom import REG, prop
PRIMS = ["string", "boolean", "double", "int", "anyURI", "dateTime"]
def schema(r):
    px = r.choice(["kml", "k", "xs", "kml2"]); names = ["A", "B", "C", "D", "E"][:r.randint(1, 5)]; els = ["a", "b", "c", "d", "e", "A"][:r.randint(1, 6)]
    pre = lambda s: r.choice([px + ":", px + ":", px + ":", px + ":", px + ":", "", "o:", px, px + "2:"]) + s
    def typ(): return r.choice([pre(r.choice(names)), pre(r.choice(names)), r.choice(PRIMS), r.choice(PRIMS), pre("zz"), "", "Double"])
    def anno(): return [("annotation", [], [("documentation", [], ["text"])])] if r.random() < .1 else []
    def el(top, depth):
        k = r.random(); at = []
        if k < .75 or top: at.append(("name", r.choice(els)))
        elif k < .97: at.append(("ref", pre(r.choice(els + ["zz"]))))
        if k < .75 or top:
            if r.random() < .85: at.append(("type", typ()))
            if r.random() < .25: at.append(("abstract", r.choice(["true", "false", "1", "0"])))
            if r.random() < .2: at.append(("default", r.choice(["0", "1", "x y", ""])))
            if r.random() < .2: at.append(("substitutionGroup", pre(r.choice(els))))
        if r.random() < .2: at.append(("minOccurs", "0"))
        r.shuffle(at); kids = anno()
        if depth and r.random() < .15: kids.append(ctype(None, depth - 1) if r.random() < .6 else stype(None))
        return ("element", at, kids)
    def group(depth):
        ks = [el(False, depth) if r.random() < .9 or not depth else group(depth - 1) for _ in range(r.randint(0, 4))]
        return (r.choice(["sequence", "sequence", "choice", "all"]), [], ks)
    def ctype(name, depth):
        at = [("name", name)] if name else []; body = anno(); k = r.random()
        if k < .45: body.append(("complexContent", [], [("extension", [("base", pre(r.choice(names)))] if r.random() < .95 else [], [group(depth)] * r.randint(0, 1))]))
        elif k < .55: body.append(("simpleContent", [], [(r.choice(["restriction", "extension"]), [("base", typ())], [])]))
        elif k < .9: body.append(group(depth))
        if r.random() < .2: body.append(("attribute", [("name", "id")], [stype(None)] if depth and r.random() < .4 else []))
        return ("complexType", at, body)
    def stype(name):
        at = [("name", name)] if name else []
        return ("simpleType", at, [("restriction", [("base", r.choice(["string", "string", "double"]))], [(r.choice(["enumeration", "enumeration", "minInclusive"]), [("value", r.choice(["x", "y", "0"]))] if r.random() < .95 else [], []) for _ in range(r.randint(0, 3))])] if r.random() < .9 else [("list", [], [stype(None)] if r.random() < .5 else [])])
    kids = [el(True, 2) for _ in range(r.randint(0, 7))] + [ctype(n, 2) if r.random() < .75 else stype(n) for n in names if r.random() < .9]
    if r.random() < .1: kids.append(ctype(r.choice(names), 1))
    r.shuffle(kids)
    ns = "http://n/%s" % r.choice("12"); at = [("xmlns", "http://www.w3.org/2001/XMLSchema")]
    if r.random() < .96: at.append(("xmlns:" + px, ns if r.random() < .97 else "http://other"))
    if r.random() < .3: at.append(("xmlns:o", "http://o"))
    if r.random() < .96: at.append(("targetNamespace", ns if r.random() < .97 else ""))
    r.shuffle(at)
    return (("schema", at, anno() + kids) if r.random() < .97 else (r.choice(["element", "complexType", "kml", "simpleType"]), [("name", "a")] if r.random() < .5 else [], kids)), names, els, px
@prop("C35")
def c35(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    ctx.model("MCXsd", ctx.pick("MCXsd.cfg", "MCXsdX.cfg"))
    for _ in range(ctx.pick(2500, 30000)):
        t, names, els, px = schema(r); x = fw.lat(g.xml(t))
        if r.random() < .03: x = x[:r.randint(0, len(x) - 1)]
        lines = [[r.choice(["alias", "alias", "#", "x"])] + [r.choice(els + names) for _ in range(r.choice([2, 2, 2, 1, 3, 0]))] for _ in range(r.randint(0, 4))]
        qs = [["schema", ""], ["elements", ""], ["types", ""], ["ids", ""]]
        for n in els + ["zz", ""]: qs += [["element", n], ["children", n]]
        for n in names + ["zz"]: qs += [["type", n], ["base", n], ["hier", n], ["oftype", n]]
        for _ in range(4): qs.append(["ref", r.choice([px + ":", px + ":", "", "o:", px + "2:", px]) + r.choice(els + [""])])
        for _ in range(3): qs.append(["alias", r.choice(els + names)])
        sc.append({"kind": "schema", "x": x, "xst": "".join(" ".join(l) + "\n" for l in lines), "lines": lines, "qs": qs})
    # long chains of types, long and repeating sequences
    for n in [5, 9, 12, 20, 40] * ctx.pick(6, 40):
        names = ["T%d" % i for i in range(n)]; els = ["e%d" % i for i in range(n)]; kids = []
        ref = lambda i: ("element", [("ref", "k:e%d" % i)], [])
        for i in range(n):
            seq = [ref(r.randrange(n)) for _ in range(r.choice([0, 2, 2, 3, n]))]; seq = [q for q in seq for _ in range(r.choice([1, 1, 1, 2, 3]))]
            kids.append(("complexType", [("name", names[i])], [("complexContent", [], [("extension", [("base", "k:T%d" % (i - 1 if r.random() < .97 else r.randrange(n)))], [("sequence", [], seq)])]) if i else ("sequence", [], seq)]))
            kids.append(("element", [("name", els[i]), ("type", r.choice(["k:T%d" % i, "string"] if r.random() < .2 else ["k:T%d" % i]))], []))
        if r.random() < .5: kids.reverse()
        q2 = r.sample(range(n), min(n, 6)) + [n - 1]
        sc.append({"kind": "long schema", "x": g.xml(("schema", [("xmlns", "http://www.w3.org/2001/XMLSchema"), ("xmlns:k", "http://n/1"), ("targetNamespace", "http://n/1")], kids)), "xst": "", "lines": [],
                   "qs": [["elements", ""], ["types", ""], ["ids", ""]] + [[q, "T%d" % i] for i in q2 for q in ("type", "base", "hier", "oftype")] + [[q, "e%d" % i] for i in q2 for q in ("element", "children")]})
    # schemas made by calls, answered for as the document that says the same
    for _ in range(ctx.pick(500, 6000)):
        px = r.choice(["k", "kml", "xs"]); names = ["A", "B", "C", "D"][:r.randint(1, 4)]; els = ["a", "b", "c"][:r.randint(1, 3)]; ns = "http://n/%d" % r.randint(1, 2)
        pre = lambda s: r.choice([px + ":"] * 5 + ["", "o:"]) + s
        typ = lambda: r.choice([pre(r.choice(names)), r.choice(PRIMS), pre("zz")])
        calls = [["schema", px, ns]]; kids = []
        for _ in range(r.randint(0, 9)):
            if r.random() < .5: n, t = r.choice(els), typ(); calls.append(["element", n, t]); kids.append(("element", [("name", n), ("type", t)], []))
            else:
                n, b, q = r.choice(names), r.choice(["", pre(r.choice(names))]), [[r.choice(els), typ()] for _ in range(r.randint(0, 3))]; calls.append(["type", n, b, q])
                seq = ("sequence", [], [("element", [("name", a), ("type", c)], []) for a, c in q])
                kids.append(("complexType", [("name", n)], [("complexContent", [], [("extension", [("base", b)], [seq])]) if b else seq]))
        if r.random() < .3: calls = calls[1:] + calls[:1]
        qs = [["schema", ""], ["elements", ""], ["types", ""], ["ids", ""]] + [[q, n] for n in els + ["zz"] for q in ("element", "children")] + [[q, n] for n in names for q in ("type", "base", "hier", "oftype")] + [["ref", px + ":" + r.choice(els)]]
        sc.append({"kind": "calls", "x": fw.lat(g.xml(("schema", [("xmlns:" + px, ns), ("targetNamespace", ns)], kids))), "xst": "", "lines": [], "qs": qs, "calls": calls})
    import os
    x = open(os.path.join(vb.REPO, "testdata/xsd/kml21.xsd"), encoding="latin1").read()
    import re
    en, tn = sorted(set(re.findall(r'element name="(\w+)"', x))), sorted(set(re.findall(r'Type name="(\w+)"', x)))
    sc.append({"kind": "kml21", "x": x, "xst": "", "lines": [], "qs": [["schema", ""], ["elements", ""], ["types", ""], ["ids", ""]] + [[q, n] for n in en for q in ("element", "children")] + [[q, n] for n in tn for q in ("type", "base", "hier", "oftype")]})
    ctx.run("xsd", "JXsd", sc, lambda s, r: {"id": r["id"], "doc": r["doc"], "xst": s["lines"], "ev": r["ev"]})
    return ctx.finish("random schemas of elements, references, named and anonymous types with extension chains and cycles, other prefixes, missing namespaces, schemas made by calls, and the KML 2.1 schema, with every question; non-trivial = distinct schema", ["the XML Schema namespace is the default one", "types that are named are children of the schema"])
