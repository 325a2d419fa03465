"""C40: schemas by name and their instances."""
import fw, gen
from p_dom import REG, prop
def xml(t):
    """A plain text of a tree: no comments, no empty-element tags."""
    if isinstance(t, str): return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    tag, at, kids = t
    return "<%s%s>%s</%s>" % (tag, "".join(' %s="%s"' % (k, v.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;").replace(">", "&gt;")) for k, v in at), "".join(map(xml, kids)), tag)
@prop("C40")
def c40(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    NAMES = ["S", "S_parks_S", "Sx", "s", "ns:S", "S.1", "T", "Placemark", "name", "q"]
    def inst(d=2):
        at = [("id", "i%d" % r.randint(1, 99))] if r.random() < .3 else []
        if r.random() < .15: at.append(("unk", r.choice(["a>b", "x y", "&", "é"])))
        kids = []
        for _ in range(r.choice([0, 1, 2, 3, 3, 12])):
            k = r.random()
            if k < .25: kids.append(("name", [], [g.string() or "n"]))
            elif k < .4: kids.append(("Point", [], [("coordinates", [], ["%d,%d" % (r.randint(-9, 9), r.randint(-9, 9))])]))
            elif k < .6: kids.append((r.choice(["NAME", "q", "F1"]), [("at", "1")] if r.random() < .2 else [], r.choice([["v"], [], ["a&b"], ["a ", ("b", [], ["c"])]])))
            elif k < .7: kids.append(("description", [], r.choice([["d"], ["a", ("b", [], ["c"]), "<"], []])))
            elif k < .8: kids.append(("visibility", [], [r.choice(["0", "1"])]))
            elif k < .9 and d: kids.append(inst(d - 1))
            else: kids.append("text ")
        return (r.choice(NAMES[:7] + NAMES[:3]), at, kids)
    def schema():
        at = ([("name", r.choice(NAMES))] if r.random() < .9 else []) + ([("parent", "Placemark")] if r.random() < .1 else []) + ([("id", "s%d" % r.randint(1, 9))] if r.random() < .4 else [])
        r.shuffle(at)
        return ("Schema", at, [("SimpleField", [("type", "string"), ("name", n)], []) for n in r.sample(["NAME", "F1", "zz"], r.randint(0, 2))])
    def cont(d, root=False):
        kids = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6]) if r.random() < .98 else 30):
            k = r.random()
            if k < .25: kids.append(schema())
            elif k < .6: kids.append(inst())
            elif k < .75 and d: kids.append(cont(d - 1))
            elif k < .85: kids.append(("Placemark", [], [("name", [], ["p"])] + ([inst()] if r.random() < .3 else [])))
            elif k < .9: kids.append(("Unk", [], [inst()]))
            elif k < .93: kids.append(("Style", [("id", "st")], [schema()] if r.random() < .3 else []))
            else: kids.append(("name", [], ["c"]))
        return (r.choice(["Document", "Document", "Folder"]), [], kids)
    BAD = ["", "<", ">", "<>", "</>", "<S", "<S>", "S", "</S>", "<S></S", " <S></S>x<", "<S/><S>", "<S a='1'", "<S", "x<S></S>", "<S></T>"]
    for _ in range(ctx.pick(1500, 30000)):
        t = cont(3); t = ("kml", [], [t]) if r.random() < .8 else t
        ts = [xml(inst()) + r.choice(["", "\n"]) for _ in range(r.randint(1, 4))]
        if r.random() < .3: ts.append(r.choice(BAD))
        if r.random() < .2: ts.append(xml(("Folder", [], [inst()])))
        sc.append({"kind": "schema instances", "x": fw.lat(xml(t)), "t": [fw.lat(q) for q in ts]})
    ctx.run("oldschema", "JSchema", sc, lambda s, q: {"id": q["id"], "ev": q["ev"]})
    return ctx.finish("random trees of containers with schemas (same names, without names, in several documents, with a parent) and instances of them at every level, with attributes, nested instances, markup and text; texts of single instances, others and malformed ones; non-trivial = distinct document",
                      ["a text that is converted is one element with a start and an end tag of the plain form", "the conversion of instances within a parse concerns containers below the root element"])
