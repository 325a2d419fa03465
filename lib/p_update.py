"""C11: updates."""
import fw, gen
from p_dom import REG, prop
from p_clone import clean_src
def to_xml(g, x):
    if x["n"] == "#": return x["t"]
    return (x["n"], [tuple(a) for a in x["a"]], [to_xml(g, c) for c in x["c"]])
def marked(g, r, t, ctr, ids, parent=""):
    """Marks on every element, unique ids on some objects."""
    if isinstance(t, str): return t
    tag, at, kids = t
    if tag not in g.types: return t
    ty = g.tname(tag, parent); ctr[0] += 1; a = [("m", "k%d" % ctr[0])]
    if any(k == "id" for k, _ in g.types[ty]["attrs"]) and r.random() < .6: i = "i%d" % ctr[0]; ids.append((i, tag)); a.append(("id", i))
    return (tag, a, [marked(g, r, k, ctr, ids, ty) for k in kids])
def strip(g, t, keep=()):
    """Without attributes that would change ids or marks."""
    if isinstance(t, str): return t
    return (t[0], [a for a in t[1] if a[0] in keep], [strip(g, k, keep) for k in t[2]])
FEATURES = ["Placemark", "Folder", "Document", "NetworkLink", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "gx:Tour"]
def file_tree(g, r):
    def feat(d):
        tag = r.choice(FEATURES[:3] if d else FEATURES)
        t = g.elem(tag, "", 2 if r.random() < .6 else 1, fill=.15, noise=.1)
        kids = [k for k in t[2] if isinstance(k, str) or k[0] not in FEATURES + ["Schema"]]
        if tag in ("Folder", "Document") and d: kids += [feat(d - 1) for _ in range(r.randint(0, 3))]
        return (tag, t[1], kids)
    root = ("kml", [], [feat(3)]) if r.random() < .6 else ("Document", [], [feat(2) for _ in range(r.randint(1, 3))])
    ids = []; return marked(g, r, root, [0], ids), ids
def update_tree(g, r, ids, n=None):
    new = [0]
    def tid(pref=None):
        k = r.random()
        if k < .08 or not ids: return r.choice(["zz", "", "new1"])
        c = [i for i, t in ids if pref is None or t in pref]
        return r.choice(c) if c and r.random() < .85 else r.choice(ids)[0]
    def src(tag, id_):
        at = [("targetId", id_)] if r.random() < .95 else []
        return at
    ops = []
    for _ in range(n or (r.randint(1, 4) if r.random() < .93 else 14)):
        k = r.choice(["Create", "Change", "Delete"]); kids = []
        for _ in range(r.choice([1, 1, 2]) if r.random() < .95 else 9):
            if k == "Create":
                fs = []
                for _ in range(r.randint(0, 2)):
                    f = strip(g, g.elem(r.choice(FEATURES), "", 2, fill=.2, noise=0)); new[0] += 1
                    fs.append((f[0], [("id", r.choice(["new%d" % new[0], tid()]))] if r.random() < .6 else [], f[2]))
                extra = [("name", [], ["ignored"])] if r.random() < .3 else []
                kids.append((r.choice(["Folder", "Document"]), src("", tid(("Folder", "Document"))), extra + fs))
            elif k == "Delete": kids.append((r.choice(FEATURES), src("", tid(FEATURES)), [("name", [], ["x"])] if r.random() < .2 else []))
            else:
                i = tid(); same = [t for j, t in ids if j == i]
                tag = same[0] if same and r.random() < .95 else r.choice(FEATURES)
                t = clean_src(g, strip(g, g.elem(tag, "", 2, fill=.3, noise=0), ("maxLines", "x", "y", "xunits", "yunits")))
                if not same or tag != same[0]: t = (tag, [], [k for k in t[2] if not isinstance(k, str) and k[0] in ("name", "description", "visibility", "open")])
                kids.append((tag, src("", i), t[2]))
        ops.append((k, [], kids))
    return ("Update", [], [("targetHref", [], ["http://x.example/"])] + ops)
@prop("C11")
def c11(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    for b in ctx.generate("MCUpdate", ctx.pick("MCUpdate.cfg", "MCUpdate4.cfg")):
        x = g.xml(to_xml(g, b["doc"])); ops = [to_xml(g, o) for o in b["h"]]
        # as one update with several operations, or as one update each
        us = [("Update", [], [o]) for o in ops] if r.random() < .5 else [("Update", [], ops)]
        sc.append({"kind": "exhaustive", "x": x, "u": [g.xml(u) for u in us], "usemap": False, "map": []})
    if len(sc) > 30000: sc = r.sample(sc, 30000)
    for _ in range(ctx.pick(1200, 15000)):
        t, ids = file_tree(g, r); usemap = r.random() < .3; mp = []
        if usemap:
            # the update speaks of other ids
            real = [i for i, _ in ids]; r.shuffle(real)
            mp = [["u%d" % k, i] for k, i in enumerate(real) if r.random() < .8]; back = {}
            if ids and r.random() < .3: mp.append(["zz", real[0]])
            rev = {i: u for u, i in mp}
            uids = [(rev.get(i, i), tg) for i, tg in ids]
        else: uids = ids
        us = [update_tree(g, r, uids) for _ in range(r.randint(1, 3))]
        sc.append({"kind": "mapped" if usemap else "random", "x": g.doc(t), "u": [g.doc(u) for u in us], "usemap": usemap, "map": mp})
    ctx.run("update", "JUpdate", sc, lambda s, r: {"id": r["id"], "in": r["in"], "map": s["map"], "ev": r["ev"]})
    return ctx.finish("every history of the update model to its bound, as one update and as several, and random updates of random files with and without an id mapping; the whole document is compared after each update; non-trivial = distinct file and history",
                      ["ids are unique within the loaded file", "a change does not rename its target"])
