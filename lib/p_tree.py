"""C07: histories of attaching and removing elements."""
import fw, gen
from p_dom import REG, prop
COORD = ("Point", "LineString", "LinearRing", "gx:LatLonQuad")
def api_slots(g, ty):
    if ty == "coordinates": return []
    out = [(sl["n"], sl["k"] == "m", sorted(sl["ts"] - {"Url"}) if isinstance(sl["ts"], set) else sorted(set(sl["ts"]) - {"Url"}))
           for sl in g.types[ty]["slots"] if sl["k"] in "em"]
    if ty in COORD: out.append(("coordinates", False, ["coordinates"]))
    if ty == "IconStyle": out = [(n, m, ["IconStyleIcon"] if n == "Icon" else t) for n, m, t in out]
    return out
def op(k, p, slot="", multi=False, c=0, i=0, id=""): return {"k": k, "p": p, "slot": slot, "multi": multi, "c": c, "i": i, "id": id}
DEL = {"Feature": ("Document", "Folder"), "Schema": ("Document",), "StyleSelector": ("Document",)}
def random_history(g, r, objects, focus=None):
    """A pool around one parent type, and a random history on it."""
    parents = [t for t in g.types if api_slots(g, t)]
    ty = [focus or r.choice(parents)]
    ty.append(ty[0])
    for _ in range(r.randint(2, 8)):
        p = r.choice(ty); sl = api_slots(g, p)
        if sl: ty.append(r.choice(r.choice(sl)[2]))
    for n, m, ts in (api_slots(g, ty[0]) if r.random() < .5 else []): ty.append(r.choice(ts))
    pool = ["", "a", "b", "a"]
    ids = [r.choice(pool) if t in objects else "" for t in ty]
    par = [0] * (len(ty) + 1); ops = []; n = len(ty); held = {}
    def above(p):
        s = set()
        while p: s.add(p); p = par[p]
        return s
    infile = r.random() < .2
    for _ in range(r.randint(4, 24)):
        if infile and r.random() < .3: ops.append(op("file", r.randint(1, n), "coordinates", i=r.choice([1, 1, 1, 2, 0]))); continue
        p = r.randint(1, n); sl = api_slots(g, ty[p - 1])
        if r.random() < .5: p = r.randint(1, 2); sl = api_slots(g, ty[p - 1])
        if not sl: continue
        name, multi, ts = r.choice(sl)
        k = r.random()
        cs = [c for c in range(1, n + 1) if ty[c - 1] in ts and c not in above(p)]
        if k < .65 and cs:
            c = r.choice(cs); ops.append(op("add" if multi else "set", p, name, multi, c))
            if not par[c]: par[c] = p
        elif k < .72: ops.append(op("null", p, name, multi))
        elif k < .85 and not multi: ops.append(op("clear", p, name))
        elif multi and ty[p - 1] in DEL.get(name, ()):
            if name == "Feature" and r.random() < .5: ops.append(op("delid", p, name, True, id=r.choice(["a", "b", "", "zz"])))
            else: ops.append(op("delat", p, name, True, i=r.choice([0, 0, 1, 2, 5])))
    return {"kind": "random", "ty": ty, "ids": ids, "ops": ops} if ops else None
def long_history(r):
    """Many children of one container."""
    n = r.choice([15, 40]); kind = r.choice(["Feature", "Feature", "StyleSelector", "Schema"])
    ty = ["Document"] + [{"Feature": "Placemark", "StyleSelector": "Style", "Schema": "Schema"}[kind]] * n; ids = [""] + [r.choice(["i%d" % i, "i%d" % i, "i%d" % r.randrange(n), ""]) for i in range(n)]
    order = list(range(2, n + 2)); r.shuffle(order); ops = [op("add", 1, kind, True, c) for c in order]
    for _ in range(8): ops.append(op("delid", 1, kind, True, id=r.choice(["i%d" % r.randrange(n), "", "zz"])) if kind == "Feature" and r.random() < .6 else op("delat", 1, kind, True, i=r.randrange(n + 2)))
    return {"kind": "long", "ty": ty, "ids": ids, "ops": ops}
def objects_of(g):
    """Types that take an id: those with an id attribute in the vocabulary."""
    return {t for t, v in g.types.items() if any(k == "id" for k, _ in v["attrs"])} - {"Schema"} | {"Schema"}
def tree_wrap(s, r): return {"id": r["id"], "ty": s["ty"], "ids": s["ids"], "ev": r["ev"]}
@prop("C07")
def c07(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []; ob = objects_of(g)
    for pool in "abcdef":
        beh = ctx.generate("MCTree", ctx.pick("MCTree.cfg", "MCTree6.cfg"), env={"POOL": pool})
        tr = []
        for b in beh:
            sc.append({"kind": "exhaustive-refused", "ty": b["ty"], "ids": b["ids"], "ops": b["h"] + b["noop"]})
            tr += [(b, o) for o in b["next"]]
        if len(tr) > ctx.pick(1500, 40000): tr = r.sample(tr, ctx.pick(1500, 40000))
        for b, o in tr: sc.append({"kind": "exhaustive-next", "ty": b["ty"], "ids": b["ids"], "ops": b["h"] + [o]})
    sc = [s for s in sc if s["ops"]]
    parents = [t for t in g.types if api_slots(g, t)]
    for _ in range(ctx.pick(12, 120)):
        for t in parents: sc.append(random_history(g, r, ob, t))
    sc = [s for s in sc if s] + [long_history(r) for _ in range(ctx.pick(30, 300))]
    ctx.run("tree", "JTree", sc, tree_wrap)
    return ctx.finish("every arrangement reachable in the pools of the tree model with every refused operation, transitions between them, and random histories for every parent type; non-trivial = distinct history",
                      ["no element is placed below itself (the caller's obligation)"], exhaustive=False)
