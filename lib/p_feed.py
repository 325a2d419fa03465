"""C30 track points, C33 feeds and sessions, C34 namespace-aware parsing."""
import fw, gen
from p_dom import REG, prop
@prop("C30")
def c30(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    num = lambda: r.choice(["0", "1", "-33.911973070", "18.422974152", "180", "-90.5", "4.943848", "1000", "0.001"])
    bad = lambda: r.choice(["", "x", "abc", "-", "."])
    def kid(d=1):
        k = r.random()
        if k < .35: return ("ele", [], [num()] if r.random() < .8 else [bad()])
        if k < .7: return ("time", [], [r.choice(["2008-10-11T14:55:41Z", "2010-01-01T00:00:00Z", "", "t&<>", "a b"])])
        if k < .85 or not d: return (r.choice(["name", "sym", "fix", "hdop"]), [], [r.choice(["x", "7", "2008-10-11T14:55:41Z", ""])])
        return ("extensions", [], [kid(0) for _ in range(r.randint(0, 2))])
    def pt():
        at = []
        if r.random() < .85: at.append(("lat", num() if r.random() < .85 else bad()))
        if r.random() < .85: at.append(("lon", num() if r.random() < .85 else bad()))
        if r.random() < .2: at.append((r.choice(["id", "elat", "Lat"]), num()))
        r.shuffle(at)
        return ("trkpt", at, sum(([kid(), r.choice(["", "\n ", "12", " t "])] for _ in range(r.choice([0, 1, 2, 2, 3, 5]))), []))
    def seg(): return ("trkseg", [], sum(([r.choice([pt(), pt(), pt(), pt(), ("time", [], ["2001-01-01T00:00:00Z"]), ("ele", [], ["99"]), ("wpt", [("lat", "1"), ("lon", "2")], [kid()])]), r.choice(["", "\n"])] for _ in range(r.randint(0, 7))), []))
    for _ in range(ctx.pick(3000, 40000)):
        t = ("gpx", [], [("metadata", [], [("time", [], ["2000-01-01T00:00:00Z"])])] * r.randint(0, 1) + [("trk", [], [("name", [], ["n"])] + [seg() for _ in range(r.randint(0, 3))]) for _ in range(r.randint(0, 2))] + ([seg()] if r.random() < .5 else []))
        x = X(g, t); piece = r.choice([0, 0, 0, 1, 7, 64])
        if r.random() < .05: x = x[:r.randint(0, len(x))]
        sc.append({"kind": "gpx" if not piece else "gpx in pieces", "x": x, "piece": piece})
    ctx.run("gpx", "JGpx", sc, lambda s, r: {"id": r["id"], "ev": [r]})
    return ctx.finish("random GPX documents of points with and without each part, other elements of the same names around them, malformed numbers, whole and in pieces; non-trivial = distinct document", ["an attribute that begins with a number is a number", "points are not nested"])

def core(t, keep=()):
    """without the elements of extension namespaces"""
    n, a, c = t
    return (n, [x for x in a if ":" not in x[0]], [core(k, keep) if isinstance(k, tuple) else k for k in c if not isinstance(k, tuple) or ":" not in k[0]])
def X(g, t): return fw.lat(g.xml(t))
def NX(g, r, t): return fw.lat(Ns(g, r).xml(t))
class Ns:
    """writes a tree with chosen prefixes for the KML and Atom namespaces"""
    def __init__(self, g, r):
        self.g, self.r = g, r
        self.k, self.a = r.choice([("", "atom"), ("k", ""), ("", "a"), ("kml", "atom"), ("x", "y"), ("atom", "kml"), ("k", "atom")])
        self.local = r.random() < .3          # declare where used instead of at the root
        self.style = r.random()
    def name(self, n):
        p, l = ("a", n[5:]) if n.startswith("atom:") else ("k", n) if not n.startswith("gd:") else ("g", n[3:])
        q = self.k if p == "k" else self.a if p == "a" else "gd"
        return (q + ":" if q else "") + l, p
    URI = {"k": "http://www.opengis.net/kml/2.2", "a": "http://www.w3.org/2005/Atom", "g": "http://schemas.google.com/g/2005"}
    def decl(self, p):
        q = self.k if p == "k" else self.a if p == "a" else "gd"
        return ' xmlns%s="%s"' % (":" + q if q else "", self.URI[p])
    def xml(self, t, root=True, have=()):
        n, a, c = t; nm, p = self.name(n); d = ""
        if root and not self.local:
            for q in "kag":
                # two default namespaces cannot both be declared at the root
                if not (q == "k" and self.k == "" and self.a == ""): d += self.decl(q); have = have + (q,)
        elif p not in have: d += self.decl(p); have = have + (p,)
        at = "".join(' %s="%s"' % (k, self.g.esc(v, True)) for k, v in a)
        body = "".join(self.xml(k, False, have) if isinstance(k, tuple) else self.g.esc(k) for k in c)
        return "<%s%s%s>%s</%s>" % (nm, d, at, body, nm)
def norms(t):
    n, a, c = t
    return (n, a, [norms(k) if isinstance(k, tuple) else k for k in c])
def feature(g, r, depth=2):
    k = r.random()
    if k < .6: t = core(g.elem("Placemark", "", depth, .25, 0))
    elif k < .8: t = ("Folder", [], [("name", [], ["f"])] * r.randint(0, 1) + [feature(g, r, 1) for _ in range(r.randint(0, 3))])
    else: t = core(g.elem(r.choice(["GroundOverlay", "NetworkLink", "Document", "ScreenOverlay"]), "", depth, .2, 0))
    if r.random() < .2: t = (t[0], t[1], [("atom:link", [("href", "http://old/%d" % r.randint(0, 9))] + ([("rel", "self")] if r.random() < .5 else []), [])] + t[2])
    return t
RELS = ["self", "next", "alternate", "http://x.com/y#self", "http://schemas.google.com/g/2005#post", "selfish", "#next", "", "edit"]
def mkfeed(g, r, n, kml, dup=False):
    def links(): return [[r.choice(RELS), r.choice(["", "text/html", "application/atom+xml"]), "(none)" if r.random() < .1 else "http://h/%d?a=1&b=%d" % (r.randint(0, 9), r.randint(0, 99))] for _ in range(r.choice([0, 0, 0, 1, 1, 2, 2, 4, 4, 9]))]
    def cats(): return [["(none)" if r.random() < .2 else r.choice(["http://s#kind", "kind", "http://s", "x"]), "t%d" % r.randint(0, 9)] for _ in range(r.choice([0, 0, 0, 1, 1, 3, 3, 9]))]
    es = []
    for _ in range(n):
        f = 0
        if kml and r.random() < .75: f = r.randint(1, len(kml))
        es.append({"title": r.choice(["a", "b", "", "A", "x & y"]), "links": links(), "cats": cats(), "src": ["http://m/feeds/%d/full" % r.randint(0, 9)] if r.random() < .4 else ["noslash"] if r.random() < .2 else [], "res": ["document:%d" % r.randint(0, 99)] if r.random() < .4 else [], "f": f})
    return {"links": links(), "cats": cats(), "entries": es}
def common(e):
    return [("atom:link", [(k, v) for k, v in (("rel", l[0]), ("type", l[1]), ("href", l[2])) if v != "(none)" and (v != "" or k == "href")], []) for l in e["links"]] + \
           [("atom:category", [(k, v) for k, v in (("scheme", c[0]), ("term", c[1])) if v != "(none)"], []) for c in e["cats"]]
def entry(e, kml, r):
    ks = [("atom:title", [], [e["title"]] if e["title"] else [])] + common(e)
    if e["src"] or e["f"]: ks.append(("atom:content", [("src", s) for s in e["src"]], [kml[e["f"] - 1]] if e["f"] else []))
    if e["res"]: ks.append(("gd:resourceId", [], e["res"]))
    o = list(ks); r.shuffle(ks)
    for n in ("atom:link", "atom:category"):   # in any order, but each kind in its own
        q = iter([k for k in o if k[0] == n]); ks = [next(q) if k[0] == n else k for k in ks]
    return ("atom:entry", [], ks)
def feedtree(f, kml, r): return ("atom:feed", [], [("atom:title", [], ["feed"])] + common(f) + [entry(e, kml, r) for e in f["entries"]])
@prop("C33")
def c33(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    for _ in range(ctx.pick(1500, 20000)):
        kml = [feature(g, r) if r.random() < .9 else core(g.elem(r.choice(["Point", "Style", "Region"]), "", 1, .3, 0)) for _ in range(r.randint(0, 4))]
        f = mkfeed(g, r, r.choice([0, 1, 1, 2, 2, 3, 3, 6, 6, 14]), kml); n = len(f["entries"]); ops = []
        for _ in range(r.randint(3, 10)):
            e = r.randint(0, n)
            op = r.choice(["features", "features", "mapkml", "rel", "rel", "link", "cat", "title"] + (["src", "search", "kmluri", "res", "feature", "clone", "clone"] if n else []) + ["entry", "basic"])
            ei = r.randint(1, n) if n else 0
            if op in ("features", "mapkml"): ops.append([op])
            elif op == "rel": ops.append([op, e, r.choice(RELS + ["lf"])])
            elif op == "link": ops.append([op, e, r.choice(RELS), r.choice(["", "text/html", "application/atom+xml"])])
            elif op == "cat": ops.append([op, e, r.choice(["kind", "#kind", "http://s", ""])])
            elif op == "title": ops.append([op, r.choice(["a", "b", "", "A", "x & y", "zz"])])
            elif op == "entry": ops.append([op, 0, X(g, norms(feature(g, r)))])
            elif op == "basic": ops.append([op, 0, r.choice(["t", "", "<&>"]), r.choice(["s", "", "a\"b"]), r.choice(["text/html", ""])])
            else: ops.append([op, ei])
        sc.append({"kind": "feed", "x": NX(g, r, feedtree(f, kml, r)), "ops": ops, "kml": [X(g, k) for k in kml], "feed": f})
    ctx.run("feed", "JFeeds", sc, lambda s, r: {"id": r["id"], "feed": s["feed"], "kml": r.get("kml", []), "ev": r["ev"]})
    META = {"maps": "http://maps.google.com/maps/feeds/maps/default/full", "docs": "http://docs.google.com/feeds/default/private/full", "pic": "http://picasaweb.google.com/data/feed/api/user/default", "sheets": "http://spreadsheets.google.com/feeds/spreadsheets/private/full"}
    sd = []
    for _ in range(ctx.pick(1500, 20000)):
        svc = r.choice(["maps", "maps", "maps", "docs", "pic", "sheets", "none"]); kml = [feature(g, r, 1) for _ in range(r.randint(0, 3))]; feeds = []; web = []; uris = []
        def page(u, nx=None):
            f = mkfeed(g, r, r.choice([0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 12]), kml); f["links"] = [l for l in f["links"] if not l[0].endswith("next")] + ([["next", "", nx]] if nx else [])
            feeds.append(f); return [u, r.random() < .9, NX(g, r, feedtree(f, kml, r)), len(feeds)]
        chain = r.randint(1, 4)
        for i in range(chain): web.append(page("http://f/%d" % i, "http://f/%d" % (i + 1) if i + 1 < chain or r.random() < .2 else None)); uris.append("http://f/%d" % i)
        if r.random() < .8 and svc != "none": web.append(page(META[svc]) if r.random() < .6 else [META[svc], r.random() < .8, NX(g, r, entry(mkfeed(g, r, 1, kml)["entries"][0], kml, r)), -1] if r.random() < .5 else [META[svc], r.random() < .8, r.choice(["not xml", "", "<a/>", "ok"]), 0])
        if r.random() < .3: web.append(["http://f/bad", True, r.choice(["<feed", "", "<atom:feed xmlns:atom='http://www.w3.org/2005/Atom'>", "<kml xmlns='http://www.opengis.net/kml/2.2'/>"]), 0])
        web.append(["http://post", r.random() < .85, r.choice(["created", ""]), 0])
        if r.random() < .9: web.append(["https://www.google.com/accounts/ClientLogin", r.random() < .85, r.choice(["SID=1\nLSID=2\nAuth=tok-%d\n" % r.randint(0, 99), "Error=BadAuthentication\n", "Auth=x\n", "", "SID=Auth\nAuth=abc\n", "Auth=last", "Auth=", "SID=3\nAuth=m-1\nMore=x\n", "Auth=\n"]), 0])
        src = r.choice([[], ["http://m/feeds/features/u/m/full"], ["noslash"]]); res = r.choice(["", "document:12", "x"]); fmt = r.choice(["csv", "xls"])
        if res: web.append(["http://spreadsheets.google.com/feeds/download/spreadsheets/Export?key=%s&exportFormat=%s" % (res, fmt), r.random() < .8, "a,b\n", 0])
        box = [r.choice(["45", "10.5", "0", "-12.25"]) for _ in range(4)]
        search = "http://m/feeds/features/u/m/snippet" if src and src[0] != "noslash" else ""
        if search: web.append(page("%s?box=%s,%s,%s,%s" % (search, box[3], box[1], box[2], box[0])))
        en = {"title": "m", "links": [], "cats": [], "src": src, "res": [res] if res else [], "f": 0}; ops = []
        for _ in range(r.randint(2, 8)):
            op = r.choice(["add", "login", "fetch", "echo", "feed", "next"] + (["meta", "metaxml"] if svc != "none" else []) + (["doc", "doc", "createmap", "addfeature", "post", "post", "csv", "kml"] + (["box"] if search else []) if svc == "maps" else []) + (["upload"] if svc == "docs" else []) + (["download"] if svc == "sheets" else []))
            t = lambda: r.choice(["t", "", "a&b", "x <y>", "\u00c3\u00a9"])
            if op == "add": ops.append([op, r.choice(["A", "B", "Content-Type"]), t()])
            elif op == "login": ops.append([op, "local", t(), t()])
            elif op in ("fetch", "feed", "next", "doc"): ops.append([op, r.choice(uris + ["http://f/bad", "http://post", "http://none"]) if op in ("fetch", "feed") else r.choice(uris + uris + ["http://f/bad"])])
            elif op == "echo": ops.append([op, t(), r.randint(1, 8), [[r.choice(["A", "a", "B", "AA"]), t()] for _ in range(r.choice([0, 1, 2, 3, 5, 12]))]])
            elif op == "createmap": ops.append([op, t(), t()])
            elif op in ("addfeature", "post"):
                f = feature(g, r)
                if r.random() < .3: f = ("Document", [], [f, ("Placemark", [("id", "d")], [("name", [], ["n"]), ("Point", [("id", r.choice(["d", "e"]))], [("coordinates", [], ["1,2,3"])])]), feature(g, r, 1)])
                ops.append([op, r.choice(["http://post", "http://post", "http://none"]), X(g, f)])
            elif op in ("csv", "kml"): ops.append([op, t(), r.choice(["a,b\n1,2\n", "", "<kml/>"])])
            elif op == "box": ops.append([op, NX(g, r, entry(en, [], r)), box])
            elif op == "upload": ops.append([op, "a,b\n", r.choice(["text/csv", "x/y"])])
            elif op == "download": ops.append([op, NX(g, r, entry(en, [], r)), fmt])
            else: ops.append([op])
        sd.append({"kind": "session " + svc, "svc": svc, "app": r.choice(["app", "", "my app"]), "web": web, "ops": ops, "feeds": feeds, "kmlx": [X(g, k) for k in kml], "search": search, "res": res})
    def wrap(s, x): return {"id": x["id"], "svc": s["svc"], "app": s["app"], "web": s["web"], "feeds": s["feeds"], "kml": x["kml"], "search": s["search"], "res": s["res"], "ev": x["ev"]}
    ctx.run("gdata", "JFeeds", sd, wrap)
    return ctx.finish("random feeds of features, links and categories under any choice of prefixes with every question of them; sessions with each service over a scripted network of feed pages, failures and answers; non-trivial = distinct feed or session", ["next links of feeds do not go in a circle"])

@prop("C34")
def c34(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    tops = ["Placemark", "Document", "Folder", "GroundOverlay", "Style", "kml", "NetworkLink", "Region", "LookAt", "Polygon", "Model", "Update", "NetworkLinkControl"]
    for _ in range(ctx.pick(2500, 30000)):
        t = core(g.elem(r.choice(tops), "", r.randint(1, 4), r.choice([.2, .4]), 0)); n = Ns(g, r)
        if r.random() < .6:
            how = "ns"
        else: how = "atom"
        if how == "atom" and r.random() < .7:
            kml = [t]; f = mkfeed(g, r, r.choice([1, 2]), kml); t = feedtree(f, kml, r); n = Ns(g, r)
            for e in f["entries"]: e["res"] = []
            t = feedtree(f, kml, r)
        x = fw.lat(n.xml(t)); k = r.random()
        if k < .04: x = x[:r.randint(1, len(x) - 1)]
        sc.append({"kind": how, "how": how, "x": x, "plain": X(g, t) if k >= .04 else x})
    ctx.run("nsparse", "JNs", sc, lambda s, r: {"id": r["id"], "ev": [r]})
    return ctx.finish("random KML documents and feeds written with seven choices of prefixes declared at the root or where used; non-trivial = distinct document", ["documents of KML and Atom elements only"])
