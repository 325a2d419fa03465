"""C14, C15: caches."""
import io, zipfile
import fw, gen
from p_dom import REG, prop
@prop("C14")
def c14(ctx):
    r = ctx.rng; sc = []
    beh = ctx.generate("MCNetCache", ctx.pick("MCNetCache.cfg", "MCNetCacheX.cfg"))
    n = ctx.pick(20000, 10**6)
    if len(beh) > n: beh = r.sample(beh, n)
    for b in beh: sc.append({"kind": "exhaustive", "cap": b["cap"], "urls": ["a", "b", "c"], "ops": b["ops"]})
    for _ in range(ctx.pick(600, 8000)):
        us = ["u%d" % i for i in range(r.choice([2, 4, 8, 20]))]; ops = []
        w = r.choice([(6, 1, 2, 1, 1, 1), (3, 3, 1, 3, 1, 1), (8, 0, 0, 0, 0, 1), (1, 1, 6, 2, 2, 0)])
        for _ in range(r.randint(5, 80) if r.random() > .02 else 700):
            k = r.choices(["fetch", "lookup", "save", "delete", "oldest", "net"], w)[0]
            ops.append({"k": k, "u": r.choice(us) if k != "oldest" else "", "v": r.choice(["ok", "bad", "down"]) if k == "net" else ""})
        sc.append({"kind": "random", "cap": r.choice([0, 1, 2, 3, 5, len(us), 50]), "urls": us, "ops": ops})
    ctx.run("netcache", "JNetCache", sc, lambda s, r: {"id": r["id"], "cap": s["cap"], "urls": s["urls"], "ev": r["ev"]})
    return ctx.finish("every state of a cache over three urls with limits 0 to 3 within the bound on history length and every operation that reaches it, and random long histories over up to 20 urls; every operation is compared with the model on result, network requests, size, contents and liveness of items; non-trivial = distinct history",
                      ["null items are not saved by clients"])

def kmz(entries, r=None):
    b = io.BytesIO(); z = zipfile.ZipFile(b, "w")
    for n, c in entries:
        zi = zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)); zi.compress_type = r.choice([0, 8]) if r else 8
        z.writestr(zi, c.encode("latin-1"))
    z.close(); return b.getvalue().decode("latin-1")
def P(t): return "<Placemark id='%s'/>" % t
@prop("C15")
def c15(ctx):
    r = ctx.rng; sc = []
    def mk(kind, cap, web, ops):
        """web: [(u, content or entries)]"""
        bl = {}
        def item(u, c):
            if isinstance(c, str): return c
            x = kmz(c); bl[x] = "ZIP:" + u; return x
        s = {"kind": kind, "cap": cap, "web": [[u, item(u, c)] for u, c in web], "ops": []}
        rec = lambda u, c: {"u": u, "z": not isinstance(c, str), "c": c if isinstance(c, str) else "", "e": [] if isinstance(c, str) else [list(x) for x in c]}
        j = []
        for o in ops:
            if o["k"] == "net": s["ops"].append({"k": "net", "u": o["u"], "bytes": item(o["u"], o["c"])}); j.append({"k": "net", "n": rec(o["u"], o["c"])})
            else: s["ops"].append(o); j.append(o)
        s["j"] = {"net": [rec(u, c) for u, c in web], "ops": j, "zip": bl}; sc.append(s)
    beh = ctx.generate("MCKmlCache", ctx.pick("MCKmlCache.cfg", "MCKmlCacheX.cfg"), workers=fw.NCPU)
    web0 = [("http://h.example/d/m.kml", P("m")), ("http://h.example/d/x.kml", P("x")), ("http://h.example/bad.kml", "bad"), ("http://h.example/i.png", "image"),
            ("http://h.example/d/k.kmz", [("i.png", "inner"), ("a/doc.kml", P("kd")), ("b.kml", P("kb"))]), ("http://h.example/d/e.kmz", [("i.png", "other")])]
    n = ctx.pick(6000, 60000)
    if len(beh) > n: beh = r.sample(beh, n)
    for b in beh: mk("exhaustive", b["cap"], web0, b["ops"])
    hosts = ["http://h.example", "http://www.kmz.com"]; dirs = ["/", "/d/", "/d/e/", "/a.kmz.d/"]; names = ["m.kml", "x.kml", "k.kmz", "l.kmz", "i.png", "n", ".kmz"]
    inner = ["doc.kml", "x.kml", "a/x.kml", "i.png", "a/i.png", "k.kmz", "a/b/c.kml", "z.kmlx", "m.kml", "l.kmz/x.kml"]
    cnt = [0]
    def tok(): cnt[0] += 1; return "t%d" % cnt[0]
    def content(name):
        q = r.random()
        if name.endswith(".kmz") and q < .85 or q < .05:
            es = r.sample(inner, r.randint(1, 6)); return [(e, P(tok()) if e.endswith(".kml") and r.random() < .9 else "" if r.random() < .15 else "data " + tok()) for e in es]
        return P(tok()) if q < .8 else "" if q < .84 else "junk " + tok()
    for _ in range(ctx.pick(1500, 20000)):
        urls = list({r.choice(hosts[:1] if r.random() < .9 else hosts) + r.choice(dirs) + r.choice(names) for _ in range(r.randint(2, 7))})
        web = [(u, content(u)) for u in sorted(urls)]; us = [u for u, _ in web]; ops = []
        def url(): # somewhere into the web
            u = r.choice(us)
            if u.endswith(".kmz") and r.random() < .7: u += "/" + r.choice(inner)
            return u
        rel = ["x.kml", "../x.kml", "k.kmz", "../k.kmz", "i.png", "../i.png", "a/x.kml", "k.kmz/x.kml", "../k.kmz/a/x.kml", "", "#s", "x.kml#t", "?q=1", "x.kml?q", ".", "..", "../..", "/d/x.kml", "/k.kmz", "//h.example/d/k.kmz", "l.kmz", "../../l.kmz/m.kml", "bad uri", "a/b/c.kml", "./doc.kml", "../d/k.kmz/doc.kml", "k.kmz#s", "k.kmz/", "l.kmz/x.kml"]
        known = []
        for _ in range(r.randint(2, 14)):
            q = r.random()
            if q < .12: u = r.choice(us); ops.append({"k": "net", "u": u, "c": content(u)})
            elif q < .17: ops.append({"k": "down", "u": r.choice(us)})
            elif known and q < .32: ops.append({"k": r.choice(["link", "link", "icon"]), "f": r.randint(1, 6), "t": r.choice(rel) if r.random() < .75 else url(), "shape": r.choice([0, 1, 2, 2, 2, 2, 2])})
            elif known and q < .5: o = dict(r.choice(known)); o["k"] = r.choice(["kml", "kml", "data"]); ops.append(o)
            else:
                b = url() if r.random() < .96 else r.choice(["m.kml", "", "::"]); t = r.choice(rel) if r.random() < .75 else url()
                if r.random() < .1: t = b
                o = {"k": r.choice(["kml", "kml", "data"]), "b": b, "t": t}; known.append(o); ops.append(o)
        mk("random", r.choice([1, 1, 2, 3, 10]), web, ops)
    def wrap(s, x):
        ev = []
        for o, e in zip(s["j"]["ops"], x["ev"]):
            e = dict(e); e["o"] = o
            if e.get("data", "") in s["j"]["zip"]: e["data"] = s["j"]["zip"][e["data"]]
            ev.append(e)
        return {"id": x["id"], "cap": s["cap"], "net": s["j"]["net"], "ev": ev}
    ctx.run("kmlcache", "JKmlCache", sc, wrap)
    return ctx.finish("every state of a small web with nested and KML-less KMZ files that two (thorough: three) followed links reach, and random histories over random webs with changing and failing resources, followed by address or through the link or icon of a fetched file, caches of 1 to 10 entries; every step is compared with the model on the object returned, its content and url, and the requests made; non-trivial = distinct history",
                      ["the network is scripted; a resource's url is what precedes the fragment", "caches hold at least one entry"])
