"""C28 builders, C29 dates, C32 colours."""
import fw, gen
from p_dom import REG, prop
from p_bbox import doc
def date(r, pre=True):
    import calendar
    y = r.choice([1970, 1969, 1971, 2000, 1900, 2100, 2004, 2037, 2038, 1968, 1972, 1000, 9999, 1600, 1, 4, 99, 100, 400, 999]) if r.random() < .5 else r.randint(1, 9999)
    m = r.choice([1, 2, 2, 3, 12, r.randint(1, 12)]); md = calendar.monthrange(y, m)[1]; d = r.choice([1, md, r.randint(1, md)])
    return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (y, m, d, r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]))
@prop("C29")
def c29(ctx):
    r = ctx.rng; sc = []
    ctx.model("MCCivil", ctx.pick("MCCivil.cfg", "MCCivilX.cfg"))
    for y in ([1970, 1969, 2000, 1900, 2024, 2100, 1000, 9999, 1, 4, 100, 400, 999] if not ctx.thorough else range(1, 10000, 37)):
        for m in range(1, 13):
            import calendar
            for d in (1, calendar.monthrange(y, m)[1]): sc.append({"kind": "month", "text": "%04d-%02d-%02dT%s" % (y, m, d, r.choice(["00:00:00Z", "23:59:59Z", "12:34:56Z"]))})
    for _ in range(ctx.pick(3000, 40000)): sc.append({"kind": "valid", "text": date(r)})
    for _ in range(ctx.pick(1500, 20000)):
        t = date(r); k = r.random()
        if k < .4: t = t[:r.randint(0, 19)]
        elif k < .75:
            i = r.randrange(20); t = t[:i] + r.choice("xqk/_") + t[i + 1:]
        elif k < .82: t = t[:5] + r.choice(["13", "00", "99"]) + t[7:]
        elif k < .88: t = t[:11] + r.choice(["25", "99", "24"]) + t[13:]
        elif k < .92: t = t[:14] + r.choice(["60", "99"]) + t[16:]
        elif k < .96: t = t[:17] + r.choice(["62", "99"]) + t[19:]
        else: t = t[:8] + r.choice(["32", "00", "99"]) + t[10:]
        sc.append({"kind": "malformed", "text": t})
    ctx.run("date", "JDate", sc, lambda s, r: {"id": r["id"], "ev": [{"text": s["text"], "ok": r["ok"], "t": r["t"], "tot": r["tot"], "out": r["out"]}]})
    return ctx.finish("the first and last day of every month of years over the calendar, random dates of the years 1-9999, and texts that are cut short, have a wrong character or a part out of range; non-trivial = distinct text",
                      ["years 1-9999 with all digits written; text after the Z, blanks before the date, and days past the end of a month but at most 31 are not judged"])
@prop("C32")
def c32(ctx):
    r = ctx.rng; sc = [{"kind": "model", "ops": h} for h in ctx.generate("MCColor", ctx.pick("MCColor.cfg", "MCColorX.cfg"))]
    if len(sc) > ctx.pick(3000, 40000): sc = r.sample(sc, ctx.pick(3000, 40000))
    four = lambda: [r.choice([0, 1, 15, 16, 127, 128, 255, r.randrange(256)]) for _ in range(4)]
    def text():
        h = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([8, 8, 8, r.randint(0, 12)])))
        if r.random() < .1 and h: i = r.randrange(len(h)); h = h[:i] + r.choice("gZ-# .") + h[i + 1:]
        return r.choice(["", "", "", " ", "\n\t ", "\r"]) + r.choice(["", "", "#"]) + h
    for _ in range(ctx.pick(3000, 40000)):
        sc.append({"kind": "random", "ops": [[k, text() if k in ("text", "newtext") else r.choice([0, 255, r.randrange(256)]) if len(k) == 1 else four()] for k in
                   (r.choice(["text", "newtext", "abgr", "argb", "assign", "assigni", "new", "newi", "four", "setfour", "a", "b", "g", "r"]) for _ in range(r.randint(1, 8)))]})
    ctx.run("color", "JColor", sc, lambda s, r: {"id": r["id"], "ev": r["ev"]})
    return ctx.finish("every colour of the model with one history each, and random histories of every way to set a colour; non-trivial = distinct history", [])
@prop("C28")
def c28(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    num = lambda: r.choice(["0", "1", "-1", "45.5", "-122.25", "180", "-90", "0.001", "12.3456789", "%d.%03d" % (r.randint(-170, 170), r.randint(0, 999))])
    txt = lambda: r.choice(["", "a", "x y", "<b>&", "\"q'", "#s", "0"])
    def vec(): return [num() for _ in range(r.choice([2, 3]))]
    def view():
        t = r.choice(["Camera", "LookAt"])
        return (t, r.choice([[], [("id", "v")]]), [(f, [], [num()]) for f in ["longitude", "latitude", "altitude", "heading", "tilt", "roll" if t == "Camera" else "range"] if r.random() < .7])
    def even(t):   # make all coordinates multiples of a quarter degree so that centres are exact
        n, a, c = t
        if n == "coordinates": return (n, a, [" ".join(",".join(str(round(float(v) * 4) / 4) for v in q.split(",")) for q in c[0].split())] if c else [])
        if n in ("latitude", "longitude"): return (n, a, [str(round(float(c[0]) * 4) / 4)])
        return (n, a, [even(k) if isinstance(k, tuple) else k for k in c])
    def unmark(t): return t if not isinstance(t, tuple) else (t[0], [x for x in t[1] if x[0] != "m"], [unmark(k) for k in t[2]])
    for _ in range(ctx.pick(3000, 40000)):
        fn = r.choice(["animated", "polygon", "camera", "lookat", "data", "atts", "vec3", "latlon", "placemark", "stamped", "region", "flyto", "flyfeature", "flyfeature", "wait", "boxline", "boxline", "regionlink", "regiondoc", "child", "child"])
        if fn == "animated": a = [txt(), vec(), num()]
        elif fn == "polygon": a = [[vec() for _ in range(r.randint(0, 5))]]
        elif fn in ("camera", "lookat"): a = [num() for _ in range(6)] + [r.randint(0, 2)]
        elif fn == "data": a = [txt(), txt()]
        elif fn == "atts": a = [[x for _ in range(r.randint(0, 4)) for x in (r.choice(["lat", "lon", "lat", "lon", "ele", "Lat"]), num())]]
        elif fn == "vec3": a = [vec()]
        elif fn == "latlon": a = [num(), num()]
        elif fn == "placemark": a = [txt(), num(), num()]
        elif fn == "stamped": a = [num(), num(), date(r), r.choice(["s", "style 1", "a&b"])]
        elif fn == "region": a = [num() for _ in range(6)]
        elif fn == "flyto": a = [g.xml(view()), num()]
        elif fn == "flyfeature":
            t = unmark(even(doc(g, r)))
            if t[0] == "kml": t = t[2][0]
            if r.random() < .3 and not any(isinstance(k, tuple) and k[0] in ("LookAt", "Camera") for k in t[2]): t = (t[0], t[1], [view()] + list(t[2]))
            a = [g.xml(t), num()]
        elif fn in ("boxline", "regionlink", "regiondoc", "child"):
            q = lambda m: str(r.randint(-m * 4, m * 4) / 4)
            box = ("LatLonAltBox", [], [(s, [], [q(m)]) for s, m in (("north", 90), ("south", 90), ("east", 180), ("west", 180)) if r.random() < .9] + [(s, [], [num()]) for s in ("minAltitude", "maxAltitude") if r.random() < .3] + ([("altitudeMode", [], ["absolute"])] if r.random() < .3 else []))
            lod = ("Lod", [], [(s, [], [num()]) for s in ("minLodPixels", "maxLodPixels", "minFadeExtent", "maxFadeExtent") if r.random() < .6])
            t = ("Region", [("id", "r")] if r.random() < .3 else [], ([box] if r.random() < .8 else []) + ([lod] if r.random() < .6 else []))
            a = [g.xml(t), r.randint(0, 3) if fn == "child" else txt()]
        else: a = [num()]
        sc.append({"kind": fn, "fn": fn, "a": a})
    ctx.run("build", "JBuild", sc, lambda s, r: {"id": r["id"], "ev": [{"fn": s["fn"], "a": s["a"], "in": r["in"], "null": r["null"], "tree": r["tree"], "alts": r["alts"]}]})
    beh = ctx.generate("MCBuild", ctx.pick("MCBuild.cfg", "MCBuildX.cfg")); sx = []
    asks = [["get", "a"], ["get", "b"], ["get", "kml.FeatureScore"], ["getscore"]]
    if len(beh) > ctx.pick(1200, 20000): beh = r.sample(beh, ctx.pick(1200, 20000))
    for h in beh:
        ops = []
        for o in h: ops += [o] + [r.choice(asks)]
        sx.append({"kind": "values", "x": r.choice(["<Placemark/>", "<Folder><name>n</name></Folder>", "<Placemark id='p'><description>d</description></Placemark>"]), "ops": ops + asks, "xd": []})
    for _ in range(ctx.pick(600, 8000)):
        xd = [[r.choice(["a", "b", "c", "kml.FeatureScore"] * 2 + ["", "(none)"]), r.choice(["1", "-4", "12x", " 7", "x", "", "+3"])] for _ in range(r.choice([0, 1, 2, 3, 4, 4, 15]))]
        body = "".join('<Data%s><value>%s</value></Data>' % ('' if n == "(none)" else ' name="%s"' % n, v) for n, v in xd)
        has = xd or r.random() < .5; ops = []
        for _ in range(r.randint(1, 8)):
            k = r.random(); n = r.choice(["a", "b", "c", "kml.FeatureScore", "<&", ""]); v = r.choice(["1", "-4", "12x", "x", "", "<b>&"])
            ops.append(["add", n, v] if k < .3 else ["set", n, v] if k < .4 else ["score", v] if k < .5 else ["clear"] if k < .55 else ["nothing"] if k < .58 else ["getscore"] if k < .75 else ["get", n])
        sx.append({"kind": "values", "x": "<Placemark>%s</Placemark>" % ("<ExtendedData>%s</ExtendedData>" % body if has else ""), "ops": ops, "xd": [xd] if has else []})
    ctx.run("extdata", "JBuild", sx, lambda s, r: {"id": r["id"], "x": s["xd"], "ev": r["ev"]})
    sl = []
    for _ in range(ctx.pick(800, 10000)):
        pts = [[r.randint(1, 3), r.choice(["", "0", "1", "3", "5", "9", "-4", "100"])] for _ in range(r.randint(0, 9) if r.random() < .96 else r.choice([60, 300]))]
        if r.random() < .5:
            for i in range(1, len(pts)):
                if r.random() < .6: pts[i][0] = pts[i - 1][0]
        sl.append({"kind": "line", "pts": pts, "tol": r.choice(["0", "1", "4", "5", "100"]), "had": r.random() < .3})
    ctx.run("simplify", "JBuild", sl, lambda s, r: {"id": r["id"], "ev": [{"pts": s["pts"], "tol": int(s["tol"]), "out": r["out"], "src": r["src"]}]})
    cs = []
    for _ in range(ctx.pick(300, 4000)):
        rad = r.choice([10, 100, 1000, 12345, 100000, 999999, r.randint(5, 1000000)])
        cs.append({"kind": "circle", "lat": r.choice(["0", "10", "-33.5", "60", "-75", "85"]), "lon": r.choice(["0", "-122", "179.5", "-180", "77.25"]), "radius": str(rad), "n": r.choice([0, 1, 2, 3, 4, 7, 13, 36, 100, 359, 360, 361, 500, r.randint(1, 800)])})
    ctx.run("circle", "JBuild", cs, lambda s, r: {"id": r["id"], "ev": [{"pts": r["pts"], "n": s["n"], "radius": int(s["radius"]) * 1000}]})
    return ctx.finish("every builder on random arguments, the value histories of the model and random ones, random lines and circles; non-trivial = distinct call",
                      ["coordinates of features for which a view is computed are multiples of a quarter degree", "lines are of places far apart or the same; circles of at most 1000 km radius and 85 degrees of latitude"])
