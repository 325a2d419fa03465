"""C01-C03: parse and serialize."""
import fw, gen
REG = {}
def prop(pid):
    def d(f): REG[pid] = f; return f
    return d
def strip(s, r):
    r.pop("x", None); return {"id": r["id"], "old": s["kind"] == "old-schema", "ev": [r]}
@prop("C01")
def c01(ctx):
    g = gen.Gen(ctx.rng); sc = []
    for _ in range(ctx.pick(1, 4)):
        for kind, t in g.systematic(): sc.append({"kind": kind, "x": g.doc(t)})
    for kind, t in g.random_docs(ctx.pick(1500, 20000)): sc.append({"kind": kind, "x": g.doc(t)})
    ctx.run("dom", "JDom", sc, strip)
    return ctx.finish("documents generated from the specification's vocabulary: every slot of every type alone, repeated, all together; "
                      "random trees; non-trivial = distinct document", ["the expat reader used to observe output is correct"])

def text_targets(ctx, g):
    """(ty, fld, at) of every string place of the vocabulary, and those with an API setter."""
    allt = []
    for ty, t in g.types.items():
        if ty == "IconStyleIcon": continue
        for sl in t["slots"]:
            if sl["k"] in "fF" and sl["v"] in ("str", "desc"): allt.append((ty, sl["n"], ""))
        for k, kd in t["attrs"]:
            if kd == "str": allt.append((ty, "", k))
        allt.append((ty, "", "unknownAttr"))
        if ty in g.text: allt.append((ty, "", ""))
    api = ctx.drive("texttargets", [{}])[1]["targets"]
    def split(k):
        at = fld = ""
        if "@" in k: k, at = k.split("@")
        if "/" in k: k, fld = k.split("/")
        return (k, fld, at)
    return allt, [split(k) for k in api]
def textdoc(t, forms, attr, which):
    ty, fld, at = t
    if at: return "<%s %s=\"%s\"/>" % (ty, at, attr)
    b = forms[which % len(forms)]
    return "<%s>%s</%s>" % (ty, "<%s>%s</%s>" % (fld, b, fld) if fld else b, ty)
@prop("C02")
def c02(ctx):
    g = gen.Gen(ctx.rng); r = ctx.rng
    allt, api = text_targets(ctx, g)
    beh = ctx.generate("XmlText", "XmlText.cfg")
    if ctx.thorough: beh += ctx.generate("XmlText", "XmlText4.cfg")
    U = fw.lat("\u00e9\u65e5")
    beh = [(s.replace("~", U), [f.replace("~", U) for f in fs], a.replace("~", U)) for s, fs, a in beh]
    short = [b for b in beh if len(b[0]) <= 1 or b[0] in ("<![CDATA[", "]]>", "&amp;", "&#65;", "<b>", "]]>&", "<![CDATA[a]]>", "\"&", "<\r", "a\n", " a", "a ", U, U + "<")]
    long = [("x" * n + c + "y" * n, ["x" * n + e + "y" * n], "x" * n + e + "y" * n) for n in (1020, 5000) for c, e in ((">", "&gt;"), ("&", "&amp;"), ("\r", "&#13;"), (U, U))]
    huge = [("x" * n + c + "y" * n, ["x" * n + e + "y" * n], "x" * n + e + "y" * n) for n in (17000, 40000) for c, e in ((">", "&gt;"), ("&", "&amp;"), ("\r", "&#13;"), (U, U), ("", ""))]
    ev = []
    for b in huge:
        for t in r.sample(api, 4) + [("Placemark", "name", ""), ("Placemark", "", "id"), ("Snippet", "", "")]: ev.append((b, t, True, 0))
        for k, t in enumerate(r.sample(allt, 4)): ev.append((b, t, False, k))
    for b in short + long:
        for t in api: ev.append((b, t, True, 0))
        for k, t in enumerate(allt): ev.append((b, t, False, k + r.randint(0, 3)))
    rest = [b for b in beh if b not in short]
    for b in rest:
        for _ in range(3): ev.append((b, r.choice(api), True, 0))
        ev.append((b, ("Placemark", "name", ""), True, 0)); ev.append((b, ("Placemark", "", "id"), True, 0))
        for w in range(3): ev.append((b, r.choice(allt), False, w + r.randint(0, 1)))
    for b in beh:
        for t in (("SimpleData", "", ""), ("Snippet", "", ""), ("Data", "value", "")): ev.append((b, t, True, 0))
    sc = []; cur = []
    for b, t, isapi, w in ev:
        if not isapi and t[2] == "" and b[0] == "" : continue
        cur.append({"s": b[0], "ty": t[0], "fld": t[1], "at": t[2], "x": "" if isapi else textdoc(t, b[1], b[2], w)})
        if len(cur) == 25: sc.append({"kind": "texts", "ev": cur}); cur = []
    if cur: sc.append({"kind": "texts", "ev": cur})
    ctx.run("text", "JText", sc, lambda s, r: {"id": r["id"], "ev": r["ev"]})
    docs = [{"kind": "docs", "x": g.doc(t)} for k, t in g.random_docs(ctx.pick(400, 6000))]
    ctx.run("dom", "JDom", docs, strip)
    return ctx.finish("all strings of up to 3 (thorough: 4) tokens of the metacharacter alphabet, every string place of the vocabulary and every API setter; "
                      "non-trivial = distinct group of 25 placements", ["expat, the reader used to observe output, is correct"], exhaustive=False)

# ---- token documents ----
def esc_text(r, s):
    k = r.randint(0, 2)
    if k == 0 and "]]>" not in s: return "<![CDATA[" + s + "]]>"
    out = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return out.replace("x", "&#120;") if k == 1 else out
def render(toks, r):
    """XML text of a token sequence, and the offset just after each token."""
    out = ""; open_ = []; ends = []
    for t in toks:
        k, s = t["k"], t["s"]
        if k == "o": out += "<%s>" % s; open_.append(s)
        elif k == "e": out += "<%s/>" % s
        elif k == "c": out += "</%s>" % (open_.pop() if open_ else "kml")
        elif k == "x": out += "</%s>" % s; open_ and open_.pop()
        elif k == "t": out += esc_text(r, s)
        elif k == "n": out += s
        elif k == "d": out += s
        ends.append(len(out))
    return out, ends
def tok(k, s=""): return {"k": k, "s": s}
def closed(toks):
    d = sum({"o": 1, "c": -1}.get(t["k"], 0) for t in toks); return toks + [tok("c")] * max(0, d)
def tree_toks(x, r, top=True):
    if isinstance(x, str): return [tok("t", fw.lat(x))] if x else []
    tag, _, kids = x
    if not kids and r.random() < .6: return [tok("e", tag)]
    out = [tok("o", tag)]
    for k in kids:
        if r.random() < .04: out.append(tok("n", r.choice(["<!-- c <a> -->", "<?pi x?>"])))
        out += tree_toks(k, r, False)
    return out + [tok("c")]
def rtoks(g, r, n):
    """Random token documents: whole, and damaged in one place."""
    for _ in range(n):
        root = r.choice(["kml", "Document", "Folder", "Placemark", "kml", "Style", "gx:Tour"])
        ts = tree_toks(g.elem(root, "", r.randint(1, 3), fill=r.choice([.08, .2]), noise=.3), r)
        k = r.random()
        if k < .08: ts = ts[:r.randint(0, len(ts))]
        elif k < .14: ts.insert(r.randint(1, len(ts)), tok("x", "zzz"))
        elif k < .18: ts = ts + [r.choice([tok("t", "junk"), tok("e", "kml"), tok("c")])]
        elif k < .21: ts = [tok("t", "junk")] + ts
        elif k < .25: ts = [tok("o", "Foo")] + ts + [tok("c")]
        elif k < .28: ts = [tok("d", "<!DOCTYPE kml [<!ENTITY e \"v\">]>")] + ts
        elif k < .34: ts = [tok("n", r.choice(["<!-- x -->", "\n", "<!DOCTYPE kml>", "<?xml version='1.0'?>"]))] + ts + [tok("n", r.choice(["\n", " <!-- e -->"]))]
        yield ts
def deep(r, n):
    """Documents nested up to and beyond the limit."""
    for _ in range(n):
        d = r.choice([97, 98, 99, 100, 100, 101, 101, 102, 150]); w = r.random()
        tags = []
        for i in range(d):
            tags.append("Folder" if w < .4 else r.choice(["Folder", "MultiGeometry", "Document"]) if w < .6 else "Folder" if i < r.randint(1, d) and w < .8 else r.choice(["Foo", "bar", "Folder"]) if i else "Folder")
        if w >= .9: tags[min(5, d - 1)] = "description"
        ts = [tok("o", t) for t in tags[:-1]]
        ts += [tok("e", tags[-1])] if r.random() < .5 else [tok("o", tags[-1])] + ([tok("t", "x")] if r.random() < .5 else []) + [tok("c")]
        for i in range(d - 1):
            ts.append(tok("c"))
            if r.random() < .02: ts.append(tok("e", r.choice(["name", "Foo"])))
        yield ts
def rplan(r, nobs, n):
    return [{"o": r.randint(1, nobs), "k": r.choice(["new", "end", "end", "add"]), "i": r.randint(1, n)} for _ in range(r.choice([0, 1, 1, 2]))] if nobs else []
def parse_scen(ts, plan, nobs, r, kind):
    x, ends = render(ts, r); return {"kind": kind, "toks": ts, "plan": plan, "nobs": nobs, "x": x, "noerr": r.random() < .1}
def parse_wrap(s, r):
    return {"id": r["id"], "toks": s["toks"], "plan": s["plan"], "nobs": s["nobs"],
            "ev": [{"ok": r["ok"], "shown": r["ok"], "err": r["err"], "log": r["log"], "raw": r["raw"], "how": "string", "fault": False, "nobs": s["nobs"]}]}
def ns_scen(g, r, n):
    """Namespace-aware parses of the same token documents."""
    import re
    out = []
    while len(out) < n:
        if r.random() < .5:
            ts = next(rtoks(g, r, 1)); uri = "http://www.opengis.net/kml/2.2"; mode = "ns"
            if any(":" in t["s"] for t in ts if t["k"] in "oe"): continue
        else:
            kids = []
            root = r.choice(["atom:feed", "atom:feed", "atom:entry", "atom:author", "atom:link", "atom:nothing"])
            t = g.elem(root, "", 3, fill=.4, noise=0) if root in g.types else (root, [], [])
            ts = tree_toks(t, r); uri = "http://www.w3.org/2005/Atom"; mode = "atom"
            if any(not t["s"].startswith("atom:") for t in ts if t["k"] in "oe"): continue
            if r.random() < .1 and len(ts) > 1: ts.insert(1, tok("x", "zzz"))
            if r.random() < .3 and ts[0]["k"] == "o": ts[1:1] = [tok("o", "atom:foo"), tok("t", "x"), tok("c")]
        s = parse_scen(ts, [], 1, r, mode); s["mode"] = mode
        if r.random() < .3: s["plan"] = rplan(r, 1, 6)
        x = s["x"]
        if mode == "atom": x = re.sub(r"(</?)atom:", r"\1", x)
        s["x"] = re.sub(r"<([A-Za-z_]\w*)", lambda m: "<%s xmlns=\"%s\"" % (m.group(1), uri), x, count=1)
        out.append(s)
    return out
@prop("C04")
def c04(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    for cfg in ctx.pick(("MCParse.cfg", "MCParsePlan.cfg"), ("MCParse6.cfg", "MCParsePlan2.cfg")):
        for b in ctx.generate("MCParse", cfg):
            nobs = 2 if b["plan"] else r.choice([0, 1, 2])
            sc.append(parse_scen(b["toks"], b["plan"], nobs, r, "exhaustive"))
            if closed(b["toks"]) != b["toks"]: sc.append(parse_scen(closed(b["toks"]), b["plan"], nobs, r, "exhaustive-closed"))
    for ts in rtoks(g, r, ctx.pick(2500, 40000)):
        nobs = r.choice([0, 1, 2, 2, 3]); sc.append(parse_scen(ts, rplan(r, nobs, max(1, len(ts) // 2)), nobs, r, "random"))
    for ts in deep(r, ctx.pick(120, 600)): sc.append(parse_scen(ts, [] if r.random() < .7 else rplan(r, 1, 101), 1, r, "deep"))
    sc.append(parse_scen([], [], 1, r, "empty")); sc.append(parse_scen([tok("n", " ")], [], 1, r, "empty"))
    sc += ns_scen(g, r, ctx.pick(600, 5000))
    ctx.run("obs", "JParse", sc, parse_wrap)
    return ctx.finish("every token sequence to the bound of the parser model, truncated and completed, with every single refusal; random documents whole and damaged; nesting around the limit",
                      ["documents that declare entities are refused by design"])

def ways(r, n, rootend, nobs, all_splits, count):
    """Ways of feeding a document of n bytes."""
    out = []
    def w(**k):
        k.setdefault("fault", False); k.setdefault("nobs", nobs); k.setdefault("final", r.random() < .5)
        if k["mode"] == "stream" and nobs > 1: k["nobs"] = 1
        k["how"] = "%s %s%s" % (k["mode"], k["sizes"][:8], " fault" if k["fault"] else ""); out.append(k)
    if all_splits:
        for i in range(0, n + 1): w(mode=r.choice(["buf", "int"]), sizes=[i, n])
        for m in ("buf", "int", "stream"): w(mode=m, sizes=[1])
    for _ in range(count):
        m = r.choice(["buf", "int", "stream", "stream"])
        z = [r.choice([0, 1, 1, 2, 3, 5, 8, 13, 100, 4095, 4096, 4097]) for _ in range(r.randint(1, 12))]
        if r.random() < .3: z = [r.randint(1, max(1, n))]
        if m == "stream": z = [max(1, k) for k in z]
        elif z[-1] == 0: z.append(7)
        w(mode=m, sizes=z)
    for _ in range(max(1, count // 3)):
        k = r.randint(0, n); w(mode="stream", sizes=[r.choice([1, 7, 4096])], fail=k, throws=True, fault=True)
        if rootend > 0: w(mode="stream", sizes=[r.choice([1, 7, 4096])], fail=r.randint(0, rootend - 1), throws=False, fault=True)
    for p in ("eof", "fail", "null"):
        if r.random() < .1: w(mode="stream", sizes=[4096], pre=p, fault=True)
    return out
def piece_scen(ts, r, kind, all_splits, count, pad=0):
    nobs = r.choice([0, 1, 1, 2]); plan = rplan(r, nobs, max(1, len(ts) // 2)) if r.random() < .25 else []
    if pad and ts and ts[0]["s"].startswith("<?xml"): pad = 0
    if pad:
        ts = [tok("n", "<!--" + "p" * pad + "-->")] + ts
    x, ends = render(ts, r); d = 0; rootend = len(x)
    for t, e in zip(ts, ends):
        d += {"o": 1, "c": -1, "x": -1}.get(t["k"], 0)
        if d == 0 and t["k"] in "cex": rootend = e; break
    ws = ways(r, len(x), rootend, nobs, all_splits, count)
    for w in ws:
        if w["nobs"] != nobs: w["nobs"] = 1  # only one observer on a stream
    if nobs > 1 and plan: ws = [w for w in ws if w["nobs"] == nobs]
    return {"kind": kind, "toks": ts, "plan": plan, "nobs": nobs, "x": x, "ways": ws}
def piece_wrap(s, r):
    """Identical observations of one document are judged once."""
    seen = {}
    for e in r["ev"]: seen.setdefault(fw.dumps({k: v for k, v in e.items() if k != "how"}), e)
    return {"id": r["id"], "toks": s["toks"], "plan": s["plan"], "nobs": s["nobs"], "ev": list(seen.values())}
@prop("C05")
def c05(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    beh = ctx.generate("MCParse", ctx.pick("MCParse4.cfg", "MCParse.cfg"))
    for b in beh:
        for ts in ([b["toks"], closed(b["toks"])] if closed(b["toks"]) != b["toks"] else [b["toks"]]):
            if r.random() < ctx.pick(.25, .5): sc.append(piece_scen(ts, r, "all-splits", True, 3))
    for ts in rtoks(g, r, ctx.pick(500, 5000)):
        if len(render(ts, r)[0]) < 700: sc.append(piece_scen(ts, r, "all-splits-doc", True, 6))
        else: sc.append(piece_scen(ts, r, "random-splits", False, 25))
    for ts in rtoks(g, r, ctx.pick(300, 4000)):
        # put every part of the document at the stream buffer's edge
        n = len(render(ts, r)[0])
        for _ in range(3): sc.append(piece_scen(ts, r, "buffer-edge", False, 6, pad=r.choice([4096, 8192]) - r.randint(7, 7 + min(n, 4000)))) 
    for ts in deep(r, ctx.pick(20, 100)): sc.append(piece_scen(ts, r, "deep", False, 6))
    ctx.info["feedings"] = sum(len(s["ways"]) for s in sc)
    ctx.run("pieces", "JParse", sc, piece_wrap)
    return ctx.finish("every split position of the model's token documents and of random documents, random piece sizes, truncations and read failures at random points, documents laid across the 4096-byte stream buffer edge; non-trivial = distinct document", [])

def noisy(g, r, n):
    """Every type with unknown, misplaced and description markup at every place."""
    for ty, t in g.types.items():
        if ty in g.text or ty == "IconStyleIcon": continue
        kids = [g.slotchild(sl, ty, 1) for sl in t["slots"] if r.random() < .35]
        for i in range(len(kids) + 1):
            yield "unknown-at", (ty, g.attrs(ty, unknown=.5), kids[:i] + [g.unk()] + kids[i:])
            yield "misplaced-at", (ty, [], kids[:i] + [g.misplaced(ty, 1)] + kids[i:])
        for _ in range(3):
            ks = list(kids); g.insert_noise(ks, ty, 2, r.randint(2, 6)); yield "several", (ty, g.attrs(ty), ks)
        yield "many", (ty, [], [g.unk(0) if r.random() < .5 else g.misplaced(ty, 0) for _ in range(60)])
        yield "only", (ty, [], [g.unk(3), g.misplaced(ty), g.unk(1), g.misplaced(ty), g.unk(0)])
    for _ in range(n):
        root = r.choice(["kml", "Document", "Folder", "Placemark", "Placemark", "Style", "Polygon"])
        x = g.elem(root, "", r.randint(1, 3), fill=r.choice([.1, .25]), noise=.8)
        if root in ("Document", "Folder", "Placemark"):
            d = g.desc(); x[2].insert(r.randint(0, len(x[2])), d)
            if r.random() < .5: x[2].insert(r.randint(0, len(x[2])), ("Foo", [], [g.desc(), "t", g.desc()]))
        yield "noisy", x
@prop("C03")
def c03(ctx):
    r = ctx.rng; g = gen.Gen(r); g.ends = True; sc = []
    for _ in range(ctx.pick(1, 5)):
        for kind, t in noisy(g, r, ctx.pick(1200, 6000)): sc.append({"kind": kind, "x": g.doc(t)})
    for _ in range(ctx.pick(800, 8000)): sc.append({"kind": "old-schema", "x": g.doc(g.old_schema())})
    ctx.run("dom", "JDom", sc, strip)
    ps = []
    for b in ctx.generate("MCParse", ctx.pick("MCNoise.cfg", "MCNoise7.cfg")):
        ts = closed(b["toks"])
        if ts[-1]["k"] != "x" and not any(t["k"] == "x" for t in ts): ps.append(parse_scen(ts, [], 1, r, "exhaustive"))
    ctx.run("obs", "JParse", ps, parse_wrap)
    return ctx.finish("every structured type with unknown and misplaced children at every position, random noisy documents, and every nesting of a small tag set (known, unknown, description) to the bound",
                      ["markup that is neither element nor text (comments, processing instructions) is not content"])

def coord_scen(txts, nums, r, kind, what="coordinates", host=None, api=False, brief=False, wide=False):
    host = host or (r.choice(["LineString", "LinearRing", "Point", "gx:LatLonQuad", "LineString"]) if what == "coordinates" else "gx:Track")
    enc = []
    for t in txts:
        t = t.replace("\r", "&#13;")
        enc.append("<![CDATA[" + t + "]]>" if r.random() < .1 and "&" not in t else t)
    return {"kind": kind, "host": host, "what": what, "txt": txts, "enc": enc, "nums": nums, "api": api, "brief": brief, "wide": wide}
def coord_wrap(s, r):
    return {"id": r["id"], "what": s["what"], "txt": [] if s["brief"] else s["txt"], "n": len(s["nums"]), "brief": s["brief"], "api": s["api"], "wide": s["wide"], "nort": s.get("nort", False), "ev": [r]}
@prop("C06")
def c06(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []
    for cfg in ctx.pick(("MCCoords.cfg", "MCCoords1.cfg"), ("MCCoords.cfg", "MCCoords1.cfg", "MCCoords3.cfg")):
        for b in ctx.generate("MCCoords", cfg):
            sc.append(coord_scen([b["txt"]], b["nums"], r, "exhaustive"))
            if r.random() < .1: sc.append(coord_scen([b["txt"]], b["nums"], r, "api", api=True))
    def ws(n=3): return "".join(r.choice(" \n\t\r") for _ in range(r.randint(1, n)))
    def rnum():
        k = r.random()
        if k < .5: return g.num()
        return r.choice(["", "-"]) + str(r.randint(0, 10 ** r.randint(1, 5))) + "." + str(r.randint(0, 10 ** r.randint(1, 9)))
    for _ in range(ctx.pick(1500, 20000)):
        n = r.choice([1, 2, 3, 5, 10, 30]); tup = [[rnum() for _ in range(r.choice([2, 3]))] for _ in range(n)]
        t = r.choice(["", ws(6)]) + "".join((ws(4) if i else "") + (r.choice([",", ",", ",", ", ", " ,"]).join(p)) for i, p in enumerate(tup)) + r.choice(["", ws(6)])
        sc.append(coord_scen([t], tup, r, "random", api=r.random() < .1))
    for what in ("gx:coord", "gx:angles"):
        for _ in range(ctx.pick(300, 4000)):
            tup = [[rnum() for _ in range(3)] for _ in range(r.choice([1, 2, 5]))]
            sc.append(coord_scen([r.choice(["", ws()]) + p[0] + ws() + p[1] + ws() + p[2] + r.choice(["", ws()]) for p in tup], tup, r, "track", what=what, api=r.random() < .1))
    # lengths: many tuples, long numbers, long white space
    for n in (200, 1000, ctx.pick(9000, 70000)):
        tup = [[rnum() for _ in range(r.choice([2, 3]))] for _ in range(n)]
        sc.append(coord_scen([ws().join(",".join(p) for p in tup)], tup, r, "many", host="LineString", brief=True))
    for L in (20, 100, 500, 1000, 1022, 1023, 1024, 1025, 2000, 4096, 10000, 70000):
        for f in (lambda: "1." + "0" * L + "5", lambda: "0" * L + "12.5", lambda: "-3." + "25" * (L // 2), lambda: "0." + "0" * 20 + "1" * L):
            nm = f(); tup = [["1", "2"], [nm, "4", "5"], ["6", nm], ["7", "8", nm]]
            sc.append(coord_scen([" ".join(",".join(p) for p in tup)], tup, r, "long-number", host="LineString", brief=True))
            sc[-1]["nort"] = True
        sc.append(coord_scen([" " * L + "1,2" + "\n" * L + "3,4,5" + "\t" * L], [["1", "2"], ["3", "4", "5"]], r, "long-space", host="LineString", brief=True))
    # texts longer than a number: points whose decimal form needs the 15 digits
    for _ in range(ctx.pick(400, 4000)):
        tup = [["%s%d.%0*d" % (r.choice(["", "-"]), r.randint(0, 179), 12, r.randint(0, 10 ** 12 - 1)) for _ in range(r.choice([2, 3]))] for _ in range(3)]
        sc.append(coord_scen([" ".join(",".join(p) for p in tup)], tup, r, "digits"))
    ctx.run("coords", "JCoords", sc, coord_wrap)
    return ctx.finish("all tuple lists to the model's bound over its numbers and separators, random lists, numbers and white space up to 70000 characters, lists of thousands of tuples; coordinates, gx:coord and gx:angles; API-built and parsed",
                      ["decimal to binary conversion of the C library is exact"])
