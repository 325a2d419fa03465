"""C16, C17: KMZ archives."""
import hashlib, io, json, zipfile
import fw, gen
from p_dom import REG, prop
def short(d): return d if len(d) <= 120 else "sha:%s:%d" % (hashlib.sha256(d.encode("latin-1")).hexdigest()[:24], len(d))
def nm(n): return n if len(n) <= 100 else n[:4] + "[%s:%d]" % (hashlib.sha256(n.encode("latin-1")).hexdigest()[:12], len(n)) + n[-4:]
def kml_of(links):
    if not links: return "<Document/>"
    return "<Document>" + "".join("<GroundOverlay><Icon><href>%s</href></Icon></GroundOverlay>" % l if i % 2 else "<Placemark><styleUrl>%s</styleUrl></Placemark>" % l for i, l in enumerate(links)) + "</Document>"
@prop("C16")
def c16(ctx):
    r = ctx.rng
    names = ["doc.kml", "a.kml", "b/c.kml", "i.png", "files/i.png", "x", ".kml", "kml", "a.KML", "a.kmlx", "..", "../x.kml", "..a", "/abs.kml", "\\back", "a/../b.kml", "a/../../b.kml", "a\\..\\..\\b", "./c", "dir/", "sp ace.kml", "q?r#s.kml", "%41.kml", "~" , "e\xe9.kml", "n" * 255, "n" * 256, "m" * 300 + ".kml", "l" * 1023, "l" * 1024, "k" * 2000 + ".kml", "a//b", ".", ""]
    names = [n.replace("~", "tilde") for n in names]
    def data():
        q = r.random()
        if q < .1: return ""
        if q < .5: return "".join(chr(r.choice([97, 98, 10, 0, 255, 60, 13])) for _ in range(r.randint(1, 20)))
        if q < .8: return "".join(chr(r.randrange(256)) for _ in range(r.choice([100, 1023, 1024, 1025, 5000]))).replace("~", "-")
        if q < .9: return r.choice(["abc", "\0"]) * r.choice([1000, 20000, 70000])
        return "PK\3\4" + "x" * r.randint(0, 50)
    def entries(n):
        es = []
        for _ in range(n):
            name = r.choice(names) if r.random() < .7 else r.choice(names[:8])
            if r.random() < .25:
                li = [r.choice(["i.png", "files/i.png", "nope.png", "#s", "http://h/i.png", "a.kml#x", "x", "b/c.kml", "./c", "doc.kml"]) for _ in range(r.choice([0, 1, 2, 3, 4, 4, 25]))]
                es.append([name, kml_of(li), [True, li]])
            else: es.append([name, data(), [False, []]])
        return es
    def scen(kind, es, **kw):
        s = {"kind": kind, "add": [e[:2] for e in es], "links": [e[2] for e in es], "ask": list(dict.fromkeys([e[0] for e in es] + r.sample(names, 2) + ["nope", "DOC.KML"])),
             "max": r.choice([0, 0, 0, 1, 19, 20, 1024, 5000]), "ext": r.choice([".png", ".kml", "nope", "i.png", "x"])}
        s.update(kw); return s
    def tr(s):
        return {"max": s["max"] or 2147483647, "ask": [nm(n) for n in s["ask"]], "ext": s["ext"]}
    def fix(e):
        e = dict(e)
        for k in ("read", "got"):
            if k in e: e[k] = [[a, short(b)] for a, b in e[k]]
        if "asfile" in e: e["asfile"] = [e["asfile"][0], short(e["asfile"][1])]
        if "kml" in e and len(e["kml"]) > 1: e["kml"] = [e["kml"][0], short(e["kml"][1])] + [nm(x) for x in e["kml"][2:]]
        if isinstance(e.get("list"), list): e["list"] = [nm(x) for x in e["list"]]
        if "find" in e: e["find"] = [e["find"][0], nm(e["find"][1])]
        return e
    def adds(s, ev):
        out = []; oks = [e for e in ev if e["k"] == "add"]
        for i, (n, d) in enumerate(s["add"]):
            ok = oks[i]["ok"] if oks else True
            out.append({"k": "add", "n": nm(n), "d": short(d), "size": len(d), "ok": ok, "links": s["links"][i]})
        return out
    def wrap(s, x):
        ev = adds(s, x["ev"]) + [fix(e) for e in x["ev"] if e["k"] != "add"]
        if "bytes" in x:
            try:
                z = zipfile.ZipFile(io.BytesIO(x["bytes"].encode("latin-1")))
                ev.append({"k": "other", "z": [[nm(i.orig_filename.encode("utf-8" if i.flag_bits & 0x800 else "cp437").decode("latin-1")), short(z.read(i).decode("latin-1"))] for i in z.infolist()]})
            except Exception as ex: ev.append({"k": "other", "z": ["unreadable: %s" % ex]})
        t = tr(s); t.update(id=x["id"], ev=ev); return t
    sc = [scen("write", entries(r.choice([0, 1, 1, 2, 3, 5, 8, 20]))) for _ in range(ctx.pick(1500, 20000))]
    for n in (70, 150, 300): sc.append(scen("many entries", [["e%d/%d.kml" % (i % 7, i), "d%d" % i, [False, []]] for i in range(n)]))
    ctx.run("kmz", "JKmz", sc, wrap)
    # archives another tool wrote
    sc = []
    for _ in range(ctx.pick(700, 8000)):
        es = [e for e in entries(r.choice([1, 1, 2, 3, 6])) if e[0] and not e[0].startswith(("/", "\\", "..")) and e[0] not in ("a/../../b.kml", "a\\..\\..\\b") and "\xe9" not in e[0]]
        if not es: continue
        b = io.BytesIO(); z = zipfile.ZipFile(b, "w")
        for n, d, _ in es:
            zi = zipfile.ZipInfo(n, (1990 + r.randrange(40), 1, 1, 0, 0, 0)); zi.compress_type = r.choice([0, 8]); zi.external_attr = r.getrandbits(32); zi.comment = b"c" * r.choice([0, 0, 3, 300])
            if r.random() < .2: zi.extra = b"\x55\x54\x05\x00\x01abcd"
            import warnings
            with warnings.catch_warnings(): warnings.simplefilter("ignore"); z.writestr(zi, d.encode("latin-1"))
        z.comment = b"z" * r.choice([0, 0, 5, 1000]); z.close()
        sc.append(scen("read", es, bytes=b.getvalue().decode("latin-1")))
    ctx.run("kmz", "JKmz", sc, wrap)
    # damaged archives
    sc = []; small = [["a.kml", "<Document><Placemark/><Placemark/></Document>", [True, []]], ["i.png", "\x89PNG\r\n\x1a\n" + "abc" * 9, [False, []]], ["e", "", [False, []]], ["z.txt", "".join(chr(i * 37 % 256) for i in range(60)).replace("~", "-"), [False, []]]]
    n = 700
    for at in range(n):
        for k, x in [("flip", 1), ("flip", 128), ("flip", 255), ("cut", 0), ("del", 1), ("ins", 1)] + ([("flip", 1 << i) for i in range(1, 7)] if ctx.thorough else []):
            sc.append(scen("damaged, every byte", small, damage=[{"k": k, "at": at, "x": x}]))
    for _ in range(ctx.pick(1500, 30000)):
        es = entries(r.choice([1, 2, 4]))
        sc.append(scen("damaged", es, damage=[{"k": r.choice(["flip", "flip", "flip", "cut", "del", "ins"]), "at": r.randrange(1 << 20) if r.random() < .5 else -1 - r.randrange(120) + (1 << 20) * 0, "x": r.choice([1, 2, 16, 128, 255])} for _ in range(r.choice([1, 1, 2, 3]))]))
    for s in sc:
        for d in s["damage"]:
            if d["at"] < 0: d["at"] = (1 << 30) + d["at"]
    ctx.run("kmz", "JKmz", sc, wrap)
    return ctx.finish("random sequences of entries with odd, long, duplicate and refused names and empty, binary and large contents, written by this code and by another tool, read from disk and memory with size limits and by an independent reader; damage at every byte of one archive and at random places of others; non-trivial = distinct sequence or damage",
                      ["the zip writer (system minizip) and zlib are trusted where their results are not observed; names without zero bytes"])
@prop("C17")
def c17(ctx):
    r = ctx.rng; sc = []
    segs = ["a", "b", "i.png", "..", ".", "j k.png", "..c", "x#y", "50%", "C:", "q&amp;", "t.kml", "...", "d.kmz"]
    tree = [["i.png", "I"], ["a/i.png", "AI"], ["a/b/i.png", "ABI"], ["j k.png", "JK"], ["..c", "DDC"], ["a/..c", "ADDC"], ["50%", "FIFTY"], ["C:/i.png", "CI"], ["a/t.kml", "<Placemark/>"], ["b/i.png", "BI"], ["...", "DOTS"], ["x", "X"], ["d.kmz", "notkmz"]]
    out = [["i.png", "SECRET1"], ["a/i.png", "SECRET2"], ["secret", "SECRET3"], ["base2/i.png", "SECRET4"], ["up/i.png", "SECRET5"]]
    def link(odd):
        q = r.random(); s = "/".join(r.choice(segs) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5])))
        if r.random() < .45: s = "/".join(["../" * r.randint(0, 4) + "a", "i.png"][r.randint(0, 1):]) if r.random() < .3 else r.choice([t[0] for t in tree])
        if r.random() < .15: s = r.choice(["a", "b", ".", "a/b", "./."]) + "/.." * r.randint(1, 4) + "/" + r.choice(["i.png", "secret", "a/i.png"])
        if r.random() < .1: s = "./" + s
        if r.random() < .15: s = s.replace("/", "\\", r.randint(1, 3))
        if r.random() < .1: s += r.choice(["#id", "#", "#a/b"])
        if r.random() < .08: s = r.choice(["http://h.example/", "http://h.example", "file://", "file:///", "x://"]) + s
        if r.random() < .04: s = r.choice(["", "#s", ".", "./", "a/", "a/.."])
        if odd or r.random() < .03: s = r.choice(["/", "//", "\\", "\\\\", "C:\\", "\\\\.\\", "\\\\..\\", "/.."] if odd else ["/"]) + s
        return s
    import re
    def exact(l): # links whose meaning leaves no choice
        p = l.split("#")[0]; p = re.sub(r"^[^:/?#]*://[^/]*", "", p) if "://" in p else p
        return "//" not in p.replace("\\", "/")
    tree0 = [["i.png", "I"], ["a/i.png", "AI"], ["a/b/i.png", "ABI"]]
    beh = ctx.generate("MCPack", ctx.pick("MCPack.cfg", "MCPackX.cfg"))
    if len(beh) > ctx.pick(4000, 10**6): beh = r.sample(beh, ctx.pick(4000, 10**6))
    for i, l in enumerate(beh):
        ex = exact(l); mode = "element" if i % 7 == 0 else "list"
        sc.append({"kind": "exhaustive", "files": [["p/base/" + a, b] for a, b in tree0] + [["i.png", "S1"], ["a/i.png", "S2"], ["p/i.png", "S3"], ["p/a/i.png", "S4"], ["p/b/i.png", "S5"], ["b/i.png", "S6"]],
                   "base": "p/base", "mode": mode, "links": [l], "kml": "<Placemark/>" if mode == "list" else "<GroundOverlay><Icon><href>%s</href></Icon></GroundOverlay>" % l, "name": "", "iskml": True, "fl": tree0, "loose": not ex})
    for _ in range(ctx.pick(3500, 40000)):
        odd = r.random() < .12; links = [link(odd and r.random() < .6) for _ in range(r.choice([1, 2, 3, 5, 9]) if r.random() < .95 else 30)]
        if r.random() < .3: links += r.sample(links, 1)
        mode = r.choice(["list", "list", "element", "file"])
        iskml = mode != "file" or r.random() < .93
        base = r.choice(["p/base", "p/base/", "p/q/base"]) if mode != "file" else r.choice(["p/base", "p/q/base"])
        files = [f for f in tree if r.random() < .8]
        esc = [l.replace("&amp;", "&").replace("&", "&amp;").replace("<", "&lt;") for l in links]; links = [l.replace("&amp;", "&") for l in links]
        if mode == "list": kml = "<Placemark/>"
        else: kml = "<Document>" + "".join(r.choice(["<GroundOverlay><Icon><href>%s</href></Icon></GroundOverlay>", "<NetworkLink><Link><href>%s</href></Link></NetworkLink>", "<Placemark><styleUrl>%s</styleUrl></Placemark>", "<Placemark><Model><ResourceMap><Alias><targetHref>%s</targetHref></Alias></ResourceMap></Model></Placemark>"]) % e for e in esc) + "</Document>"
        if not iskml: kml = r.choice(["not kml", "", "<a/>", "<Document>"])
        root = base.rstrip("/")
        allf = [[root + "/" + a, b] for a, b in files] + [[root.rsplit("/", 1)[0] + "/" + a, b] for a, b in out] + [["i.png", "SECRET6"], ["secret", "SECRET7"]]
        name = r.choice(["m.kml", "n.kml", "i.png.kml"])
        fl = files + ([[name, kml]] if mode == "file" else [])
        sc.append({"kind": mode, "files": allf, "base": base, "mode": mode, "links": links, "kml": kml, "name": name, "iskml": iskml, "fl": fl,
                   "loose": not all(exact(l) for l in links)})
    ctx.run("pack", "JPack", sc, lambda s, x: {"id": x["id"], "files": s["fl"], "mode": s["mode"], "links": s["links"], "iskml": s["iskml"], "loose": s["loose"], "ev": [x]})
    return ctx.finish("random directory trees with files outside the base directory that share names with files in it, and random lists and documents of links over names, dot segments, both separators, schemes, fragments and odd prefixes; non-trivial = distinct tree and links",
                      ["no symbolic links below the base directory"])
