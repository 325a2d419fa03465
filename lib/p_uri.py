"""C18: URIs."""
import fw, gen
from p_dom import REG, prop
def ref(r, absolute=False):
    k = r.random(); s = ""
    seg = ["a", "b.kml", "..", ".", "", "c.kmz", "d.kmzx", ".kmz", "e-f_g~", "%41b", "x:y", "...", "..a", "doc.kml", "A", "a.kmz.kml", "k@l", "p;q=1,2"]
    bad = ["a b", "<", "a\\b", "%4", "%zz", "\"", "^", "|", "[x]"]
    if absolute or k < .35:
        s = r.choice(["http", "https", "file", "HTTP", "x+y-z.1", "urn"] if not absolute else ["http", "http", "https", "file", "ftp"]) + ":"
        if k < .02: s = r.choice(["1a:", ":", "a_b:"])
    if s or r.random() < .08:
        if r.random() < .9: s += "//" + r.choice(["", "u@", "u:p@"] if r.random() < .1 else [""]) + r.choice(["h.example", "k.example", "H.Example", "www.kmz.com", "h", "", "1.2.3.4", "foo.kmz"] if r.random() < .9 else ["h_x", "h~"]) + r.choice(["", "", "", ":80", ":", ":8x"] if r.random() < .3 else [""])
    path = "/".join(r.choice(seg) if r.random() > .02 else r.choice(bad) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5]) if r.random() < .97 else r.choice([12, 40])))
    if "//" in s and path and not path.startswith("/"): path = "/" + path
    elif r.random() < .15: path = "/" + path
    s += path
    if r.random() < .15: s += "?" + r.choice(["q=1", "a=b&c=d", "", "u=http://x/y", "x?y", "k.kmz/z"])
    if r.random() < .25: s += "#" + r.choice(["id", "", "a/b", "s?t", "x#y", "http://z"])
    return s
@prop("C18")
def c18(ctx):
    r = ctx.rng; sc = []; us = set()
    if not ctx.thorough: n = 6000
    else: n = 60000
    small = ["a", "b.kmz", "..", ".", ""]
    def add(kind, u, b, geo="g/m.dae"): sc.append({"kind": kind, "u": fw.lat(u), "base": fw.lat(b), "geo": fw.lat(geo)})
    bases = ["http://h.example/x/y/z.kml", "http://h.example/k.kmz/d/doc.kml", "file:///p/q.kml", "http://h.example"]
    import itertools
    for n1 in range(0, ctx.pick(4, 5) + 1):
        for c in itertools.product(small, repeat=n1):
            p = "/".join(c)
            add("paths", p, bases[(len(sc)) % len(bases)]); add("paths", "/" + p, bases[len(sc) % len(bases)])
            if n1 < 4: add("paths", "http://h" + ("/" + p if n1 else ""), bases[len(sc) % len(bases)])
    for _ in range(n):
        add("random", ref(r), ref(r, True) if r.random() < .85 else ref(r), ref(r) if r.random() < .5 else "g/m.dae")
    fs = []
    for _ in range(ctx.pick(1500, 15000)):
        fs.append({"kind": "file name", "name": ("/" if r.random() < .4 else "") + "/".join(r.choice(["a", "..", ".", "b c", "x#y", "p%20q", "50%", "k?l", "m&n", "e=f", "t+u", "(v)", "w;x", "long" * r.randrange(1, 30), "z:1", "a.kmz", "~", "'q'", "{}|^`", "<[]>", "@!$*,", ""]) for _ in range(r.choice([1, 2, 3, 4, 6])))})
    ctx.run("filename", "JUri", fs, lambda s, r: {"id": r["id"], "ev": [r]})
    ws = []
    for _ in range(ctx.pick(800, 8000)):
        q = [r.choice(["a", "..", ".", "b c", "x#y", "p%20q", "50%", "k?l", "m&n", "z:1", "long" * r.randrange(1, 30), "(v)", "~", "{}|^`"]) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        if len(q) == 1 or ":" in q[0]: q[0] = q[0].replace(":", ".")
        ws.append({"kind": "windows name", "name": r.choice(["", "", "C:\\", "d:\\", "\\\\srv\\", "\\"]) + "\\".join(q)})
    ctx.run("winname", "JUri", ws, lambda s, r: {"id": r["id"], "ev": [r]})
    hs = []
    for _ in range(ctx.pick(800, 8000)):
        P = ["scheme", "net", "path", "frag"]
        hs.append({"kind": "href parts", "ops": [r.choice([["new", ref(r)], ["set", r.choice(P), r.choice(["", "a", "http", "x.y/z", "#"])], ["set", r.choice(P), r.choice(["b", "file"])], ["clear", r.choice(P)]]) for _ in range(r.randint(1, 6))]})
    ctx.run("href", "JUri", hs, lambda s, r: {"id": r["id"], "ops": 1, "ev": r["ev"]})
    ctx.run("uri", "JUri", sc, lambda s, r: {"id": r["id"], "ev": [r]})
    return ctx.finish("all paths of up to %d segments over names, dot segments, empty segments and KMZ names, and random references over the grammar, valid and not, resolved against several bases; non-trivial = distinct reference and base" % ctx.pick(4, 5),
                      ["the uriparser library this code wraps follows RFC 3986 where its results are not observed"])
