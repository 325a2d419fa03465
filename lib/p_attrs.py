"""C31: attribute lists."""
import fw, gen
from p_dom import REG, prop
@prop("C31")
def c31(ctx):
    r = ctx.rng; sc = []
    for b in ctx.generate("MCAttrs", ctx.pick("MCAttrs.cfg", "MCAttrsX.cfg")):
        sc.append({"kind": "model", "ops": b, "xml": False})
    if len(sc) > ctx.pick(4000, 60000): sc = r.sample(sc, ctx.pick(4000, 60000))
    names = ["a", "b", "id", "p:a", "p:b", "q:a", "pp:a", "xml", "lat"]; odd = names + ["", "p", "p:", ":a", "p:p:a"]
    strs = ["", "x", "1", "0", "true", "false", " 1", "12", "-7", "+3", "1.5", "-0.25", "abc", "<&\"'>", "a\tb\nc\rd", " sp ", "caf\u00c3\u00a9"]
    for _ in range(ctx.pick(2500, 30000)):
        xml = r.random() < .7; ns = names if xml else odd; ops = []; dbl = set()
        for _ in range(r.randint(2, 14)):
            k = r.random(); w = r.randint(0, 2); n = r.choice(ns)
            if k < .12: ops.append([r.choice(["create", "createv"]), w, [r.choice(ns) if i % 2 == 0 else r.choice(strs) for i in range(r.randint(0, 7))]] if r.random() < .93 else [r.choice(["create", "createv"]), w, [y for i in range(30) for y in ("n%d" % i, r.choice(strs))]])
            elif k < .42:
                t = r.choice(["str", "str", "SetString", "int", "bool", "dbl"])
                ops.append(["set", w, n, t, {"int": r.choice(["0", "5", "-12", "2147483647"]), "bool": r.choice("01"), "dbl": r.choice(["0", "1.5", "-122.25", "1e+20", "0.1"])}.get(t, r.choice(strs))])
            elif k < .6: ops.append([r.choice(["get", "cut"]), w, n, r.choice(["str", "int", "bool", "null"])])
            elif k < .68: ops.append(["find", w, n])
            elif k < .76: ops.append(["key", w, r.choice(strs)])
            elif k < .84: ops.append(["merge", w, r.randint(0, 2)])
            elif k < .86:
                q = [x for _ in range(r.randint(0, 4)) for x in (r.choice(["xmlns", "xmlns:a", "xmlns:kml", "xmlns:x", "xmlns2", "xmlnsx:y", "a"]), r.choice(["", "urn:a", "urn:b", "http://x/y"]))]
                ops += [["create", w, q], ["xmlns", w, ["a", "x", "kml", "", "zz", "urn:a", "urn:b", "http://x/y"]]]
            elif k < .88: ops.append(["xmlns", w, ["a", "", "x", "1"]])
            elif k < .9: ops.append(["clone", w, (w + r.randint(1, 2)) % 3])
            else: ops.append(["split", w, r.choice(["p", "q", "zz", "pp"] + ([""] if not xml else [])), (w + r.randint(1, 2)) % 3])
        sc.append({"kind": "random", "ops": ops, "xml": xml})
    for v in ["0", "1.5", "-122.25", "1e+20", "0.1", "3.14159265358979", "-0.001", "180"]:
        sc.append({"kind": "double", "xml": True, "ops": [["set", 0, "x", "str", v], ["get", 0, "x", "dbl"], ["set", 0, "y", "dbl", v], ["get", 0, "y", "str"], ["cut", 0, "y", "dbl"], ["cut", 0, "y", "dbl"]]})
    ctx.run("attrs", "JAttrs", sc, lambda s, r: {"id": r["id"], "xml": s["xml"], "ev": r["ev"]})
    return ctx.finish("every arrangement of three lists reachable in the model with one history each, and random histories of all operations; non-trivial = distinct history", ["a text is asked for as a number only if it begins with one or with no digit"])
