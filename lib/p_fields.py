"""C27: accessors of fields and attributes."""
import fw, gen
from p_dom import REG, prop
def value(r, v, enums):
    if v in ("str", "desc"): return r.choice(["", "x", "a b", "<b>x</b> & y", "#s", "0", "http://h/p?a=1&b=2#f", "\"q'", "caf\u00c3\u00a9"])
    if v in enums: return str(r.randrange(len(enums[v])))
    if v == "bool": return r.choice("01")
    if v == "color": return r.choice(["00000000", "ffffffff", "ff000000", "12345678", "a0b1c2d3", "%08x" % r.randrange(1 << 32)])
    if v == "int": return r.choice(["0", "1", "-1", "2", "256", "7", "2147483647", "-2147483648"])
    return r.choice(["0", "1", "-1", "180", "-180", "4", "0.5", "-122.25", "1e-07", "1e+20", "123456.789", "0.1", "-0.001", "3.14159265358979"])
@prop("C27")
def c27(ctx):
    r = ctx.rng; g = gen.Gen(r); sch = fw.schema(); enums = sch["enums"]; table = {}
    for t in sch["types"]:
        if t["n"] == "Metadata": continue
        fs = [("@" + k, v) for k, v in t["attrs"]] + [(s["n"], s["v"]) for s in t["slots"] if s["k"] == "f" and s["v"] not in ("coords", "states")] + ([("#", "str")] if t["n"] in sch["text"] else [])
        if fs: table[t["n"]] = fs
    sc = []
    def diff(v):
        a = value(r, v, enums)
        for _ in range(20):
            b = value(r, v, enums)
            if b != a: break
        return [a, b]
    beh = ctx.generate("MCFields", ctx.pick("MCFields.cfg", "MCFieldsX.cfg"))
    # every history of the model, with the fields and values of some type; every pair of fields of every type occurs
    pairs = [(t, a, b) for t, fs in table.items() for a in fs for b in fs]
    r.shuffle(pairs)
    n = max(len(beh), len(pairs)) if not ctx.thorough else 4 * max(len(beh), len(pairs))
    r.shuffle(beh)
    for i in range(n):
        if not beh: break
        h = beh[i % len(beh)]; t, a, b = pairs[i % len(pairs)]; f = {1: a, 2: b}; vs = {1: diff(a[1]), 2: diff(b[1])}
        if a == b: vs[2] = vs[1]
        ops = [["set", o[1] - 1, f[o[2]][0], vs[o[2]][o[3] - 1]] if o[0] == "set" else ["clear", o[1] - 1, f[o[2]][0]] if o[0] == "clear" else ["copy", o[1] - 1] for o in h]
        sc.append({"kind": "model", "ty": t, "ops": ops})
    for _ in range(ctx.pick(6, 60)):
        for t, fs in table.items():
            ops = []
            # everything set, then some cleared, then a random mixture
            for f, v in fs: ops.append(["set", 0, f, value(r, v, enums)])
            r.shuffle(ops)
            for _ in range(r.randint(2, 14)):
                f, v = r.choice(fs); k = r.random(); w = r.randint(0, 1)
                ops.append(["set", w, f, value(r, v, enums)] if k < .5 else ["clear", w, f] if k < .9 else ["copy", w])
            sc.append({"kind": "random", "ty": t, "ops": ops})
    ctx.run("fields", "JFields", sc, lambda s, r: {"id": r["id"], "ty": s["ty"], "ev": r["ev"]})
    return ctx.finish("every history of the two-field model, spread over every pair of fields of every type, and random histories that set every field of every type; non-trivial = distinct history",
                      ["the default of a field is the one the KML 2.2 schema gives, except as DESIGN.md lists"])
