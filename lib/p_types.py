"""C25: types."""
import fw, gen
from p_dom import REG, prop
def mark(g, t):
    if isinstance(t, str): return t
    tag, at, kids = t
    return (tag, at + [("zz", tag)] if tag in g.types else at, [mark(g, k) for k in kids])
@prop("C25")
def c25(ctx):
    r = ctx.rng; g = gen.Gen(r); N = 240
    # the whole table is one trace, so that a missing type is seen too
    rows = ctx.drive("types", [{"i": i} for i in range(N)])
    names = sorted({x["n"] for x in rows.values() if x.get("n")})
    ctx.run("types", "JTypes", [{"kind": "type", "i": i} for i in range(N)], lambda s, r: {"id": r["id"], "names": names, "ev": [r]})
    sc = []
    for _ in range(ctx.pick(1, 4)):
        for kind, t in g.systematic(): sc.append({"kind": kind, "x": g.doc(mark(g, t))})
    for kind, t in g.random_docs(ctx.pick(800, 20000)): sc.append({"kind": kind, "x": g.doc(mark(g, t))})
    ctx.run("typesof", "JTypes", sc, lambda s, r: {"id": r["id"], "ev": r["ev"]})
    return ctx.finish("every type of the table crossed with every type test, cast and visit and every enumerated value in and out of range; every slot of every type and random trees, each element of each document; non-trivial = distinct type or document", [])
