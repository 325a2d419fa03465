"""C23: feature lists and regionating."""
import fw, gen
from p_dom import REG, prop
L = 1 << 28
@prop("C23")
def c23(ctx):
    r = ctx.rng; sc = []
    K = L >> 8
    for b in ctx.generate("MCRegion", ctx.pick("MCRegion.cfg", "MCRegionX.cfg")):
        if len(sc) > ctx.pick(4000, 30000): break
        nm = r.sample(range(len(b)), len(b))
        sc.append({"kind": "model", "api": "list", "max": r.choice([0, 1, 1, 2, 3]), "box": [], "root": "", "feats": [["f%d" % nm[i], f[0] * K, f[1] * K, str(f[2]), "point" if f[3] else "none"] for i, f in enumerate(b)]})
    def feats(n, coarse=None):
        sh = coarse or r.choice([20, 22, 24, 26]); top = L >> sh; pool = None
        if r.random() < .3: pool = [(r.randint(-top, top) << sh, r.randint(-top, top) << sh) for _ in range(2)]
        fs = []
        for i in range(n):
            y, x = r.choice(pool) if pool and r.random() < .8 else (r.randint(-top, top) << sh, r.randint(-top, top) << sh)
            fs.append(["f%d" % i, y, x, r.choice(["", "0", "1", "2", "5", "10", "-3", "7x", "100", "40000", "70000", "2000000000", "-2000000000"]), r.choice(["point"] * 6 + ["line", "none"]) if abs(y) < L and abs(x) < L else "point"])
        ns = [f[0] for f in fs]; r.shuffle(ns)
        for f, nm in zip(fs, ns): f[0] = nm
        return fs
    for _ in range(ctx.pick(1500, 15000)):
        fs = feats(r.choice([0, 1, 2, 3, 5, 8, 12, 20]))
        mx = r.choice([0, 1, 2, 3, 5]); seen = {}
        for f in fs: seen[(f[1], f[2])] = seen.get((f[1], f[2]), 0) + 1
        lone = max(seen.values(), default=0)
        if len(seen) == 1 and mx and lone > 4 * mx: mx = 0    # deeper than the model's integers
        if mx and lone > 3 * mx and len(seen) < 3: mx = lone
        sc.append({"kind": "list", "api": "list", "max": mx, "box": [], "root": "", "feats": fs})
    for _ in range(ctx.pick(300, 4000)):
        fs = feats(r.choice([0, 5, 10, 11, 25, 40]), 22); a = L >> r.choice([0, 0, 1])
        sc.append({"kind": "handler", "api": "handler", "max": 10, "box": r.choice([[a, -a, a, -a], [L, 0, L, 0], [L // 2, -L // 2, L, -L]]), "root": r.choice(["", "", "root.kml", "doc"]), "feats": fs})
    ctx.run("region", "JRegion", sc, lambda s, r: {"id": r["id"], "api": s["api"], "max": s["max"], "box": s["box"], "root": s["root"], "feats": s["feats"], "ev": [{k: r[k] for k in ("ok", "progress", "files")}]})
    sc = []
    for _ in range(ctx.pick(800, 10000)):
        data = []; front = ["q0"] if r.random() < .95 else []
        while front and len(data) < 14:
            q = front.pop(r.randrange(len(front))); data.append(q)
            front += [q + d for d in "0123" if r.random() < r.choice([.2, .5])]
        a = L >> r.choice([0, 3, 8])
        sc.append({"kind": "calls", "data": data, "null": [q for q in data if r.random() < r.choice([0, 0, .2])], "box": [a, -a, a, -a], "root": r.choice(["", "root.kml"]), "dir": r.choice(["", "out", "a/b"]),
                   "natural": r.choice([[], [L >> 2, 0, L >> 1, -(L >> 2)]])})
    ctx.run("regioncalls", "JRegion", sc, lambda s, r: dict({k: s[k] for k in ("data", "null", "box", "root", "dir", "natural")}, id=r["id"], ev=r["ev"]))
    sc = []
    for _ in range(ctx.pick(1500, 20000)):
        fs = feats(r.randint(1, 8), r.choice([26, 27])); ops = [["push", f] for f in fs]
        for _ in range(r.randint(1, 6)):
            k = r.random()
            y, x = sorted([r.randint(-4, 4) << 26, r.randint(-4, 4) << 26]), sorted([r.randint(-4, 4) << 26, r.randint(-4, 4) << 26])
            o = ["sort"] if k < .25 else ["null"] if k < .3 else ["none"] if k < .35 else [r.choice(["split", "rsplit"]), [y[1], y[0], x[1], x[0]], r.choice([0, 1, 1, 2, 3, 10]), r.random() < .7]
            ops.insert(r.randint(0, len(ops)), o)
        ops = [o if o[0] != "none" else ["none", [0, 0, 0, 0], 0, True] for o in ops]
        sc.append({"kind": "lists", "ops": ops})
    ctx.run("flist", "JRegion", sc, lambda s, r: {"id": r["id"], "ev": r["ev"]})
    return ctx.finish("every list of %d features over five positions with two scores; random lists of up to 40 features with coincident ones and every limit; random region handlers; random histories of feature lists; non-trivial = distinct list or history" % ctx.pick(3, 4),
                      ["positions are multiples of a fraction of a degree, so that regions stay exact"])
