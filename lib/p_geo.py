"""C38: great-circle geometry."""
from p_dom import REG, prop
HALF = 200016091
def lat(r): return r.choice([0, 0, 90000, -90000, 45000, -45000, 1, -1, 89999, -89999, r.randint(-90000, 90000), r.randint(-90000, 90000), r.randint(-90000, 90000), r.randint(-90, 90) * 1000])
def lng(r): return r.choice([0, 0, 180000, -180000, 90000, -90000, 179999, -179999, r.randint(-180000, 180000), r.randint(-180000, 180000), r.randint(-180000, 180000), r.randint(-180, 180) * 1000])
def pt(r): return [lat(r), lng(r)]
def other(r, p):
    k = r.random()
    if k < .1: return list(p)
    if k < .2: return [lat(r), p[1]]
    if k < .3: return [p[0], lng(r)]
    if k < .4: return [-p[0], p[1] + r.choice([180000, -180000])]          # the antipode
    if k < .6: return [max(-90000, min(90000, p[0] + r.randint(-300, 300))), p[1] + r.randint(-300, 300)]
    return pt(r)
def length(r, p, a):
    k = r.random(); deg = 1111.200506
    if k < .2 and a % 180000 == 0:   # exactly to a pole
        return round((90000 - p[0] if a % 360000 == 0 else 90000 + p[0]) * deg)
    return r.choice([0, 1, 10, r.randint(0, 1000), r.randint(0, 100000), r.randint(0, 10 ** 7), r.randint(0, HALF), r.randint(0, HALF), round(90000 * deg), HALF - r.randint(0, 1000), r.randint(HALF, 2 * HALF - 1000)])
def az(r): return r.choice([0, 0, 180000, 90000, -90000, 270000, 360000, r.randint(-180000, 180000), r.randint(0, 360000), r.randint(0, 360000), r.randint(-1, 1)])
def op(r):
    k = r.random()
    if k < .3: p = pt(r); return {"op": "dist", "p": p, "q": other(r, p), "by": r.choice([0, 1000, 90000, -180000, 360000, r.randint(-180000, 180000)])}
    if k < .35: return {"op": "tri", "p": pt(r), "q": pt(r), "r": pt(r)}
    if k < .65: p = pt(r); a = az(r); return {"op": "radial", "p": p, "a": a, "d": length(r, p, a)}
    if k < .75: p = pt(r); a = az(r); return {"op": "along", "p": p, "a": a, "d1": length(r, p, a), "d2": length(r, p, a)}
    if k < .85: p = pt(r); z = lambda: r.choice([0, 0, 10, -10, r.randint(-1000, 1000), r.randint(0, 100000), r.randint(0, 10 ** 6), r.randint(0, 10 ** 8)]); return {"op": "d3", "p": p, "q": other(r, p), "z1": z(), "z2": z()}
    if k < .92: return {"op": "vec", "range": r.choice([0, 10, r.randint(0, 1000), r.randint(0, 10 ** 6), r.randint(0, 10 ** 8)]), "el": r.choice([0, 90000, -90000, 180000, 45000, r.randint(-90000, 90000), r.randint(-180000, 180000)])}
    if k < .96: return {"op": "units", "x": r.choice([0, 180000, 1, r.randint(0, 180000)]), "m": r.randint(0, 20000)}
    v = lambda: r.randint(-9, 9)
    new = [v() for _ in range(r.choice([0, 2, 3]))]; w = (new + [0, 0])[:max(2, len(new))]; s = []
    for _ in range(r.randint(0, 4)):
        c = r.choice([0, 1, 2, 2, 8, 9, 3, -1]); x = v(); s.append([c, x])
        if c in (0, 1): w[c] = x
        elif c in (2, 8): w = w[:2] + [x]
        elif c == 9: w = w[:2]
    return {"op": "vec3", "new": new, "sets": s, "want": w}
@prop("C38")
def c38(ctx):
    r = ctx.rng; sc = []
    for p, q in ctx.generate("MCGeo", ctx.pick("MCGeo.cfg", "MCGeoX.cfg")):
        sc.append({"kind": "lattice", "ops": [{"op": "dist", "p": p, "q": q, "by": 30000}]})
    for m in range(-89900, 90000, ctx.pick(100, 10)):   # along every meridian to the poles and over them
        for a, d in ((0, 90000 - m), (180000, 90000 + m), (r.choice([0, 180000]), r.randint(0, 180000))):
            sc.append({"kind": "meridian", "ops": [{"op": "radial", "p": [m, lng(r)], "a": a, "arc": d}]})
        sc.append({"kind": "antipode", "ops": [{"op": "dist", "p": [m, 0], "q": [-m, 180000], "by": lng(r)}]})
    for _ in range(ctx.pick(2500, 60000)): sc.append({"kind": "random", "ops": [op(r) for _ in range(4)]})
    ctx.run("geo", "JGeo", sc, lambda s, x: {"id": x["id"], "ev": x["ev"]})
    return ctx.finish("every pair of a lattice of points, radials to, over and along the poles, antipodes, random points, distances up to the whole circle; non-trivial = distinct list of operations", ["the azimuth at a pole and the longitude of a pole are not judged", "longitudes are compared modulo 360 degrees (the header leaves the antemeridian out)"])
