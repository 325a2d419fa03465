"""C22: CSV."""
import fw, gen
from p_dom import REG, prop
def case(r, s): return "".join(c.upper() if r.random() < .3 else c for c in s)
@prop("C22")
def c22(ctx):
    r = ctx.rng; sc = []
    def cell(v=None):
        v = r.choice(["", "a", "b c", "x,y", 'q"q', " pad ", "#c", "a #c", "a#", "a&b", "<i>", "1", "\xc3\xa9", "tab\there", '"', '""', ",", "a\tb "]) if v is None else v
        k = r.random()
        if k < .4 or any(c in v for c in ',"') and k < .9: v = '"' + v.replace('"', '""') + '"' + r.choice(["", "", " ", "junk"])
        elif k < .5 and v: v = v.replace('"', "")
        return r.choice(["", "", " ", "\t"]) + v + r.choice(["", "", " "])
    NUMS = ["1", "-2.5", "0", ".5", "-.25", "180", "12.125", "1e2", "-1.5e1", "12e", "1e", "1e+", "2E-1", "x", "", "-", ".", "+5", "12abc", "--1", "nan", "1.2.3", "1,5", " 7", "5 "]
    def num(): return cell(r.choice(NUMS[:9])) if r.random() < .75 else cell(r.choice(NUMS))
    def data():
        q = r.random(); big = 0 if q < .988 else 1 if q < .992 else 2 if q < .996 else 3   # wide, long cells, many rows
        cols = ["latitude", "longitude"] + (["c%d" % i for i in range(40)] if big == 1 else []) + r.sample(["name", "description", "feature-id", "style-id", "extra", "other col", "x", "name", "latitude", "", "#h"], r.randint(0, 5))
        if r.random() < .1: cols.remove(r.choice(["latitude", "longitude"]))
        r.shuffle(cols); cols = [case(r, c) if r.random() < .4 else c for c in cols]
        lines = [",".join(cell(c) for c in cols)]
        for _ in range(r.randint(0, 5) if big < 3 else 80):
            row = [num() if c.lower() in ("latitude", "longitude") else cell("w, " * 500 if big == 2 and r.random() < .5 else None) for c in cols]
            k = r.random()
            if k < .1: row = row[:-1]
            elif k < .2: row.append(cell())
            elif k < .27: row[0] = r.choice(["#", "# c", '"#q"', " #x"])
            elif k < .3: row = []
            lines.append(",".join(row))
        nl = r.choice(["\n", "\n", "\r\n", "\r", "\n\n"])
        return r.choice(["", "", "", "\n"]) + nl.join(lines) + r.choice(["", nl])
    for t in ctx.generate("MCCsv", ctx.pick("MCCsv.cfg", "MCCsvX.cfg")): sc.append({"kind": "text", "x": t, "stop": 0})
    for _ in range(ctx.pick(4000, 60000)):
        sc.append({"kind": "table", "x": data(), "stop": r.choice([0, 0, 0, 1, 2, 3])})
    HD = "latitude,longitude\n"
    for n in NUMS: sc.append({"kind": "number", "x": HD + '"%s",3' % n, "stop": 0}); sc.append({"kind": "number", "x": HD + '4,"%s"' % n, "stop": 0})
    ctx.run("csv", "JCsv", sc, lambda s, r: {"id": r["id"], "x": s["x"], "stop": s["stop"], "ev": [r]})
    sc = []
    for _ in range(ctx.pick(3000, 30000)):
        x = "".join(r.choice(['a', 'b', '"', " ", ",", "|", "\t", ";", ": "]) for _ in range(r.randint(0, 10)))
        sc.append({"kind": "split", "x": x, "d": r.choice([",", ",", "|", "\t", " ", ";", ": ", "ab", "aa"])})
    ctx.run("split", "JCsv", sc, lambda s, r: {"id": r["id"], "x": s["x"], "d": s["d"], "ev": [r]})
    sc = []
    for _ in range(ctx.pick(1200, 12000)):
        T = ["", "a", "b c", "a,b", "<i>", "\xc3\xa9", " x ", "#s", "0", "7"]
        ls = ["|".join([r.choice(["1", "-3", "", "9x", "100"]), r.choice(NUMS), r.choice(NUMS)] + [r.choice(T) for _ in range(5)])for _ in range(r.randint(1, 5))]
        ls = ["|".join(l.split("|")[:r.choice([0, 1, 3, 4, 5, 5, 5, 6, 6, 6, 7])]) or "x" for l in ls]
        sc.append({"kind": "score lines", "lines": ls, "nl": r.random() < .5})
    ctx.run("csvfile", "JCsv", sc, lambda s, r: {"id": r["id"], "x": "", "lines": s["lines"], "ev": [r]})
    return ctx.finish("every text of up to %d characters of an alphabet of five; random tables with every header role, quoting and row defect, stopped at every row; random texts split at several delimiters; non-trivial = distinct text" % ctx.pick(5, 7),
                      ["data has no NUL character", "what follows a leading number in a coordinate is ignored"])
