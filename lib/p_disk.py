"""C36: files on a disk that may be full."""
import fw
from p_dom import REG, prop
from p_kmz import short
LINKS = ["i1.bin", "i2.bin", "none.bin"]
def kml(r, big, li=None):
    li = [r.choice(LINKS) for _ in range(r.choice([0, 1, 1, 2, 3]))] if li is None else li
    pad = "".join(r.choice("abcdefgh 0123456789") for _ in range(big))
    return "<Document><description>%s</description>%s</Document>" % (pad, "".join("<GroundOverlay><Icon><href>%s</href></Icon></GroundOverlay>" % l for l in li)), li
def data(r):
    n = r.choice([0, 1, 2, 10, 100, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, r.randint(0, 6000), r.choice([20000, 300])])
    return r.choice(["a", "\0", "ab\r\n"]) * (n // 2) if r.random() < .3 else r.randbytes(n).decode("latin1").replace("~", "-")
def lim(r):
    k = r.random()
    if k < .4: return ["none", 0]
    if k < .6: return ["rel", r.choice([-2, -1, -1, 0, 0, 1, 5, -22, -21, -60, -100])]
    if k < .85: return ["frac", r.random()]
    return ["abs", r.choice([0, 1, 4, 30, 4096, 8192, 1024])]
def history(r):
    ops = []; temps = []; n = 0; files = [[l, data(r)] for l in LINKS[:2] if r.random() < .8]
    paths = lambda: r.choice(["a", "a", "b", "d/c", "d", "nodir/x", ""] + temps + temps)
    for _ in range(r.randint(2, 9)):
        k = r.random()
        if k < .3: ops.append({"op": "write", "p": paths(), "d": data(r), "lim": lim(r)})
        elif k < .4: ops.append({"op": "kmz", "p": paths(), "d": kml(r, r.choice([0, 50, 2000, 9000]))[0], "lim": lim(r), "links": []})
        elif k < .52:
            x, li = kml(r, r.choice([0, 50, 2000, 9000])); ops.append({"op": r.choice(["elem", "path"]), "p": paths(), "d": x, "lim": lim(r), "links": li})
        elif k < .7: ops.append({"op": "read", "p": paths()})
        elif k < .78: ops.append({"op": "exists", "p": paths()})
        elif k < .86: ops.append({"op": "delete", "p": paths()})
        elif k < .92 or not temps:
            t = "T%d" % n; n += 1; temps.append(t); ops.append({"op": "temp", "p": t})
        elif k < .95:
            t = r.choice(temps); temps.remove(t); ops += [{"op": "drop", "p": t}, {"op": "exists", "p": t}]
        else: ops.append({"op": "join", "p": r.choice(["", "/", "a", "a/", "/a/b", "a\\", "d.e/"]), "d": r.choice(["", "x", "x/y", "x\\y", "y.kml", "x/"])})
    if r.random() < .3:   # now and then no file can be opened
        for o in ops:
            if o["op"] in ("write", "kmz", "elem", "path", "read", "exists", "delete") and r.random() < .3: o["nofd"] = True
        if r.random() < .5: ops.insert(r.randint(0, len(ops)), {"op": "temp", "p": "X", "nofd": True})
    return {"kind": "history", "files": files, "ops": ops}
@prop("C36")
def c36(ctx):
    r = ctx.rng; ctx.model("MCDisk", ctx.pick("MCDisk.cfg", "MCDiskX.cfg"))
    sc = [history(r) for _ in range(ctx.pick(1500, 20000))]
    for n in (70000, 1100000, 3000000): sc.append({"kind": "large", "files": [], "ops": [{"op": "write", "p": "a", "d": "xy\0" * (n // 3), "lim": ["none", 0]}, {"op": "read", "p": "a"}]})
    for k in (60, 300):   # many links, most of them to files that are not there
        x, li = kml(r, 50, ["none.bin"] * k + ["i1.bin", "none.bin", "i2.bin"])
        for op in ("elem", "path"): sc.append({"kind": "many links", "files": [[l, data(r)] for l in LINKS[:2]], "ops": [{"op": op, "p": "a", "d": x, "lim": ["none", 0], "links": li}, {"op": "read", "p": "a"}]})
    # a full disk at every byte of a small archive
    for op in ("write", "kmz", "elem", "path"):
        for l in range(0, 460, ctx.pick(3, 1)):
            x, li = kml(r, r.choice([0, 20])); 
            sc.append({"kind": "every byte", "files": [["i1.bin", data(r)[:r.choice([0, 5, 30])]]], "ops": [{"op": op, "p": "a", "d": x, "lim": ["abs", l], "links": li}, {"op": "read", "p": "a"}]})
    def tr(s, x):
        ev = []
        for o, e in zip(s["ops"] + [{}], x["ev"]):
            e = dict(e)
            if e["op"] in ("write",): e["d"] = short(o["d"])
            if e["op"] == "read": e["d"] = short(e["d"])
            if "z" in e: e["z"] = [[a, short(b)] for a, b in e["z"]]; e["doc"] = short(e["doc"]); e["links"] = o["links"]
            ev.append(e)
        return {"id": x["id"], "files": [[a, short(b)] for a, b in s["files"]], "ev": ev}
    ctx.run("disk", "JDisk", sc, tr)
    return ctx.finish("random histories of writes, archives, reads, deletions and temporary files where the disk fills up at a chosen byte of a write (RLIMIT_FSIZE), and every byte of small ones, and where no file can be opened; non-trivial = distinct history", ["the disk is full means that no file can grow beyond a given size"])
