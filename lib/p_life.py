"""C24: lifetimes."""
import random, fw, gen
from p_dom import REG, prop
from p_tree import random_history, objects_of, op, api_slots
class Collect:
    """A context that only collects the scenarios another check would run."""
    thorough = False
    def __init__(self, ctx, pid): self.rng = random.Random("%s/%s/life" % (pid, ctx.seed)); self.got = {}; self.ctx = ctx; self.info = {}; self.seed = ctx.seed; self.pid = pid; self.known = []; self.dir = ctx.dir; self.kinds = {}; self.models = []; self.samples = []
    def pick(self, a, b): return a
    def log(self, *a): pass
    def drive(self, handler, scenarios, *a, **k): return self.ctx.drive(handler, scenarios, *a, **k)
    def model(self, *a, **k): pass
    def generate(self, *a, **k): return []
    def judge(self, *a, **k): return []
    def run(self, handler, module, scenarios, *a, **k): self.got.setdefault(handler, []).extend(scenarios); return []
    def finish(self, *a, **k): return 0
def wrap(s, r): return {"id": r["id"], "ty": s["ty"], "ids": s["ids"], "ev": r["ev"] + [{"k": "left", "left": r["left"]}]}
SLOTS = ["Feature", "Geometry", "StyleSelector", "Region", "AbstractView", "TimePrimitive", "Lod", "LatLonAltBox", "Link", "Icon", "ExtendedData", "IconStyle"]
@prop("C24")
def c24(ctx):
    r = ctx.rng; g = gen.Gen(r); sc = []; ob = objects_of(g)
    for pool in "abc":
        beh = ctx.generate("MCLife", ctx.pick("MCLife.cfg", "MCLifeX.cfg"), env={"POOL": pool})
        if len(beh) > ctx.pick(3000, 40000): beh = r.sample(beh, ctx.pick(3000, 40000))
        for b in beh:
            e = list(range(len(b["ty"]) + 1)); r.shuffle(e)
            sc.append({"kind": "exhaustive", "ty": b["ty"], "ids": b["ids"], "ops": b["h"], "end": e})
    docs = [g.doc(t) for _, t in g.random_docs(60)] + [g.doc(t) for _, t in r.sample(list(g.systematic()), 60)] + \
           ['<kml><Document id="d"><Style id="s"><IconStyle><Icon><href>a.png</href></Icon></IconStyle></Style><Placemark id="x"><styleUrl>#s</styleUrl><Point/></Placemark><NetworkLink><Link/></NetworkLink></Document></kml>',
            '<Folder><Placemark id="x"/><Placemark id="x"/></Folder>', '<Folder><Placemark>', '<bogus/>', '', '<Folder>' * 120]
    parents = [t for t in g.types if api_slots(g, t)]
    for k in range(ctx.pick(1200, 12000)):
        s = random_history(g, r, ob, parents[k % len(parents)])
        if not s: continue
        ops = s["ops"]; n = len(s["ty"])
        for _ in range(r.randint(2, 12)):
            q = r.random(); x = r.randint(1, n + 6)
            o = op("drop", r.randint(1, n)) if q < .35 else op("hold", x, r.choice(SLOTS), i=r.choice([0, 0, 1])) if q < .5 else op("file", x) if q < .6 else \
                dict(op("filetext", 0), x=r.choice(docs), lax=r.random() < .5) if q < .68 else dict(op("parse", 0), x=r.choice(docs)) if q < .76 else op("clone", x) if q < .84 else \
                op("dropfile", r.randint(1, 3)) if q < .9 else op("root", r.randint(1, 3)) if q < .95 else op("find", r.randint(1, 3), id=r.choice(["x", "s", "a", "d"]))
            ops.insert(r.randint(0, len(ops)), o)
        if r.random() < .15:   # any number of smart pointers to one element
            x = r.randint(1, n); at = sorted(r.randint(0, len(ops)) for _ in range(3))
            ops.insert(at[0], op("many", x, i=r.choice([1, 3, 130, 260, 300, 33000, 66000, 70000])))
            ops.insert(at[1] + 1, op("drop", x)) if r.random() < .5 else None
            ops.append(op("fewer", x, i=r.choice([0, 1, 200, 250, 32000, 65000])))
        e = list(range(0, n + 8)); r.shuffle(e)
        for o in ops: o.setdefault("x", ""); o.setdefault("lax", False)
        sc.append({"kind": "random", "ty": s["ty"], "ids": s["ids"], "ops": ops, "end": e})
    ctx.run("life", "JLife", sc, wrap)
    # what the scenarios of every other check leave behind
    left = []
    for pid in sorted(REG):
        if pid == "C24": continue
        c = Collect(ctx, pid)
        REG[pid](c)
        for h, ss in c.got.items():
            for s in (ss if len(ss) <= ctx.pick(60, 2000) else c.rng.sample(ss, ctx.pick(60, 2000))):
                if len(fw.dumps(s)) < 20000: left.append({"kind": "left:" + h, "driver": h, "in": s})
    ctx.run("leak", "JLife", left, lambda s, r: {"id": r["id"], "ev": [{"k": "left", "left": r["left"]}]}, secs=30)
    ctx.run("orphan", "JLife", [{"kind": "orphan", "known": "orphan-getparent"}], lambda s, r: {"id": r["id"], "ev": [{"k": "left", "left": [[0, 0, 0, 0]]}]})
    return ctx.finish("every history of the pools of the lifetime model to the bound followed by dropping everything in a random order, random histories for every parent type with parsing, cloning and files, and what a sample of the scenarios of every other check leaves allocated, open or on disk; non-trivial = distinct history",
                      ["no element is placed below itself"])
