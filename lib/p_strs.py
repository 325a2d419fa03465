"""C39: text helpers."""
from p_dom import REG, prop
SEPS = ["a", ".", "-.", "aa", "", "1", " ", "|", "aA", "a1a"]
def word(r, al, n): return "".join(r.choice(al) for _ in range(r.randint(0, n)))
def num(r):
    return r.choice(["", "", "", "-", "-", "+", " ", "--", "-."]) + r.choice(["", str(r.randint(0, 9)), str(r.randint(0, 10 ** r.randint(1, 14)))]) + r.choice(["", "", ".", "." + str(r.randint(0, 9)), "." + word(r, "0123456789", 5)]) + r.choice(["", "", "", " ", "x", "abc", ".", "-", "%", "deg", " 7", "\n"])
def short(s): return sum(c.isdigit() for c in s) <= 15
def op(r):
    k = r.random(); w = lambda: word(r, r.choice(["ab", "aA.b", "ab\n\t ", "äß日x", "|a|", "kmlKML."]), r.choice([2, 4, 8, 20]))
    if k < .2:
        y = r.choice(SEPS + ["ab", "aab", "||", "\n", "ä"]); return {"op": "split", "x": y.join(w() for _ in range(r.randint(1, 5) if r.random() < .95 else r.choice([50, 150]))) if r.random() < .6 else w(), "y": y}
    if k < .3: x = w(); y = r.choice([w(), x[-r.randint(1, 4):], x, "a" + x]); return {"op": "ends", "x": x, "y": y}
    if k < .4: x = word(r, "kmlKMLzZaA@[`{.0", 6); y = r.choice([x.upper(), x.lower(), x.swapcase(), word(r, "kmlKMLzZaA@[`{.0", 6), x + "a", x[:-1], x.replace("@", "`"), x.replace("[", "{")]); return {"op": "same", "x": x, "y": y}
    if k < .45: return {"op": "skip", "x": word(r, " \t\n\r", 5) + word(r, "a. \n", 3), "y": ""}
    if k < .6:
        x = num(r)
        return {"op": "num", "x": x if short(x) else "1.5", "y": ""}
    if k < .65: return {"op": "bool", "x": word(r, " \n\t", 2) + r.choice(["true", "1", "0", "false", "True", "TRUE", "tru", "", "2", "01", "1 ", "true ", "truex", "yes"]), "y": ""}
    if k < .72: return {"op": "int", "x": word(r, " \n", 2) + r.choice(["", "-", "+"]) + str(r.randint(0, 10 ** r.randint(0, 9))) + r.choice(["", " ", "x", ".5", "-"]), "y": ""}
    if k < .75: return {"op": "text", "x": w(), "y": ""}
    if k < .87:
        b, e = r.choice([("$[", "]"), ("$[", "]"), ("<", ">"), ("%", "%"), ("$(", ")")]); ks = r.sample(["a", "b", "ab", "a b", "", "name", "x/y", "a.b"], r.randint(0, 4))
        m = [[q, r.choice(["", "v", b + "a" + e, "$[b]", b, "long value", e])] for q in sorted(ks)]
        x = "".join(r.choice([b + r.choice(ks or ["z"]) + e, b, e, b + b, w(), "a", b + "zz" + e, b + "a"]) for _ in range(r.randint(0, 6) if r.random() < .95 else r.choice([50, 150])))
        return {"op": "expand", "x": x, "y": "", "map": m, "b": b, "e": e}
    if k < .91: return {"op": "ofint", "x": "", "y": "", "n": r.choice([0, -1, 1, 2147483647, -2147483647, r.randint(-10 ** 9, 10 ** 9), r.randint(-99, 99)])}
    if k < .93: return {"op": "ofbool", "x": "", "y": "", "n": r.randint(0, 1)}
    if k < .97: x = r.choice(["", "-"]) + str(r.randint(0, 10 ** r.randint(0, 10))) + r.choice(["", ".5", "." + word(r, "0123456789", 4) + "1"]); return {"op": "ofdouble", "x": x, "y": ""}
    return {"op": "hex", "x": "", "y": "", "n": r.choice([r.randint(0, 255), r.randint(0, 2 ** 31 - 1)])}
@prop("C39")
def c39(ctx):
    r = ctx.rng; sc = []
    for (t,) in ctx.generate("MCStrs", ctx.pick("MCStrs.cfg", "MCStrsX.cfg")):
        o = [{"op": "split", "x": t, "y": r.choice(SEPS)}, {"op": "ends", "x": t, "y": r.choice(SEPS)}, {"op": "same", "x": t, "y": r.choice([t.lower(), t.upper(), t.swapcase(), t[:-1]])}, {"op": "skip", "x": t, "y": ""}, {"op": "bool", "x": t, "y": ""}, {"op": "num", "x": t, "y": ""}]
        o.append({"op": "int", "x": t, "y": ""}); sc.append({"kind": "short texts", "ops": o})
    for _ in range(ctx.pick(4000, 60000)): sc.append({"kind": "random", "ops": [op(r) for _ in range(4)]})
    ctx.run("strs", "JStrs", sc, lambda s, x: {"id": x["id"], "ev": x["ev"]})
    return ctx.finish("every text of up to 4 (thorough: 5) characters over - . digits blank and letters in both cases, random texts, numbers, references; non-trivial = distinct list of calls", ["numbers have at most 15 digits and no malformed exponent", "keys do not contain the end mark"])
