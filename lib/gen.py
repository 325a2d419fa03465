"""Documents generated from the vocabulary of spec/KmlSchema.tla."""
import fw
class Gen:
    def __init__(self, rng):
        self.r = rng; self.ends = False; s = fw.schema()
        self.types = {t["n"]: t for t in s["types"]}; self.enums = s["enums"]; self.simple = sorted(s["simple"]); self.text = set(s["text"])
        self.complex = [t for t in self.types if t != "IconStyleIcon"]
        self.unknown = ["Foo", "x:bar", "b", "Object", "Feature", "description2", "gx:nope", "Geometry", "kml:name", "_a-b.c", "AbstractView", "coordinate"]
        self.counter = 0
    # ---- values ----
    WORDS = ["a", "hello", "Zed 9", "x-y_z", " lead", "trail ", "two  spaces", "ünï", "日本", "1", "true", "#ref", "http://h.example/p?q=1", "tab\tin", "line\nbreak", ""]
    SPEC = ["&", "<", ">", "\"", "'", "]]>", "<![CDATA[", "&amp;", "<b>x</b>", "]]", "&#65;", "<!-- c -->", "a&b<c>d\"e'f"]
    def string(self, special=True):
        r = self.r
        if r.random() < 0.5: return r.choice(self.WORDS)
        return "".join(r.choice(self.SPEC if special and r.random() < .4 else self.WORDS) for _ in range(r.randint(1, 4)))
    def uniq(self):
        self.counter += 1; return "v%d" % self.counter
    def num(self):
        r = self.r; k = r.random()
        if k < .3: return str(r.randint(-180, 180))
        if k < .6: return "%s%d.%0*d" % (r.choice(["", "-"]), r.randint(0, 179), r.randint(1, 10), r.randint(0, 9))
        if k < .8: return "%s%d.%d" % (r.choice(["", "-"]), r.randint(0, 99999), r.randint(0, 999999))
        return r.choice(["0", "0.5", "-0.25", "1.50", "007", "12e2", "125E-2", "-1e+1", "0.0001", "123456789.012345", "-179.999999999999", "1e3", ".5", "-.75"])
    def integer(self): return self.r.choice(["0", "1", "-1", "7", "42", "-300", "65536", "2147483647", "-2147483648", "12"])
    def coord(self, alt=None):
        n = self.r.choice([2, 3]) if alt is None else alt
        return ",".join(self.num() for _ in range(n))
    def sep(self): return "".join(self.r.choice(" \n\t") for _ in range(self.r.choice([1, 1, 2, 3])))
    def coords(self, n=None):
        n = self.r.choice([0, 1, 1, 2, 3, 5]) if n is None else n
        if n == 0: return self.r.choice(["", " ", "\n  "])
        s = "" if self.r.random() < .5 else self.sep()
        return s + self.sep().join(self.coord() for _ in range(n)) + ("" if self.r.random() < .5 else self.sep())
    def value(self, kind, valid=None):
        r = self.r
        if kind in ("str", "desc"): return self.string()
        if kind == "bool": return r.choice(["1", "0", "true", "false", " 1", "\n true ", ""])
        if kind == "int": return self.integer()
        if kind == "dbl": return self.num()
        if kind == "color": return "".join(r.choice("0123456789abcdefABCDEF") for _ in range(8))
        if kind == "coords": return self.coords()
        if kind == "vec3": return self.sep().join(self.num() for _ in range(3))
        if kind == "states":
            v = [r.choice(self.enums["states"] + ["bogus"]) for _ in range(r.randint(1, 3))]
            return " ".join(v)
        if kind in self.enums:
            if valid is None: valid = r.random() < .85
            return r.choice(self.enums[kind]) if valid else r.choice(["", "bogus", self.enums[kind][0] + " ", self.enums[kind][0].upper(), " " + self.enums[kind][0]])
        raise KeyError(kind)
    def attrs(self, ty, p=.3, unknown=.1):
        out = []
        for k, kind in self.types[ty]["attrs"]:
            if self.r.random() < p: out.append((k, self.value(kind) if kind != "str" else self.string()))
        if self.r.random() < unknown: out.append((self.r.choice(["zzz", "unk-1", "data", "my:attr"]), self.string()))
        if self.r.random() < unknown / 3: out.append(("xmlns:q" + self.r.choice("abc"), "http://x.example/" + self.r.choice("abc")))
        return out
    def field(self, name, kind, valid=None):
        v = self.value(kind, valid)
        return (name, [], [v] if v else [])
    def tname(self, tag, parent): return "IconStyleIcon" if tag == "Icon" and parent == "IconStyle" else tag
    def slotchild(self, sl, parent, depth, tag=None):
        if sl["k"] in "fF": return self.field(sl["n"], sl["v"])
        return self.elem(tag or self.r.choice(sorted(sl["ts"])), parent, depth - 1)
    def ustr(self):   # also line ends and tabs, which have to be escaped when written
        s = self.string()
        return s + self.r.choice(["\r", "\r\n", "a\tb\nc", "\n\r"]) + self.string() if self.ends and self.r.random() < .1 else s
    def unk(self, depth=2):
        r = self.r; kids = []
        for _ in range(r.randint(0, 2)):
            if depth > 0 and r.random() < .6:
                k = r.choice(self.unknown + self.simple[:30] + ["description", "Placemark", "coordinates", "Document"])
                if r.random() < .1: kids.append(("Schema", [("name", r.choice(self.unknown + ["Placemark", "Folder", "Point", "name", "Style"])), ("parent", "Placemark")], [])); continue
                kids.append((k, [("id", self.ustr())] if r.random() < .3 else [], self.unk(depth - 1)[2]))
            else: kids.append(self.ustr() or "t")
        return (r.choice(self.unknown), [("at", self.ustr())] if r.random() < .4 else [], kids)
    def desc(self):
        r = self.r
        def mk(d):
            out = []
            for _ in range(r.randint(0, 3)):
                if d > 0 and r.random() < .5: out.append((r.choice(["b", "i", "a", "Placemark", "name", "description", "table"]), [("href", self.string())] if r.random() < .3 else [], mk(d - 1)))
                else: out.append(self.string())
            return out
        return ("description", [], mk(2))
    def elem(self, tag, parent="", depth=3, fill=.3, noise=.15):
        r = self.r; ty = self.tname(tag, parent); kids = []
        for sl in self.types[ty]["slots"]:
            leaf = sl["k"] in "fF"
            if not leaf and depth <= 0: continue
            if r.random() < (fill if leaf or depth > 1 else fill / 2):
                n = 1
                if sl["k"] in "Fm": n = r.randint(1, 3)
                elif r.random() < .15: n = 2
                for _ in range(n):
                    if sl["n"] == "description" and r.random() < .4: kids.append(self.desc())
                    else: kids.append(self.slotchild(sl, ty, depth))
        if ty in self.text:
            v = self.string(); return (tag, self.attrs(ty), [v] if v else [])
        if r.random() < .5: r.shuffle(kids)
        if r.random() < noise: self.insert_noise(kids, ty, depth)
        return (tag, self.attrs(ty), kids)
    def misplaced(self, ty, depth=1):
        legal = {t for sl in self.types[ty]["slots"] for t in sl["ts"]}
        while True:
            if self.r.random() < .5:
                t = self.r.choice(self.complex)
                if t in legal or t == "Schema": continue
                return self.elem(t, ty, min(depth, 1), noise=0)
            t = self.r.choice(self.simple)
            if t in legal: continue
            if t == "coordinates": return (t, [], [self.coords()])
            if t == "description": return self.desc()
            v = self.string(); return (t, [], [v] if v else [])
    def insert_noise(self, kids, ty, depth, n=None):
        for _ in range(n or self.r.randint(1, 3)):
            x = self.unk() if self.r.random() < .5 else self.misplaced(ty, depth - 1)
            kids.insert(self.r.randint(0, len(kids)), x)
    def old_schema(self):
        """Documents with an old-style Schema declaration."""
        r = self.r
        for_ = r.choice(["F", "Foo", "Folder", "Style", "name", "Point", "Document", "Icon", "description", "IconStyle"])
        fl = r.sample(["fld", "fld2", "g", "name", "Foo"], r.randint(0, 3)) if r.random() < .8 else ["f%d" % i for i in range(r.choice([9, 14, 40]))]
        def schema():
            return ("Schema", [("name", for_)] + ([("parent", "Placemark")] if r.random() < .9 else []) + ([("id", "i")] if r.random() < .3 else []),
                    [("SimpleField", [("name", f), ("type", "int")], []) for f in fl])
        def val(): return (r.choice(fl + ["fld", "Unk"]), [], r.choice([["v"], [], ["a", ("Unk", [("at", "1&2")], ["<"]), "b"], [("Point", [], [])], ["x&y"], [("description", [], ["d"])]]))
        def f(d=2):
            kids = [r.choice([val, val, lambda: ("name", [], ["n"]), lambda: ("Point", [], [("coordinates", [], ["1,2,3"])]), self.unk,
                              lambda: ("ExtendedData", [], [("Data", [("name", "q")], [])]), lambda: f(d - 1) if d else val()])() for _ in range(r.randint(0, 4) if len(fl) < 9 else r.randint(0, 12))]
            return (for_, [("id", "p%d" % r.randint(1, 9))] if r.random() < .3 else [], kids)
        kids = []
        for _ in range(r.randint(1, 6)):
            kids.append(r.choice([schema, f, f, f, val, self.unk, lambda: ("Placemark", [], [("name", [], ["z"])]), lambda: ("Folder", [], [f(), val()])])())
        if r.random() < .8: kids.insert(0, schema())
        t = (r.choice(["Document", "Document", "Folder"]), [], kids)
        return ("kml", [], [t]) if r.random() < .4 else t
    # ---- XML text ----
    def esc(self, s, attr=False):
        r = self.r
        if not attr and s and "]]>" not in s and "\r" not in s and r.random() < .25: return "<![CDATA[" + s + "]]>"
        out = ""
        for i, c in enumerate(s):
            if c == "&": out += "&amp;"
            elif c == "<": out += "&lt;"
            elif c == ">": out += "&gt;" if (s[max(0, i-2):i] == "]]" or r.random() < .5) else ">"
            elif c == '"' and (attr or r.random() < .2): out += "&quot;"
            elif c == "'" and r.random() < .2: out += "&apos;"
            elif c == "\r" or (attr and c in "\n\t"): out += "&#%d;" % ord(c)
            elif ord(c) > 127 and r.random() < .2: out += "&#x%x;" % ord(c)
            else: out += c
        return out
    def xml(self, x, layout=0, lvl=0):
        """layout 0: none; 1: indentation between the children of elements without text."""
        if isinstance(x, str): return self.esc(x)
        tag, at, kids = x
        s = "<" + tag + "".join(" %s=\"%s\"" % (k, self.esc(v, True)) for k, v in at)
        if not kids: return s + (self.r.choice(["/>", "></" + tag + ">"]))
        s += ">"
        structural = layout and tag in self.types and tag not in self.text and all(not isinstance(k, str) for k in kids)
        for k in kids:
            if structural: s += "\n" + " " * (lvl + 1) + ("<!-- c <x> -->" if self.r.random() < .05 else "")
            s += self.xml(k, layout if structural else 0, lvl + 1)
        if structural: s += "\n" + " " * lvl
        return s + "</" + tag + ">"
    def doc(self, x):
        layout = self.r.random() < .5
        p = self.r.choice(["", "", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>"])
        return fw.lat(p + self.xml(x, layout))
    # ---- systematic documents ----
    def systematic(self):
        """(kind, tree): every slot of every type alone, twice, all together in
        order and reversed; every enumerated value; every own attribute."""
        for ty, t in self.types.items():
            tag = "Icon" if ty == "IconStyleIcon" else ty
            wrap = (lambda x: ("IconStyle", [], [x])) if ty == "IconStyleIcon" else (lambda x: x)
            yield "empty", wrap((tag, [], []))
            yield "attrs", wrap((tag, [(k, self.value(kd) if kd != "str" else self.string() or "v") for k, kd in t["attrs"]] + [("unk", self.string())], []))
            for sl in t["slots"]:
                if sl["k"] in "fF":
                    vals = self.enums.get(sl["v"], [None])
                    for v in vals:
                        f = (sl["n"], [], [v]) if v else self.field(sl["n"], sl["v"])
                        yield "field", wrap((tag, [], [f]))
                    yield "field2", wrap((tag, [], [self.field(sl["n"], sl["v"], True), self.field(sl["n"], sl["v"], True)]))
                    if sl["k"] == "F": yield "many", wrap((tag, [], [self.field(sl["n"], sl["v"], True) for _ in range(24)]))
                    if sl["v"] in self.enums: yield "badenum", wrap((tag, [], [self.field(sl["n"], sl["v"], False)]))
                else:
                    for c in sorted(sl["ts"]):
                        yield "child", wrap((tag, [], [self.elem(c, ty, 1)]))
                    cs = sorted(sl["ts"])
                    for _ in range(2):
                        yield "child2", wrap((tag, [], [self.elem(self.r.choice(cs), ty, 1) for _ in range(3)]))
                    if sl["k"] == "m": yield "many", wrap((tag, [], [self.elem(self.r.choice(cs), ty, 1, fill=.05) for _ in range(24)]))
            if ty in self.text: yield "text", (tag, [], [self.string() or "x"]); continue
            for rev in (0, 1, 2):
                kids = [self.slotchild(sl, ty, 2) for sl in t["slots"]]
                if rev == 1: kids.reverse()
                if rev == 2: self.r.shuffle(kids); self.insert_noise(kids, ty, 1, 2)
                if kids: yield "all", wrap((tag, self.attrs(ty), kids))
        r = self.r
        for d in (30, 60, 90):   # deep containers with something at every level
            for _ in range(3):
                t = r.choice([("Placemark", [("id", self.uniq())], [self.unk(), ("name", [], ["z"])]), ("Folder", [], [self.unk()])])
                for _ in range(d):
                    kids = [("name", [], [self.uniq()]), t] if r.random() < .5 else [t]
                    if r.random() < .4: kids.insert(r.randint(0, len(kids)), self.unk())
                    if r.random() < .2: kids.insert(r.randint(0, len(kids)), ("coordinates", [], ["1,2,3"]))
                    if r.random() < .3: kids.append(("Placemark", [], [self.unk()] if r.random() < .5 else []))
                    t = (r.choice(["Folder", "Folder", "Document"]), [("id", self.uniq())] if r.random() < .3 else [], kids)
                yield "deep", t
                t = ("Point", [], [])
                for _ in range(d): t = ("MultiGeometry", [("unk", self.uniq())] if r.random() < .3 else [], [t] + ([self.unk()] if r.random() < .5 else []))
                yield "deep", ("Placemark", [], [t])
    def random_docs(self, n):
        for _ in range(n):
            root = self.r.choice(["kml", "kml", "Document", "Folder", "Placemark"] + self.complex)
            yield "random", self.elem(root, "", self.r.randint(2, 4), fill=self.r.choice([.1, .25, .4]))
