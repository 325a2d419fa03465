"""Mutation campaign in scratch copies: mutate.py gen N SEED > list; mutate.py test list WORKER OUT; see DESIGN.md (Mutants).
Finds changes the repository's tests do not notice, to be run against the checks (mutate.py check)."""
import glob, json, os, random, re, subprocess, sys
REPO = "/repo"
def files():
    out = []
    for d in ("base", "dom", "engine", "convenience", "regionator", "xsd"):
        for x in ("cc", "h"): out += sorted(glob.glob("%s/src/kml/%s/*.%s" % (REPO, d, x)))
    return [os.path.relpath(f, REPO) for f in out if os.path.basename(f) not in ("file_win32.cc", "kml22.cc")]
OPS = [(r"(?<![=!<>])==(?!=)", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"),
       (r"return true;", "return false;"), (r"return false;", "return true;"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\bif \((.*)\) \{$", r"if (true || (\1)) {"), (r"\bif \((.*)\) \{$", r"if (false && (\1)) {"),
       (r"\b(\d+)\b", None), (r"!(?=[a-zA-Z_(])", ""), (r"\+\+", "--"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"\.begin\(\)", ".end()")]
def mutants(f):
    out = []; lines = open(os.path.join(REPO, f)).read().split("\n"); com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "using", "namespace", "case ", "class ", "static const")): continue
        code = l.split("//")[0]
        for rx, to in OPS:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + (str(int(m.group(1)) + 1) if to is None else m.expand(to)) + code[m.end():]
                if new != code: out.append((i, new))
        if re.match(r"^\s+[\w\->\.\*\[\]\(\)]+(\(| = | \+= ).*;$", code) and "return" not in code: out.append((i, re.match(r"^\s+", code).group(0) + ";"))
    return [(f, i, lines[i], n) for i, n in out]
def main():
    cmd = sys.argv[1]
    if cmd == "gen":
        r = random.Random(int(sys.argv[3])); n = int(sys.argv[2]); allm = []
        for f in files():
            q = mutants(f); r.shuffle(q); allm += q[:max(3, int(len(q) * float(sys.argv[4]) if len(sys.argv) > 4 else 12))]
        r.shuffle(allm)
        for m in allm[:n]: print(json.dumps(m))
    if cmd == "test":   # mutate.py test LIST WORKER NWORKERS OUT
        w, nw = int(sys.argv[3]), int(sys.argv[4]); d = "/tmp/mut/w%d" % w; v = "/tmp/mut/vp%d" % w; os.makedirs(v, exist_ok=True)
        if not os.path.isdir(d): subprocess.check_call(["git", "clone", "-q", REPO, d])
        subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (d, d), shell=True)
        for f in ("build.sh", "test.sh"): open("%s/%s" % (v, f), "w").write(open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", v + "/build.sh"))
        subprocess.run(["bash", v + "/build.sh", "src/all", "tests/all"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        for k, l in enumerate(open(sys.argv[2])):
            if k % nw != w: continue
            f, i, old, new = json.loads(l); p = os.path.join(d, f); src = open(p).read(); q = src.split("\n")
            if q[i] != old: continue
            q[i] = new; open(p, "w").write("\n".join(q))
            try: r = subprocess.run(["bash", v + "/test.sh", v + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
            except subprocess.TimeoutExpired: r = 9; subprocess.run("pkill -f '^%s/_build'" % d, shell=True)
            try: lost = stable - set(json.load(open(v + "/o.json"))["passed"])
            except Exception: lost = {"x"}
            open(p, "w").write(src)
            if not lost and r != 9: open(sys.argv[5], "a").write(l)
    if cmd == "check":  # mutate.py check SURVIVORS WORKER NWORKERS OUT
        w, nw = int(sys.argv[3]), int(sys.argv[4]); d = "/tmp/mut/c%d" % w
        if not os.path.isdir(d): subprocess.check_call(["git", "clone", "-q", REPO, d])
        subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (d, d), shell=True)
        props = [json.loads(l) for l in open("/verif/properties.jsonl")]
        env = dict(os.environ, VERIF_REPO=d, VERIF_WORK="/tmp/mut/work%d" % w)
        for k, l in enumerate(open(sys.argv[2])):
            if k % nw != w: continue
            f, i, old, new = json.loads(l); p = os.path.join(d, f); src = open(p).read(); q = src.split("\n")
            if q[i] != old: continue
            q[i] = new; open(p, "w").write("\n".join(q)); hit = None; tried = []
            order = [x["id"] for x in props if f in json.dumps(x)]
            rest = [x["id"] for x in props if x["id"] not in order and os.path.dirname(f) in json.dumps(x)]
            extra = {"dom": ["C27", "C01", "C21", "C25", "C03", "C07", "C24", "C30"], "regionator": ["C23"], "engine": ["C10", "C12"], "convenience": ["C28", "C30", "C33"], "base": ["C01", "C06"], "xsd": ["C35"]}[f.split("/")[2]]
            order += [c for c in extra if c not in order]
            for c in order + (rest if os.environ.get("ALL") else []):
                tried.append(c); e = env
                try: r = subprocess.run([os.environ.get("MV", "/verif") + "/bin/check", c, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, errors="replace")
                except subprocess.TimeoutExpired: hit = c + ":timeout"; break
                if r.returncode: hit = c if "VIOLATION" in r.stdout else c + ":rc%d" % r.returncode; break
            open(p, "w").write(src)
            open(sys.argv[5], "a").write(json.dumps([hit, tried, f, i + 1, old.strip(), new.strip()]) + "\n")
main()
