"""Builds the conformance drivers from /repo's current working tree."""
import hashlib, os, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
CXX = "clang++"
FLAGS = ["-O1", "-g0", "-w", "-fno-rtti", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
CC = "clang"
LIBS = ["-lexpat", "-lminizip", "-lz", "-luriparser", "-lpthread"]

class BuildError(Exception): pass

def _h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()

def sources():
    src = os.path.join(REPO, "src", "kml"); out = []
    for d in ("base", "dom", "engine", "convenience", "regionator", "xsd"):
        for f in sorted(glob.glob(os.path.join(src, d, "*.cc"))):
            if os.path.basename(f) in ("file_win32.cc", "kml22.cc"): continue
            out.append(f)
    for f in ("unzip.c", "iomem_simple.c"):
        out.append(os.path.join(src, "base", "contrib", "minizip", f))
    return out

def build(log=sys.stderr):
    """Returns the path of the driver binary; raises BuildError."""
    os.makedirs(os.path.join(WORK, "obj"), exist_ok=True)
    hdr = hashlib.sha256()
    for root, _, files in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(files):
            if f.endswith((".h", ".hpp")) or f == "kml22.cc":
                p = os.path.join(root, f); hdr.update(p.encode()); hdr.update(open(p, "rb").read())
    hdr = hdr.hexdigest()
    hh = _h(*[open(f, "rb").read() for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")) + glob.glob(os.path.join(VERIF, "harness", "*.inc")))])
    jobs = []; objs = []
    for s in sources():
        c = s.endswith(".c")
        key = _h(s, open(s, "rb").read(), hdr, " ".join(FLAGS), CXX)[:24]
        o = os.path.join(WORK, "obj", os.path.basename(s) + "." + key + ".o"); objs.append(o)
        if not os.path.exists(o):
            jobs.append(((CC if c else CXX), [f for f in FLAGS if not (c and f == "-fno-rtti")], s, o))
    for s in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cc"))):
        key = _h(s, open(s, "rb").read(), hdr, hh, " ".join(FLAGS), CXX)[:24]
        o = os.path.join(WORK, "obj", os.path.basename(s) + "." + key + ".o"); objs.append(o)
        if not os.path.exists(o): jobs.append((CXX, FLAGS, s, o))
    # the biggest files first
    jobs.sort(key=lambda j: -os.path.getsize(j[2]))
    def run(j):
        cc, fl, s, o = j; tmp = o + ".%d.tmp" % os.getpid()
        p = subprocess.run([cc] + fl + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness"),
                            "-I" + os.path.join(REPO, "src/kml/base/contrib/minizip"), "-c", s, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return s + "\n" + p.stdout
        os.rename(tmp, o); return None
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: errs = [e for e in ex.map(run, jobs) if e]
    if errs: raise BuildError("\n".join(errs)[:6000])
    binary = os.path.join(WORK, "drv." + _h(*objs)[:24])
    if not os.path.exists(binary):
        tmp = binary + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX] + FLAGS + objs + LIBS + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise BuildError(p.stdout[:6000])
        os.rename(tmp, binary)
    return binary
if __name__ == "__main__": print(build())
