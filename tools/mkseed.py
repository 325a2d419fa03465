"""mkseed(id, property, needs, breaks, [(file, old, new)...], demo_cc): writes /verif/seeded/<id>."""
import os, subprocess, json, sys
S = "/tmp/seedrepo"
DEMO = r'''#!/bin/bash
# Exits 0 when the library behaves as it should.  Run in the repository's root after a build.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -w -I"$R/src" "$D/demo.cc" -o "$T/demo" -L"$R/_build/lib" -Wl,-rpath,"$R/_build/lib" \
  -lkmlregionator -lkmlconvenience -lkmlengine -lkmldom -lkmlbase -lkmlxsd -lexpat -lminizip -luriparser -lz || exit 3
cd "$T" && timeout 120 ./demo
'''
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <string>
#include <sstream>
#include <vector>
#include "kml/dom.h"
#include "kml/engine.h"
using namespace kmldom; using std::string;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); return 1; } } while (0)
'''
def mkseed(id, prop, needs, breaks, edits, demo, head=HEAD):
    subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (S, S), shell=True)
    for f, old, new in edits:
        p = os.path.join(S, f); s = open(p).read()
        if s.count(old) != 1: sys.exit("%s: %d matches in %s of %r" % (id, s.count(old), f, old[:60]))
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", S, "diff"], text=True))
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "-f", "."])
    open(d + "/demo.cc", "w").write(head + demo)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
