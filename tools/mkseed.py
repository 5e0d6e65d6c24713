#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec. The spec calls
seed(id, prop, [(file, old, new)...], needs, breaks, demo_go_or_None, sh=None)."""
import sys, os, subprocess, json, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 when the property holds; run with the repository as working directory
d="$(cd "$(dirname "$0")" && pwd)"
[ -d /opt/veriftools/go1.27.3/bin ] && PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export PATH HOME="${HOME:-/root}" GOTOOLCHAIN=local GO111MODULE=on GOWORK=off GOPROXY=off GOFLAGS=-mod=readonly
exec go run TAGS"$d/demo.go" "$d/util.go"
'''
def seed(id, prop, edits, needs, breaks, demo, sh=None, tags="-tags no_license "):
    if len(sys.argv) > 2 and id not in sys.argv[2:]: return
    d = os.path.join(here, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    bl = {}
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    # the removed lines have to be lines of the original repository
    base = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^base$"]).decode().split()
    mine = False; orig = False; f = None; ln = 0
    for l in diff.split("\n"):
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "--abbrev=39", "-L%d,%d" % (ln, ln), "HEAD", "--", f]).decode()
            if b.startswith("^") or base and b.lstrip("^").startswith(base[0][:39]): orig = True
            else: mine = True; print(id, "NOT ORIGINAL:", l)
            ln += 1
        elif l.startswith(" "): ln += 1
    if not orig: print(id, "removes no original line")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo is not None:
        open(os.path.join(d, "demo.go"), "w").write(demo.lstrip())
        shutil.copy(os.path.join(here, "tools/demo/util.go"), os.path.join(d, "util.go"))
    open(os.path.join(d, "demo.sh"), "w").write(sh or SH.replace("TAGS", tags))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.rmtree(w)
exec(open(sys.argv[1]).read())
