#!/usr/bin/env python3
"""mutants.py MUTANTS.jsonl OUT.jsonl [workers] [fraction] [seed]: runs the
checks, scaled down, against small changes of /repo made in scratch copies.
Only what no check reports is then run through the full checks and the tests."""
import sys, os, json, random, subprocess, shutil, threading, queue, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts, out = sys.argv[1], sys.argv[2]
nw = int(sys.argv[3]) if len(sys.argv) > 3 else 3
frac = float(sys.argv[4]) if len(sys.argv) > 4 else 1
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
MAP = [("process/process.go", "C02 C01 C03 C04 C16 C19 C27"), ("incblame/", "C02 C01 C03 C21 C25"), ("process/parser", "C01 C02 C03 C25 C19"),
 ("commitmeta/", "C08 C07 C25 C16 C19"), ("process/repo/repo.go", "C27 C04 C01 C28"), ("process/repo/", "C05 C04 C19 C06 C18"), ("branches2/", "C09 C10 C12 C11 C28 C19 C31"), ("branchmeta/", "C11 C09 C12 C19 C31"),
 ("code_info.go", "C16 C14 C15 C19"), ("code.go", "C16 C04 C19 C18"), ("commit_info.go", "C16 C04 C19"), ("gitexec/", "C23 C22 C19 C18 C17"), ("cmd/", "C26"), ("logger", "C26"), ("gitrepos", "C24 C26"),
 ("fileinfo/", "C15 C17"), ("gitblame2/", "C20 C01 C19"), ("parentsgraph/", "C13 C09 C03 C28 C19 C31"), ("ripsrc/branches.go", "C09 C19"), ("ripsrc/ripsrc.go", "C16 C09 C19 C17")]
def checks(f):
    for k, v in MAP:
        if k in f: return v.split()
    return []
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", CGO_ENABLED="0", VERIF_TIER="quick", VERIF_SEED=str(seed), VERIF_DEV_SHARDS="4")
env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env["PATH"]
ms = []
seen = set()
for l in open(muts):
    m = json.loads(l)
    if "err != nil with ==" in m["What"] or "negate err != nil" in m["What"] or not checks(m["File"]): continue
    k = (m["File"], m["Start"], m["End"], m["New"])
    if k not in seen: seen.add(k); ms.append(m)
random.Random(seed).shuffle(ms)
ms = ms[:int(len(ms) * frac)]
done = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l); done.add((m["File"], m["Start"], m["End"], m["New"]))
ms = [m for m in ms if (m["File"], m["Start"], m["End"], m["New"]) not in done]
print(len(ms), "mutants")
q = queue.Queue()
for m in ms: q.put(m)
lock = threading.Lock()
def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -9, "timeout"
def worker(i):
    w = "/tmp/mut/w%d" % i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    os.makedirs(w + "/verif/evidence"); os.makedirs(w + "/verif/replays"); os.makedirs(w + "/tmp"); os.makedirs(w+"/bin")
    for f in ["harness", "known-findings.txt", "properties.jsonl", "MANIFEST.json", "corpus"]:
        if os.path.exists(os.path.join(here, f)): subprocess.check_call(["cp", "-a", os.path.join(here, f), w + "/verif/"])
    subprocess.check_call("sed -i s,/repo,%s/repo,g %s/verif/harness/go.mod" % (w, w), shell=True)
    e = dict(env, VERIF_DIR=w + "/verif", TMPDIR=w + "/tmp")
    eb = dict(e, GOFLAGS="-mod=mod")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(w, "repo", m["File"]); src = open(p, "rb").read()
        neu = src[:m["Start"]] + m["New"].encode() + src[m["End"]:]
        open(p, "wb").write(neu)
        t0 = time.time(); res = None
        cs = checks(m["File"])
        lic = "license_enabled" in m["File"] or "C15" in cs
        tags = "with_license" if lic else "no_license"
        rc, o = sh("go build -tags %s -o %s/bin/vf ./cmd/vf && go build -tags %s -o %s/bin/cpw ./cmd/cpw && go build -tags no_license -o %s/bin/ripsrc github.com/pinpt/ripsrc" % (tags, w, tags, w, w), w + "/verif/harness", 300, eb)
        if rc: res = "nobuild"
        for scale in os.environ.get("MUT_SCALES", "8,100").split(","):
            if res: break
            es = dict(e, VERIF_DEV_SCALE=scale)
            for c in cs:
                rc, o = sh("%s/bin/vf check %s" % (w, c), w + "/verif", 700, es)
                sh("find %s/tmp -mindepth 1 -maxdepth 1 -exec chmod -R u+rwX {} + ; find %s/tmp -mindepth 1 -delete" % (w, w), w, 100, es)
                if rc == 1: res = "caught " + c; break
                if rc: res = "rc%d %s" % (rc, c); m["out"] = o[-500:]; break
            if not res and "tests" not in m:
                r, o = sh("GOFLAGS=-mod=readonly go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'", w + "/repo", 300, e)
                m["tests"] = "ok"
                if "FAIL" in o or r == -9: res = "tests"
        if not res: res = "SURVIVED"
        open(p, "wb").write(src)
        m["res"] = res; m["t"] = int(time.time() - t0)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
            print(res, m["t"], m["File"], m["Line"], m["What"][:150], flush=True)
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(nw)]
for t in ts: t.start()
for t in ts: t.join()
