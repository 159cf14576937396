#!/usr/bin/env python3
"""Development aid: runs the drivers on automatically made mutants.

  mutrun.py MUTANTS.jsonl OUT.jsonl [-j N] [--big CASES] [FILE-SUBSTRING[:LINE] ...]

Each line of OUT says what became of a mutant: nobuild, caught (with the
properties), crash, watchdog, survived-tests-fail or SURVIVED.
"""
import json, os, re, shutil, subprocess, sys, time, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ROOT = "/tmp/mut"
DRIVERS = {
    "runner.go": ["runner-model", "runner-busy", "idle", "runner-big", "config", "nested", "runner-long"],
    "dependency/engine.go": ["engine-model", "engine-self", "idle", "engine-big", "config", "nested", "engine-long"],
    "dependency/snapshot.go": ["engine-model", "engine-self"],
    "dependency/util.go": ["graph", "engine-model", "engine-self"],
    "catacomb/catacomb.go": ["catacomb-model", "idle", "catacomb-big", "nested", "catacomb-long"],
    "worker.go": ["stop-dead"],
    "dependency/testing/stub.go": ["stub-getter"],
}
args = sys.argv[1:]
jobs, big, sel, pos = 3, 30000, [], []
while args:
    a = args.pop(0)
    if a == "-j":
        jobs = int(args.pop(0))
    elif a == "--big":
        big = int(args.pop(0))
    else:
        pos.append(a)
src, out, sel = pos[0], pos[1], pos[2:]
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOCACHE=ROOT + "/cache")
envsh = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], stdout=subprocess.PIPE).stdout.decode()
for kv in envsh.split("\0"):
    if "=" in kv:
        k, v = kv.split("=", 1)
        if k not in ("GOFLAGS", "GOCACHE"):
            ENV[k] = v
muts = [json.loads(l) for l in open(src)]
muts = [m for m in muts if not m["file"].endswith("_test.go")]
if sel:
    muts = [m for m in muts if any(m["file"].endswith(s.split(":")[0]) and (":" not in s or str(m["line"]) == s.split(":")[1]) for s in sel)]
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l)
        done.add((r["file"], r["from"], r["to"], r["new"]))
muts = [m for m in muts if (m["file"], m["from"], m["to"], m["new"]) not in done]
print(len(muts), "mutants")
q = queue.Queue()
for m in muts:
    q.put(m)
lock = threading.Lock()


def sh(cmd, cwd, timeout=120):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def drive(d, driver, cases, seed):
    ps = []
    n = 2
    for i in range(n):
        ps.append(subprocess.Popen(f"timeout -s KILL 90 {d}/h.test -test.run TestCheck -test.timeout 0 -prop ALL -driver {driver} -cases {cases} -seed {seed} -shard {i} -nshards {n} -out {d}/o{i}.json >{d}/l{i} 2>&1",
                                   shell=True, cwd=d, env=dict(ENV, GOMAXPROCS="1")))
    rcs = [p.wait() for p in ps]
    for i, rc in enumerate(rcs):
        if rc == 0:
            continue
        if rc == 10:
            v = json.load(open(f"{d}/o{i}.json"))["violation"]
            return "caught", v["violates"], v["kind"] + ": " + v["message"][:200], v["driver"], v["case"]
        if rc == 12:
            return "watchdog", [], open(f"{d}/l{i}").read()[:200], driver, 0
        log = open(f"{d}/l{i}").read()
        if "HARNESS" in log[:3000] or rc in (13, 14):
            return "harness", [], log[:300], driver, 0
        m = re.search(r"^(panic|fatal error).*", log, re.M)
        return "crash", [], f"rc {rc} " + (m.group(0) if m else log[:200]), driver, 0
    return None


def one(m, d):
    repo = d + "/repo"
    p = f"{repo}/{m['file']}"
    orig = open(p, "rb").read()
    assert orig[m["from"]:m["to"]].decode() == m["old"], m
    open(p, "wb").write(orig[:m["from"]] + m["new"].encode() + orig[m["to"]:])
    try:
        rc, o = sh("go build ./...", repo)
        if rc:
            return ["nobuild", [], "", "", 0]
        shutil.rmtree(d + "/ov", ignore_errors=True)
        rc, o = sh(f"{ROOT}/instrument -repo {repo} -sched {VERIF}/sched -out {d}/ov", d)
        if rc:
            return ["noinstrument", [], o[:200], "", 0]
        rc, o = sh(f"go test -c -vet=off -overlay {d}/ov/overlay.json -o {d}/h.test .", d + "/harness")
        if rc:
            return ["noharness", [], o[:200], "", 0]
        ds = DRIVERS.get(m["file"], ["workertest"])
        for driver in ds:
            r = drive(d, driver, 20 if driver.endswith("-long") else 3000, 11)
            if r:
                return list(r)
        for driver in ds:
            r = drive(d, driver, big // {"runner-busy": 4, "config": 3, "runner-big": 4, "engine-big": 4, "nested": 4, "catacomb-big": 4, "idle": 3, "runner-long": 250, "engine-long": 250, "catacomb-long": 250}.get(driver, 1), 12)
            if r:
                return list(r)
        for i in range(2):
            rc, o = sh("go test -timeout 100s -count=1 ./... 2>&1", repo, 300)
            if rc:
                f = re.findall(r"^FAIL: .*", o, re.M)
                return ["survived-tests-fail", [], "; ".join(f)[:300] or o[-200:], "", 0]
        return ["SURVIVED", [], "", "", 0]
    finally:
        open(p, "wb").write(orig)


def work(k):
    d = f"{ROOT}/{k}"
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        t0 = time.time()
        r = one(m, d)
        with lock:
            with open(out, "a") as f:
                f.write(json.dumps(dict(m, result=r[0], props=r[1], why=r[2], driver=r[3], case=r[4], secs=round(time.time() - t0))) + "\n")


os.makedirs(ROOT, exist_ok=True)
if not os.path.exists(ROOT + "/cache"):
    subprocess.run(["cp", "-a", "/root/.cache/go-build", ROOT + "/cache"])
sh(f"go build -o {ROOT}/instrument .", VERIF + "/tools/instrument")
ts = []
for k in range(jobs):
    d = f"{ROOT}/{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo", d + "/repo")
    shutil.copytree(VERIF + "/harness", d + "/harness")
    s = open(d + "/harness/go.mod").read().replace("=> /repo", f"=> {d}/repo")
    open(d + "/harness/go.mod", "w").write(s)
    t = threading.Thread(target=work, args=(k,))
    t.start()
    ts.append(t)
for t in ts:
    t.join()
print("done")
