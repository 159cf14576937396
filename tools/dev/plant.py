#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from specs, having confirmed that each counts.

usage: plant.py SPECS.py [ID...]

SPECS.py defines PLANTS, a list of dicts with id, property, pkg, edits
[(file, old, new)...], demo (Go source of a test file with TestDemo), needs and
breaks.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BASE = "cc9bf71"
DEMO = """#!/bin/bash
# Runs TestDemo of demo_test.go as part of a package of /repo.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -r "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(dir)szz_demo_test.go\\": \\"$here/demo_test.go\\"}}" >"$tmp/overlay.json"
%(env)stimeout 250 go test %(flags)s-vet=off -count=1 -timeout %(timeout)s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(dir)s
"""


def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, executable="/bin/bash")


def main():
    plants = runpy.run_path(sys.argv[1])["PLANTS"]
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    bad = 0
    for p in plants:
        if only and p["id"] not in only:
            continue
        try:
            err = plant(p)
        except subprocess.TimeoutExpired as e:
            err = f"timeout: {e.cmd}"
        print(f'{p["id"]:28} {"ok" if not err else "BAD: " + err}', flush=True)
        bad += bool(err)
    return bad


def plant(p):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = tmp + "/repo"
        sh(f"git -C /repo worktree prune; git clone -q /repo {repo}", "/")
        d = tmp + "/" + p["id"]
        os.mkdir(d)
        for f, old, new in p["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(old) != 1:
                return f"{s.count(old)} matches in {f}: {old[:60]!r}"
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        for f in {e[0] for e in p["edits"]} - {"worker.go"}:
            if sh(f"gofmt -l {f}", repo).stdout.strip():
                return "gofmt " + f
        diff = sh("git diff", repo).stdout
        open(d + "/patch.diff", "w").write(diff)
        # Which lines does it change?
        cur, line = None, 0
        orig = False
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("@@"):
                line = int(l.split()[1].split(",")[0][1:]) - 1
            elif l.startswith("-"):
                line += 1
                b = sh(f"git blame -s -L{line},{line} HEAD -- {cur}", repo).stdout
                if sh(f"git merge-base --is-ancestor {b.split()[0].lstrip('^')} {BASE}", repo).returncode == 0:
                    orig = True
                else:
                    print("   note: changes a line of a fix:", l)
            elif l.startswith(" "):
                line += 1
        if not orig:
            print("   note: changes no line of the original")
        sub = p["pkg"]
        sub = "" if sub in (".", "") else sub + "/"
        open(d + "/demo_test.go", "w").write(p["demo"].lstrip("\n"))
        if sh(f"gofmt -l {d}/demo_test.go", "/").stdout.strip():
            sh(f"gofmt -w {d}/demo_test.go", "/")
        open(d + "/demo.sh", "w").write(DEMO % dict(dir=sub, flags=p.get("flags", ""), env=p.get("env", ""), timeout=p.get("timeout", "60s")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # With the patch.
        r = sh(". /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | tail -3", repo)
        if r.returncode:
            return "doesn't build: " + r.stderr[:300]
        r = sh(f"bash {d}/demo.sh", repo)
        if r.returncode == 0:
            return "demo passes with the patch"
        why = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
        if any("build failed" in l for l in why):
            return "demo doesn't build: " + "\n".join(why[:6])
        show = [l.strip() for l in why if "demo_test.go:" in l or "DATA RACE" in l or "panic" in l or "deadlock" in l]
        print("   with:", (show or why)[0][:150])
        for i in range(2):
            r = sh(". /opt/vp/env.sh; go test -timeout 3m -count=1 ./... 2>&1", repo)
            if r.returncode:
                return "tests fail:\n" + "\n".join(l for l in r.stdout.splitlines() if l.startswith("FAIL"))[:500]
        sh("git checkout -q -- .", repo)
        for i in range(3):
            r = sh(f"bash {d}/demo.sh", repo)
            if r.returncode:
                return "demo fails without the patch: " + (r.stdout + r.stderr)[-600:]
        dst = f"{ROOT}/seeded/{p['id']}"
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return None
    finally:
        shutil.rmtree(tmp)


sys.exit(main() > 0)
