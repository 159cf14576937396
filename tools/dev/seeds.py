#!/usr/bin/env python3
"""Development aid: runs checks on each planted bug of /verif/seeded.

  seeds.py [--all] [ID ...]     (--all: every property's check, not just its own)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEEDED = "/verif/seeded"


def sh(cmd):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


args = sys.argv[1:]
everything = "--all" in args
args = [a for a in args if a != "--all"]
for s in sorted(os.listdir(SEEDED)):
    if args and not any(s.startswith(a) for a in args):
        continue
    prop = json.load(open(f"{SEEDED}/{s}/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        sh(f"git clone -q /repo {tmp}/r && git -C {tmp}/r apply {SEEDED}/{s}/patch.diff")
        props = ["C%02d" % i for i in range(1, 40)] if everything else [prop]
        for p in props:
            t0 = time.time()
            r = sh(f"VERIF_SEED={os.environ.get('VERIF_SEED', '1')} {VERIF}/bin/check {p} --repo {tmp}/r --evidence {tmp}/ev")
            v = re.search(r"violated \((.*?)\): (.{0,150})", r.stdout, re.S)
            res = {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d " % r.returncode + r.stdout[-300:])
            if p == prop or r.returncode:
                print(f"{s:34} {p} {res} {time.time()-t0:.0f}s {v.group(0).replace(chr(10), ' ') if v else ''}", flush=True)
    finally:
        shutil.rmtree(tmp)
