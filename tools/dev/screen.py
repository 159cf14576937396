#!/usr/bin/env python3
"""Development aid: applies each mutant of mutants.py to a scratch copy of
/repo, runs the repository's tests on it, and then the check of the property
that it is meant to break. Not used by any check.

  screen.py [--out FILE] [--notests] [NAME ...]
"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from mutants import MUTANTS
SCR = "/tmp/screen"


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tests(d):
    r = sh(". /opt/vp/env.sh; cd %s && go build ./... && go test -json -vet=off -count=1 -p 1 -timeout 3m ./... -check.vv > /tmp/screen/t.json; "
           "python3 /opt/vp/gocheck_lines.py /tmp/screen/t.json > /tmp/screen/t.lines; python3 /opt/vp/results.py /tmp/screen/out.json lines:/tmp/screen/t.lines" % d)
    try:
        o = json.load(open(SCR + "/out.json"))
    except Exception as e:
        return ["no result: " + r.stdout[-500:]]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set(o.get("passed") or [])
    return [t for t in base if t not in ok]


def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            return "no match in %s: %r" % (f, old)
        if s.count(old) > 1:
            return "%d matches in %s: %r" % (s.count(old), f, old)
        open(p, "w").write(s.replace(old, new))
    return None


def main():
    args = sys.argv[1:]
    out = None
    notests = False
    names = []
    while args:
        a = args.pop(0)
        if a == "--out":
            out = args.pop(0)
        elif a == "--notests":
            notests = True
        else:
            names.append(a)
    for m in MUTANTS:
        if names and m["name"] not in names and not any(m["name"].startswith(n) for n in names):
            continue
        shutil.rmtree(SCR, ignore_errors=True)
        os.makedirs(SCR)
        d = SCR + "/r"
        shutil.copytree("/repo", d)
        e = apply(d, m["edits"])
        line = "%-28s " % m["name"]
        if e:
            line += "BADMUT " + e
        else:
            failed = [] if notests else tests(d)
            if failed:
                line += "KILLED-BY-TESTS %d %s" % (len(failed), failed[0][-150:])
            else:
                res = []
                for p in m["props"]:
                    t0 = time.time()
                    r = sh("%s/bin/check %s --repo %s --evidence %s/ev" % (VERIF, p, d, SCR))
                    v = re.search(r"violated \((.*?)\): (.{0,160})", r.stdout, re.S)
                    fo = ""
                    if r.returncode == 0:
                        ev = json.load(open(SCR + "/ev/%s.json" % p))["coverage"]
                        fo = " foreign=%d inc=%d %s" % (ev["other_properties_violations"], ev["inconclusive"], ev.get("other_properties_sample", "")[:200])
                    res.append("%s:%s %.0fs %s%s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "RC%d" % r.returncode), time.time() - t0,
                                                   v.group(0)[:160].replace("\n", " ") if v else r.stdout[-200:] if r.returncode > 1 else "", fo))
                line += " | ".join(res)
        print(line, flush=True)
        if out:
            with open(out, "a") as f:
                f.write(line + "\n")
    shutil.rmtree(SCR, ignore_errors=True)


main()
