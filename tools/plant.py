"""Make and confirm planted bugs: plant.py SPEC.py [--nocheck] [id ...]; plant.py --recheck [id ...]

SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old, new)], needs, breaks, demo)].
Each is applied to /repo's working tree, tested, demonstrated and undone again."""
import json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
REPO = "/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def undo():
    sh("git -C /repo checkout -- .")


def demo(d):
    return sh(f"cd /repo && bash {d}/demo.sh", timeout=300)


def check(prop):
    r = sh(f"cd {HERE} && VERIF_SEED=1 /opt/venv/bin/python check.py {prop} quick", timeout=1200)
    hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
    first = next((l.strip() for l in r.stdout.splitlines() if l.startswith("  ")), "")
    return r.returncode, bool(hit), first[:200] or r.stdout[-300:]


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/plant_o.json")
    d, b = json.load(open("/tmp/plant_o.json")), json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(d["passed"]))


def run(d, prop, nocheck, fresh):
    bid = os.path.basename(d)
    try:
        r = demo(d)
        if r.returncode:
            print(bid, "DEMO FAILS UNPATCHED", r.stdout[-800:], r.stderr[-800:]); return
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode:
            print(bid, "PATCH DOES NOT APPLY", r.stderr); return
        if fresh:
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(bid, "BUILD FAILS", b.stderr[-500:]); return
            t = tests()
            if t:
                print(bid, "TESTS FAIL", t[:5]); return
        r = demo(d)
        if r.returncode == 0:
            print(bid, "DEMO DOES NOT FAIL"); return
        if not nocheck:
            rc, hit, line = check(prop)
            print(bid, "CAUGHT" if rc == 1 and hit else "MISSED", rc, line, flush=True)
        else:
            print(bid, "ok (not checked)", flush=True)
    finally:
        undo()


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    nocheck = "--nocheck" in sys.argv
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    if "--recheck" in sys.argv:
        for bid in sorted(os.listdir(SEED)):
            d = os.path.join(SEED, bid)
            if a and bid not in a and not any(bid.startswith(x) for x in a):
                continue
            run(d, json.load(open(d + "/meta.json"))["property"], nocheck, False)
        return
    ns = {}
    exec(open(a[0]).read(), ns)
    for b in ns["BUGS"]:
        if a[1:] and b["id"] not in a[1:]:
            continue
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in [e if len(e) == 3 else (b["file"],) + e for e in b["edits"]]:
                p = os.path.join(REPO, "src/cwl_utils", f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
        finally:
            undo()
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        run(d, b["prop"], nocheck, True)


main()
