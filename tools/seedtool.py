#!/usr/bin/env python3
"""seedtool.py save ID            save /repo's working diff as seeded/ID/patch.diff and undo it
   seedtool.py verify ID [--nocheck]  build+tests+demo with and without the patch, then the check"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, cwd=R, timeout=1500):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seedtool-out.json")
    d = json.load(open("/tmp/seedtool-out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return stable - set(d["passed"]), r.stdout[-1500:]


def demo(d):
    r = sh("timeout 300 bash %s/demo.sh" % d)
    return r.returncode, r.stdout[-600:]


def main():
    what, ident = sys.argv[1], sys.argv[2]
    d = os.path.join(V, "seeded", ident)
    if what == "save":
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output("git diff", shell=True, cwd=R, text=True)
        assert diff.strip(), "no diff"
        open(d + "/patch.diff", "w").write(diff)
        sh("git checkout -- .")
        return
    assert not sh("git status --porcelain").stdout.strip(), "dirty repo"
    meta = json.load(open(d + "/meta.json"))
    ok = True
    try:
        r = sh("git apply %s/patch.diff" % d)
        assert r.returncode == 0, r.stdout
        missing, log = tests()
        if missing:
            ok = False
            print(ident, "TESTS FAIL", sorted(missing)[:5], log)
        rc, out = demo(d)
        print(ident, "demo with patch rc=%d %s" % (rc, out.strip().splitlines()[-1:] ))
        ok = ok and rc != 0
        if "--nocheck" not in sys.argv:
            r = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s" % meta["property"], cwd=V)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            print(ident, "CHECK", meta["property"], "rc=%d" % r.returncode,
                  "CAUGHT" if r.returncode == 1 and v else "MISSED", (v[:1] or [""])[0][:160])
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    finally:
        sh("git checkout -- .")
        sh("bash /opt/vp/build.sh")
    rc, out = demo(d)
    print(ident, "demo without patch rc=%d" % rc, "" if rc == 0 else out)
    ok = ok and rc == 0
    print(ident, "OK" if ok else "NOT OK")


main()
