#!/usr/bin/env python3
"""Build and run the checks.

  check.py <PROPERTY>            run the check of one property (tier: $VERIF_TIER)
  check.py --replay FILE         re-run one saved counterexample
  check.py --setup               build every harness (no check is run)
  check.py --build BINARY...     build some harnesses

Everything is compiled from /repo's current working tree into /verif/build/<hash
of the tree>, nothing is written in /repo.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks_table import BINARIES, CHECKS, REPO_UNITS  # noqa: E402

BUILD_ROOT = os.path.join(VERIF, "build")


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "lib"), os.path.join(VERIF, "shim")):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def build_dir():
    d = os.path.join(BUILD_ROOT, tree_hash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    # keep the two most recent trees only
    ds = sorted((os.path.join(BUILD_ROOT, x) for x in os.listdir(BUILD_ROOT)
                 if re.fullmatch(r"[0-9a-f]{16}", x)), key=os.path.getmtime)
    for old in ds[:-3]:
        shutil.rmtree(old, ignore_errors=True)
    return d


VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
CXX = "g++"
BASE = ["-std=gnu++17", "-g1", "-pthread", "-w",
        "-Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec"]


def ninja(b, targets):
    gen = os.path.join(b, "gen/include")
    os.makedirs(os.path.join(gen, "sse"), exist_ok=True)
    src = open(os.path.join(REPO, "lib/include/sse/configure.hpp.in")).read()
    conf = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", src)
    cpath = os.path.join(gen, "sse/configure.hpp")
    if not os.path.exists(cpath) or open(cpath).read() != conf:
        open(cpath, "w").write(conf)
    # the same configuration without libaio
    noaio = os.path.join(b, "gen-noaio/include")
    os.makedirs(os.path.join(noaio, "sse"), exist_ok=True)
    conf = re.sub(r"#define HAS_LIBAIO\b.*", "", conf)
    cpath = os.path.join(noaio, "sse/configure.hpp")
    if not os.path.exists(cpath) or open(cpath).read() != conf:
        open(cpath, "w").write(conf)
    inc = ["-I" + x for x in (
        os.path.join(VERIF, "harness"), os.path.join(VERIF, "shim"),
        os.path.join(REPO, "lib/include"), gen, os.path.join(gen, "sse"),
        os.path.join(REPO, "lib"), os.path.join(REPO, "lib/include/sse/schemes"),
        os.path.join(REPO, "lib/include/sse/runners"))]
    out = ["rule cc",
           "  command = %s %s $flags %s -MD -MF $out.d -c $in -o $out" % (
               CXX, " ".join(BASE), " ".join(inc)),
           "  depfile = $out.d", "  deps = gcc", "  description = CC $out",
           "rule pb",
           "  command = mkdir -p $pbdir && protoc -I $pbroot --cpp_out=$pbdir $in",
           "  description = PROTOC $in",
           "rule ld",
           "  command = %s $flags -pthread $in -o $out $libs" % CXX,
           "  description = LD $out"]
    done = set()

    def obj(src, variant, extra, order=""):
        rel = src.replace("/", "_").lstrip("_")
        tag = hashlib.md5((" ".join(extra)).encode()).hexdigest()[:6] if extra else "0"
        o = os.path.join("obj", variant + "-" + tag, rel + ".o")
        if o not in done:
            done.add(o)
            out.append("build %s: cc %s%s" % (o, src, order))
            out.append("  flags = %s" % " ".join(VARIANTS[variant] + extra))
        return o

    pbs = {}
    for name in ("sophos", "diana"):
        proto = os.path.join(REPO, "lib/protos", name + ".proto")
        pbdir = os.path.join(b, "gen/include")
        cc = os.path.join(pbdir, "protos", name + ".pb.cc")
        h = os.path.join(pbdir, "protos", name + ".pb.h")
        out.append("build %s %s: pb %s" % (cc, h, proto))
        out.append("  pbdir = %s" % pbdir)
        out.append("  pbroot = %s" % os.path.join(REPO, "lib"))
        pbs[name] = (cc, h)

    for bname, spec in BINARIES.items():
        variant = spec.get("variant", "plain")
        extra = spec.get("cflags", [])
        if spec.get("noaio"):
            extra = extra + ["-I" + noaio, "-I" + os.path.join(noaio, "sse")]
        order = ""
        if spec.get("protos"):
            order = " || " + " ".join(x[1] for x in pbs.values())
        objs = [obj(os.path.join(VERIF, "harness", s), variant, extra, order) for s in spec["src"]]
        for u in spec.get("units", []):
            for s in REPO_UNITS[u]:
                objs.append(obj(os.path.join(REPO, "lib", s), variant, extra, order))
        if spec.get("protos"):
            objs += [obj(x[0], variant, extra, order) for x in pbs.values()]
        out.append("build bin/%s: ld %s" % (bname, " ".join(objs)))
        out.append("  flags = %s" % " ".join(VARIANTS[variant] + spec.get("ldflags", [])))
        out.append("  libs = %s" % " ".join(spec.get("libs", [])))
    text = "\n".join(out) + "\n"
    p = os.path.join(b, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    r = subprocess.run(["ninja", "-C", b] + ["bin/" + t for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.stderr.write("\nbuild failed\n")
    return r.returncode == 0


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop
            and k.get("status") == "known"]


def run_check(prop):
    t0 = time.time()
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    b = build_dir()
    bins = spec["binaries"]
    if not ninja(b, bins):
        sys.exit(2)
    build_s = time.time() - t0
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    subs, violations, rc = [], 0, 0
    for bn in bins:
        outp = os.path.join(b, "out-%s-%s-%d.json" % (prop, bn, os.getpid()))
        cmd = [os.path.join(b, "bin", bn), "--prop", prop, "--seed", str(seed), "--tier", tier,
               "--out", outp, "--replay-dir", os.path.join(VERIF, "replays")]
        cmd += sys.argv[2:]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if r.returncode not in (0, 1):
            sys.stderr.write("%s ended with %d\n" % (bn, r.returncode))
            rc = 2
        elif r.returncode == 1:
            violations += r.stdout.count("VIOLATION property=")
            rc = 1 if rc == 0 else rc
        if os.path.exists(outp):
            subs += json.load(open(outp))
            os.unlink(outp)
        if rc:
            break
    samples = []
    for s in subs:
        for x in s["samples"][:3]:
            samples.append({"check": s["check"], "case": x})
    cov = {
        "evaluations": sum(s["evaluations"] for s in subs),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
        "rule": " || ".join("%s: %s" % (s["check"], s["rule"]) for s in subs),
        "samples": samples,
        "checks": [{k: s[k] for k in ("check", "evaluations", "planned", "discarded",
                                      "distinct_nontrivial", "wall_s", "labels",
                                      "unconfirmed")} for s in subs],
        "build_s": round(build_s, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        b = build_dir()
        return 0 if ninja(b, sys.argv[2:] or ["graph"]) else 2
    if len(sys.argv) >= 3 and sys.argv[1] == "--build":
        b = build_dir()
        ok = ninja(b, sys.argv[2:])
        print(b)
        return 0 if ok else 2
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        f = os.path.abspath(sys.argv[2])
        prop = open(f).readline().split()[1]
        name = open(f).readlines()[1].split()[1]
        b = build_dir()
        for bn in CHECKS[prop]["binaries"]:
            if not ninja(b, [bn]):
                return 2
            r = subprocess.run([os.path.join(b, "bin", bn), "--replay", f])
            if r.returncode in (0, 1):
                return r.returncode
        return 2
    if len(sys.argv) >= 2 and sys.argv[1] in CHECKS:
        return run_check(sys.argv[1])
    sys.stderr.write(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
