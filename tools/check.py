#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree and runs it.

usage: check.py <property> [--tier quick|thorough] [--replay FILE] [--build-only]
                [--only SUBCHECK] [--scale F]

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run.
"""
import argparse, glob, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, DEFAULTS  # noqa: E402

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

def expand(patterns, base):
    out = []
    for p in patterns:
        if p.startswith("!"):
            bad = set(glob.glob(os.path.join(base, p[1:])))
            out = [o for o in out if o not in bad]
        else:
            out += sorted(glob.glob(os.path.join(base, p)))
    seen, res = set(), []
    for o in out:
        if o not in seen:
            seen.add(o); res.append(o)
    return res

def pkg(arg):
    return subprocess.check_output(["pkg-config"] + arg, text=True).split()

def build(prop, fuzz=False):
    """Writes build.ninja for the harness and runs it. Returns binary path or None."""
    c = dict(DEFAULTS); c.update(CHECKS[prop])
    bdir = os.path.join(VERIF, "build", prop + ("-fuzz" if fuzz else ""))
    os.makedirs(bdir, exist_ok=True)
    incs = sorted(glob.glob(os.path.join(REPO, "aslam_cv_*", "include")))
    inc = []
    if c["shim"]:
        inc.append("-I" + os.path.join(VERIF, "shim"))
    inc += ["-I" + i for i in incs]
    inc += ["-I" + os.path.join(bdir, "proto"), "-I" + os.path.join(VERIF, "engine"),
            "-I" + os.path.join(VERIF, "harness")]
    inc += ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4"]
    base = ["-std=gnu++14", "-mssse3", "-fPIC", "-w", "-pthread", "-DENABLE_TIMING=" + c["timing"],
            "-DENABLE_STATISTICS=" + c["timing"], "-D_GLIBCXX_ASSERTIONS"] + c["opt"].split()
    san = c["san"].split()
    if fuzz:
        san = "-fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=vptr,function,nonnull-attribute,alignment -fno-sanitize-recover=all".split()
        base = [b for b in base if b not in ("-g1",)] + ["-gline-tables-only"]
    cxx = "clang++" if fuzz else c["cxx"]
    flags = base + san + c["flags"].split() + inc
    srcs = []  # (source, extra flags)
    srcs.append((os.path.join(VERIF, "engine", "pbt_main.cc"), "-DPBT_LIBFUZZER" if fuzz else ""))
    if c["sched"]:
        srcs.append((os.path.join(VERIF, "engine", "ctlsched.cc"), ""))
    for h in c["harness"]:  # "file" or "file|flags instead of harness_flags"
        f, _, own = h.partition("|")
        srcs.append((os.path.join(VERIF, f), own or c["harness_flags"]))
    for s in expand(c["repo"], REPO):
        extra = c["repo_flags"]
        if "/aslam_cv_detector/" in s or "/aslam_cv_calibration/" in s or "/aslam_cv_pipeline/" in s:
            extra += " -include opencv2/imgproc/imgproc_c.h"
        srcs.append((s, extra))
    rules = ["cxx = " + cxx, "flags = " + " ".join(flags),
             "rule cc\n  command = $cxx $flags $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             "rule link\n  command = $cxx $lflags $in -o $out $libs",
             "rule protoc\n  command = protoc -I%s/aslam_cv_common/proto --cpp_out=%s/proto $in" % (REPO, bdir)]
    objs = []
    order = ""
    if c["proto"]:
        os.makedirs(os.path.join(bdir, "proto", "aslam", "common"), exist_ok=True)
        pc = os.path.join(bdir, "proto/aslam/common/id.pb.cc")
        ph = os.path.join(bdir, "proto/aslam/common/id.pb.h")
        rules.append("build %s %s: protoc %s/aslam_cv_common/proto/aslam/common/id.proto" % (pc, ph, REPO))
        srcs.append((pc, ""))
        order = " || " + ph
    for k, (s, extra) in enumerate(srcs):
        o = os.path.join(bdir, "%02d_%s.o" % (k, os.path.basename(s)))
        o_order = order if not s.endswith(".pb.cc") else ""
        rules.append("build %s: cc %s%s\n  extra = %s" % (o, s, o_order, extra))
        objs.append(o)
    libs = c["libs"].split()
    if "opencv" in c["deps"]:
        libs += ["-lopencv_" + m for m in c["opencv"].split()]
    if "yaml" in c["deps"]: libs += ["-lyaml-cpp"]
    if c["proto"]: libs += ["-lprotobuf"]
    libs += ["-lglog", "-lgflags", "-lpthread", "-ldl", "-lrt"]
    binp = os.path.join(bdir, "check")
    lsan = [("-fsanitize=fuzzer,address,undefined" if fuzz else s) for s in san[:1]] if fuzz else san
    rules.append("build %s: link %s\n  lflags = %s %s\n  libs = %s" % (
        binp, " ".join(objs), " ".join(lsan), "-pthread -fuse-ld=" + c["ld"] + " " + c["ldflags"], " ".join(libs)))
    nj = os.path.join(bdir, "build.ninja")
    text = "\n".join(rules) + "\n"
    if not os.path.exists(nj) or open(nj).read() != text:
        open(nj, "w").write(text)
    t0 = time.time()
    r = sh(["ninja", "-C", bdir, "-j", "10", "--quiet", "check" if False else binp], stdout=subprocess.PIPE,
           stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + "\n")
        return None
    sys.stderr.write("built %s in %.1fs\n" % (prop, time.time() - t0))
    return binp

def fuzz_stage(prop, binp, seconds, replays):
    """libFuzzer campaigns over the fuzzable sub-checks. Returns (violated, extra)."""
    fb = build(prop, fuzz=True)
    if fb is None:
        sys.stderr.write("fuzz build failed; stage skipped\n")
        return False, '"fuzz":"not built"'
    listing = subprocess.check_output([binp, "--list"], text=True).split("\n")
    names = [l.split()[0] for l in listing if l.strip().endswith(" 1")]
    violated, notes = False, []
    import shutil, tempfile
    for n in names:
        work = tempfile.mkdtemp(prefix="fuzz_")
        try:
            corpus = os.path.join(work, "corpus"); os.makedirs(corpus)
            env = dict(os.environ, PBT_FUZZ_PROP=n)
            log = open(os.path.join(work, "log"), "w")
            subprocess.run([fb, corpus, "-max_total_time=%d" % seconds, "-fork=8", "-ignore_crashes=0",
                            "-seed=%d" % (int(os.environ.get("VERIF_SEED", "1")) + 1), "-max_len=2048",
                            "-rss_limit_mb=3000", "-timeout=60", "-artifact_prefix=" + work + "/"],
                           env=env, stdout=log, stderr=log, cwd=work)
            log.close()
            runs = re.findall(r"^#(\d+)", open(os.path.join(work, "log"), errors="replace").read(), re.M)
            notes.append({"subcheck": n, "seconds": seconds, "executions": int(runs[-1]) if runs else 0,
                          "corpus": len(os.listdir(corpus))})
            for art in glob.glob(work + "/crash-*"):
                r = subprocess.run([binp, "--only", n, "--from-bytes", art, "--replays", replays],
                                   stdout=subprocess.PIPE, text=True)
                sys.stdout.write(r.stdout)
                if r.returncode == 1:
                    violated = True
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if violated:
            break
    return violated, '"fuzz":' + json.dumps(notes)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.self_test:  # setup_cmd: the tools the checks need are there
        for t in ("g++ --version", "ninja --version", "protoc --version", "clang++ --version"):
            subprocess.check_call(t.split(), stdout=subprocess.DEVNULL)
        print("tools ok")
        return 0
    prop = a.property
    if prop not in CHECKS:
        ap.error("unknown property %r" % prop)
    seed = os.environ.get("VERIF_SEED", "1")
    binp = build(prop)
    if binp is None:
        return 2
    if a.build_only:
        return 0
    replays = os.path.join(VERIF, "replays")
    env = dict(os.environ)
    env.setdefault("OPENCV_OPENCL_RUNTIME", "disabled")
    env["OMP_NUM_THREADS"] = "1"
    if a.replay:
        return sh([binp, "--replay", a.replay], env=env).returncode
    c = dict(DEFAULTS); c.update(CHECKS[prop])
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    extra, fuzz_bad = "", False
    if a.tier == "thorough" and c["fuzz_seconds"] > 0 and not a.only:
        fuzz_bad, extra = fuzz_stage(prop, binp, c["fuzz_seconds"], replays)
    cmd = [binp, "--tier", a.tier, "--seed", seed, "--evidence", ev, "--replays", replays,
           "--known", os.path.join(VERIF, "known_findings.txt"),
           "--scale", a.scale, "--budget", str(c["budget_thorough"] if a.tier == "thorough" else c["budget"])]
    if extra: cmd += ["--extra", extra]
    if a.only: cmd += ["--only", a.only]
    r = sh(cmd, env=env)
    if r.returncode not in (0, 1):
        return 2
    return 1 if (fuzz_bad or r.returncode == 1) else 0

if __name__ == "__main__":
    sys.exit(main())
