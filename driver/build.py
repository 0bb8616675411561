#!/usr/bin/env python3
"""Builds the drivers from /repo's working tree. Usage: build.py [target...]

Everything goes to /verif/build: the generated googleapis code once, the sources
of /repo (all of src/ and utils/ but the tests) in the variant a target needs."""
import glob, hashlib, os, subprocess, sys, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
VARIANTS = {  # flags of /repo's sources, of the driver's, for linking
    "asan": ("-g1 -O0 -fsanitize=address,undefined -fno-sanitize=vptr,signed-integer-overflow -fwrapv -fno-sanitize-recover=undefined -fno-omit-frame-pointer",) * 3,
    # instrumented for, but not linked with that sanitizer; see sched_rt.cc
    "inst": ("-g1 -O1 -fwrapv -fsanitize=thread -U__SANITIZE_THREAD__", "-g1 -O1 -fwrapv", "-rdynamic"),
}
TARGETS = {  # name -> (variant, driver sources)
    "driver": ("asan", ["driver.cc", "common.cc"]),
    "sched": ("inst", ["sched.cc", "sched_rt.cc", "common.cc"]),
}

def protos():
    names = open(os.path.join(HERE, "protos.txt")).read().split()
    return names

def ninja_text():
    n = []
    w = n.append
    gen = BUILD + "/gen"
    names = protos()
    w("ninja_required_version = 1.5")
    w("builddir = " + BUILD)
    inc = f"-I{REPO} -isystem {gen} -I{HERE}"
    w("rule cxx\n  command = g++ -std=c++17 -Wno-deprecated-declarations -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule link\n  command = g++ $flags $in -o $out -lprotobuf -lcrypto -lpthread -ldl")
    w("rule ar\n  command = rm -f $out && ar rcs $out $in")
    w(f"rule protoc\n  command = mkdir -p {gen} && protoc -I/usr/include --include_imports --descriptor_set_out={gen}/wkt.desc google/protobuf/any.proto google/protobuf/descriptor.proto google/protobuf/duration.proto google/protobuf/struct.proto google/protobuf/timestamp.proto && protoc --descriptor_set_in={gen}/wkt.desc:{HERE}/googleapis.desc --cpp_out={gen} " + " ".join(names))
    ccs = [f"{gen}/" + x.replace(".proto", ".pb.cc") for x in names]
    hs = [c[:-3] + ".h" for c in ccs]
    w("build " + " ".join(ccs + hs) + f": protoc {HERE}/googleapis.desc")
    objs = []
    for c in ccs:
        o = c[:-3] + ".o"
        objs.append(o)
        w(f"build {o}: cxx {c} || {' '.join(hs)}\n  flags = -O1 {inc}")
    w(f"build {BUILD}/libgoogleapis.a: ar {' '.join(objs)}")
    srcs = sorted(f for d in ("src", "utils") for f in glob.glob(f"{REPO}/{d}/**/*.cc", recursive=True)
                  if not f.endswith("_test.cc") and "mock" not in os.path.basename(f))
    for variant in sorted({v for v, _ in TARGETS.values()}):
        flr, fld, fll = VARIANTS[variant]
        ro = []
        for s in srcs:
            o = f"{BUILD}/{variant}/repo/{os.path.relpath(s, REPO)}.o"
            ro.append(o)
            w(f"build {o}: cxx {s} || {' '.join(hs)}\n  flags = {flr} {inc}")
        for t, (v, ds) in TARGETS.items():
            if v != variant or not all(os.path.exists(f"{HERE}/{d}") for d in ds):
                continue
            os_ = []
            for d in ds:
                o = f"{BUILD}/{variant}/{t}/{d}.o"
                os_.append(o)
                w(f"build {o}: cxx {HERE}/{d} || {' '.join(hs)}\n  flags = {fld} {inc}")
            w(f"build {BUILD}/{t}: link {' '.join(ro + os_)} {BUILD}/libgoogleapis.a\n  flags = {fll}")
            w(f"build {t}: phony {BUILD}/{t}")
    return "\n".join(n) + "\n"

def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = ninja_text()
        p = BUILD + "/build.ninja"
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
        r = subprocess.run(["ninja", "-C", BUILD, "-f", p, "-j8"] + list(targets), capture_output=True, text=True)
        return r.returncode, r.stdout + r.stderr

if __name__ == "__main__":
    rc, out = build(sys.argv[1:] or [t for t in TARGETS if all(os.path.exists(f"{HERE}/{d}") for d in TARGETS[t][1])])
    print(out[-6000:])
    sys.exit(rc)
