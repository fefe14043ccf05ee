#!/usr/bin/env python3
"""Confirms a planted bug and keeps it as seeded/<id>/.

  tools/mkseed.py ID PROPERTY --demo demo.cpp --groups core[,std,io,edit]
                  --kit net,schedkit --needs TEXT --breaks TEXT

The change itself is /repo's uncommitted diff.  The script checks that it
builds and passes the stable tests, that the demonstration fails with it and
passes without it, and reports whether the property's check catches it.  /repo
is left without the change."""
import argparse, json, os, subprocess, sys, tarfile, io, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

DEMO = r'''#!/bin/bash
# cwd: the repository.  Builds demo.cpp (beside this file) against the sources
# of the working tree and runs it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
tar -C "$work" -xzf "$here/kit.tar.gz" || exit 3
export REPO="$repo" WORK="$work" CXX=${CXX:-clang++}
export FLAGS="-std=c++20 -O0 -w -DNDEBUG -DFMT_HEADER_ONLY -D_GLIBCXX_ASSERTIONS -march=haswell -mno-avx512f -maes -mrdseed @EXTRA@ -I$work/shim -I$work/harness -I$repo -include cstdint -include functional -include stdexcept -include vector -include memory -include cstring"
srcs=$(cd "$repo" && find @DIRS@ -name '*.cpp' 2>/dev/null | grep -vE '/tests?/|/perf/|fbpcf/mpc/|EmpSh|EmpNetwork|[mM]ain\.cpp$|example/millionaire|/Mock|_build/' | sed "s#^#$repo/#")
{ echo "$here/demo.cpp"; for k in @KIT@; do echo "$work/harness/$k.cpp"; done; echo "$srcs"; } |
  grep . | xargs -P 8 -I{} sh -c 'f="{}"; $CXX $FLAGS -c "$f" -o "$WORK/$(echo "$f" | md5sum | cut -c1-16).o" 2>>"$WORK/log" || { echo "$f" >>"$WORK/failed"; }'
[ -e "$work/failed" ] && { cat "$work/log"; echo "demo: does not compile"; exit 2; }
$CXX @LDEXTRA@ -o "$work/demo" "$work"/*.o -lssl -lcrypto -lre2 -lboost_serialization -lpthread -ldl || exit 2
cd "$work" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
rc=$?
[ $rc -eq 0 ] && echo "demo: as expected" || echo "demo: wrong ($rc)"
exit $rc
'''
DIRS = {"core": "fbpcf/engine fbpcf/scheduler fbpcf/frontend fbpcf/util fbpcf/exception fbpcf/common",
        "engine": "fbpcf/engine fbpcf/util fbpcf/exception fbpcf/common",
        "util": "fbpcf/engine/util fbpcf/util fbpcf/exception",
        "std": "fbpcf/mpc_std_lib fbpcf/primitive", "udp": "fbpcf/mpc_std_lib/unified_data_process fbpcf/mpc_std_lib/util fbpcf/mpc_std_lib/aes_circuit",
        "io": "fbpcf/io fbpcf/aws fbpcf/gcp fbpcf/exception", "edit": "example/edit_distance", "none": ""}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("id"); a.add_argument("prop"); a.add_argument("--demo", required=True)
    a.add_argument("--groups", default="core"); a.add_argument("--kit", default="")
    a.add_argument("--needs", required=True); a.add_argument("--breaks", required=True)
    a.add_argument("--asan", action="store_true"); a.add_argument("--tsan", action="store_true")
    a.add_argument("--checks", default="")
    a = a.parse_args()
    diff = sh(f"git -C {REPO} diff").stdout
    if not diff.strip():
        sys.exit("no change in /repo")
    out = os.path.join(HERE, "seeded", a.id)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    dirs = sorted({d for g in a.groups.split(",") for d in DIRS[g].split()})
    san = "-fsanitize=address" if a.asan else "-fsanitize=thread" if a.tsan else ""
    demo = (DEMO.replace("@DIRS@", " ".join(dirs) or "nothing").replace("@KIT@", " ".join(k for k in a.kit.split(",") if k))
            .replace("@EXTRA@", san).replace("@LDEXTRA@", san))
    open(out + "/demo.sh", "w").write(demo)
    os.chmod(out + "/demo.sh", 0o755)
    src = open(a.demo).read()
    open(out + "/demo.cpp", "w").write(src)
    json.dump({"property": a.prop, "needs": a.needs, "what_it_breaks": a.breaks}, open(out + "/meta.json", "w"), indent=1)
    with tarfile.open(out + "/kit.tar.gz", "w:gz") as t:
        for d in ("shim", "harness"):
            t.add(os.path.join(HERE, d), d, filter=lambda i: None if i.name.endswith(("main.cpp", ".supp")) else i)
    tests = sh(f"git -C {REPO} diff --name-only").stdout.split()
    ok = True
    t0 = time.time()
    try:
        r = sh("bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 && bash /opt/vp/test.sh /tmp/seed_o.json")
        last = r.stdout.strip().splitlines()[-1:] or ["?"]
        print("stable:", r.returncode, last[0]); ok &= r.returncode == 0
        d = sh(out + "/demo.sh", cwd=REPO)
        print("demo with change: rc", d.returncode, d.stdout.strip()[-300:]); ok &= d.returncode not in (0, 2)
        for c in [a.prop] + [x for x in a.checks.split(",") if x]:
            r = sh(f"VERIF_SEED=1 VERIF_TIER=quick ./run.py {c} quick", cwd=HERE)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"check {c}: rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED",
                  "\n".join(r.stdout.strip().splitlines()[-6:])[-500:] if r.returncode else "")
    finally:
        sh(f"git -C {REPO} checkout -- .")
    d = sh(out + "/demo.sh", cwd=REPO)
    print("demo without change: rc", d.returncode, d.stdout.strip()[-300:] if d.returncode else ""); ok &= d.returncode == 0
    sh("bash /opt/vp/build.sh")
    print("touches", tests, "secs", round(time.time() - t0), "SEED", a.id, "OK" if ok else "BAD")


main()
