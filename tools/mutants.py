#!/usr/bin/env python3
"""Runs checks against planted changes, in scratch worktrees.

  tools/mutants.py LIST.py [-j N] [-o OUT] [ids...]

LIST.py defines M = [dict(id, prop, edits=[(file, old, new)...], checks=[...])].
Nothing in /repo is touched.  With `demo` (C++ source; groups, kit, needs,
breaks, asan, tsan) the change is also written to seeded/<id>/ when the
demonstration fails with it and passes without it; --stable then confirms the
repository's own tests in /repo (mkseed does the same one by one)."""
import argparse, json, os, queue, re, runpy, subprocess, sys, threading, time, tarfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MK = open(os.path.join(HERE, "tools", "mkseed.py")).read()
ns = {}
exec(MK[MK.index("DEMO = r'''"):MK.index("def sh(cmd")], ns)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def write_seed(m, diff):
    out = os.path.join(HERE, "seeded", m["id"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    dirs = sorted({d for g in m.get("groups", "core").split(",") for d in ns["DIRS"].get(g, g).split()})
    san = "-fsanitize=address" if m.get("asan") else "-fsanitize=thread" if m.get("tsan") else ""
    demo = (ns["DEMO"].replace("@DIRS@", " ".join(dirs) or "nothing").replace("@KIT@", " ".join(k for k in m.get("kit", "").split(",") if k))
            .replace("@EXTRA@", san + " " + m.get("flags", "")).replace("@LDEXTRA@", san))
    open(out + "/demo.sh", "w").write(demo)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.cpp", "w").write(m["demo"])
    json.dump({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    with tarfile.open(out + "/kit.tar.gz", "w:gz") as t:
        for d in ("shim", "harness"):
            t.add(os.path.join(HERE, d), d, filter=lambda i: None if i.name.endswith(("main.cpp", ".supp")) else i)
    return out


def apply(wt, m):
    for f, old, new in m["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        if t.count(old) != 1 and not m.get("all"):
            return f"{f}: {t.count(old)} matches of {old[:60]!r}"
        t = t.replace(old, new)
        open(p, "w").write(t)
    return None


def main():
    a = argparse.ArgumentParser()
    a.add_argument("list"); a.add_argument("ids", nargs="*"); a.add_argument("-j", type=int, default=2)
    a.add_argument("-o", default="/tmp/mut/results.txt"); a.add_argument("--nocheck", action="store_true")
    a.add_argument("--stable", action="store_true")
    a = a.parse_args()
    M = runpy.run_path(a.list)["M"]
    q = queue.Queue()
    for m in M:
        if not a.ids or any(m["id"] == i or m["id"].startswith(i) for i in a.ids):
            q.put(m)
    lock = threading.Lock()

    def say(*x):
        with lock:
            s = " ".join(str(y) for y in x)
            print(s, flush=True)
            open(a.o, "a").write(s + "\n")

    def worker(k):
        wt = f"{os.environ.get('MUT_DIR', '/tmp/mut')}/w{k}"
        if not os.path.isdir(wt):
            sh(f"git clone -q /repo {wt}")
        sh(f"git -C {wt} checkout -q -- . && git -C {wt} pull -q --ff-only")
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            t0 = time.time()
            e = apply(wt, m)
            try:
                if e:
                    say(m["id"], "BADEDIT", e)
                    continue
                diff = sh(f"git -C {wt} diff").stdout
                res = []
                demo_ok = None
                if "demo" in m:
                    out = write_seed(m, diff)
                    d = sh(out + "/demo.sh", cwd=wt)
                    sh(f"git -C {wt} checkout -q -- .")
                    d0 = sh(out + "/demo.sh", cwd=wt)
                    apply(wt, m)
                    demo_ok = d.returncode not in (0, 2, 3) and d0.returncode == 0
                    res.append(f"demo {'ok' if demo_ok else 'BAD'} ({d.returncode} {d0.returncode})")
                    if not demo_ok:
                        res.append(d.stdout.strip()[-1500:] + "\n--- without:\n" + d0.stdout.strip()[-1500:])
                for c in ([] if a.nocheck else dict.fromkeys([m["prop"]] + m.get("checks", []))):
                    r = sh(f"VERIF_REPO={wt} VERIF_SEED=1 VERIF_TIER=quick ./run.py {c} quick", cwd=HERE)
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    good = r.returncode == 1 and v
                    res.append(f"{c} {'CAUGHT' if good else 'MISSED rc %d' % r.returncode}")
                    if good:
                        w = [l for l in r.stdout.splitlines() if "fail" in l.lower() or ":" in l]
                        res.append("   [" + " / ".join(x.strip() for x in r.stdout.strip().splitlines()[-5:])[:400] + "]")
                        break
                    elif r.returncode:
                        res.append(r.stdout[-1200:])
                say(m["id"], m["prop"], "; ".join(res), f"{time.time()-t0:.0f}s")
            finally:
                sh(f"git -C {wt} checkout -q -- .")

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if a.stable:
        for m in M:
            if (not a.ids or m["id"] in a.ids) and "demo" in m:
                p = os.path.join(HERE, "seeded", m["id"], "patch.diff")
                sh(f"git -C /repo apply {p}")
                r = sh("bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 && bash /opt/vp/test.sh /tmp/seed_o.json")
                print("stable", m["id"], r.returncode, r.stdout.strip().splitlines()[-1:])
                sh("git -C /repo checkout -q -- .")
        sh("bash /opt/vp/build.sh")


main()
