#!/usr/bin/env python3
"""Builds and runs the generated-input check of one property.

  run.py ID [quick|thorough]        decide the property (exit 0 / 1)
  run.py ID --replay FILE           re-run one saved case
  run.py --setup                    sanity-check tools, build everything once

Environment: VERIF_SEED (default 1), VERIF_TIER, VERIF_REPO (default /repo).
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

CXX = os.environ.get("VERIF_CXX", "clang++")
BASE = (
    "-std=c++20 -O1 -g0 -w -fno-omit-frame-pointer -DNDEBUG -DFMT_HEADER_ONLY "
    "-D_GLIBCXX_ASSERTIONS -march=haswell -mno-avx512f -maes -mrdseed "
    f"-I{HERE}/shim -I{HERE}/harness -I{REPO} "
    "-include cstdint -include functional -include stdexcept -include vector "
    "-include memory -include cstring"
)
VARIANTS = {
    "asan": "-fsanitize=address -fsanitize=bounds -fno-sanitize-recover=bounds",
    "tsan": "-fsanitize=thread",
    "plain": "-fsanitize=bounds -fno-sanitize-recover=bounds -fsanitize-trap=bounds",
}
LIBS = "-lssl -lcrypto -lre2 -lboost_serialization -lpthread -ldl"
EXCLUDE = re.compile(
    r"/tests?/|/perf/|EmpSh|EmpNetwork|[mM]ain\.cpp$|"
    r"/Mock|_build/"
)
GROUPS = {
    "core": ["fbpcf/engine", "fbpcf/scheduler", "fbpcf/frontend", "fbpcf/util",
             "fbpcf/exception", "fbpcf/common"],
    "std": ["fbpcf/mpc_std_lib", "fbpcf/primitive"],
    "io": ["fbpcf/io", "fbpcf/aws", "fbpcf/gcp", "fbpcf/exception"],
    "edit": ["example/edit_distance"],
    "mpc": ["fbpcf/mpc", "fbpcf/exception", "example/millionaire"],
}
SANENV = {
    "MALLOC_PERTURB_": "165",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:hard_rss_limit_mb=4500:"
                    "malloc_context_size=6:quarantine_size_mb=24:"
                    "detect_stack_use_after_return=0:allocator_may_return_null=0:"
                    "handle_abort=0:alloc_dealloc_mismatch=0",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:"
                    "report_thread_leaks=0:suppressions=" + HERE + "/harness/tsan.supp",
}
HANG_S = 100  # a worker that starts no new case for this long is hung
REPLAY_S = 100


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sources(groups):
    out = []
    for g in groups:
        for d in GROUPS[g]:
            for r, _, fs in os.walk(os.path.join(REPO, d)):
                for f in fs:
                    p = os.path.join(r, f)
                    if f.endswith((".cpp", ".cc")) and not EXCLUDE.search(p):
                        out.append(p)
    return sorted(set(out))


def build_dir(variant):
    h = hashlib.sha1(REPO.encode()).hexdigest()[:8]
    return os.path.join(HERE, "build", f"{variant}-{h}")


# what a harness header needs linked in
KIT = {"net.h": ["net"], "schedkit.h": ["schedkit", "net"], "program.h": ["program", "schedkit", "net"],
       "front.h": ["schedkit", "net"], "stdkit.h": ["schedkit", "net"]}


def kit(src):
    text = open(os.path.join(HERE, "props", src)).read()
    got = {k for h in re.findall(r'#include "([^"]+)"', text) for k in KIT.get(h, [])}
    return sorted(k for k in got if os.path.exists(os.path.join(HERE, "harness", k + ".cpp")))


def build(ids, variant, jobs=None):
    """Compiles /repo's working tree and the harnesses of `ids`; returns the
    binaries.  Raises RuntimeError when that fails."""
    bd = build_dir(variant)
    os.makedirs(bd, exist_ok=True)
    lock = open(os.path.join(bd, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        flags = BASE + " " + VARIANTS[variant]
        n = ["ninja_required_version = 1.3", f"builddir = {bd}",
             "rule cc", f"  command = {CXX} {flags} $extra -MMD -MF $out.d -c $in -o $out",
             "  depfile = $out.d", "  deps = gcc", "  description = cc $in",
             "rule link", f"  command = {CXX} {VARIANTS[variant]} -o $out $in $objs {LIBS}"]
        seen = {}

        def obj(src, extra=""):
            o = os.path.join(bd, re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(src, "/"))
                             + (hashlib.sha1(extra.encode()).hexdigest()[:6] if extra else "") + ".o")
            if o not in seen:
                seen[o] = src
                n.append(f"build {o}: cc {src}")
                if extra:
                    n.append(f"  extra = {extra}")
            return o

        plan = {}
        for i in ids:
            P = PROPS[i]
            own = [obj(os.path.join(HERE, "harness", "main.cpp"))]
            # `parts`: the file is compiled that many times, to spread templates
            for k in range(P.get("parts", 1)):
                own.append(obj(os.path.join(HERE, "props", P["src"]),
                               " ".join([P.get("cflags", "")] + ([f"-DPART={k}"] if P.get("parts") else [])).strip()))
            for k in kit(P["src"]):
                own.append(obj(os.path.join(HERE, "harness", k + ".cpp")))
            if P.get("rand", True):
                own.append(obj(os.path.join(HERE, "harness", "rand.cpp")))
            lib = [obj(s) for s in sources(P.get("groups", ["core"]))]
            plan[i] = (lib, own)
        nf = os.path.join(bd, "build.ninja")
        new = "\n".join(n) + "\n"
        if not os.path.exists(nf) or open(nf).read() != new:
            open(nf, "w").write(new)
        want = sorted({o for l, w in plan.values() for o in l + w})
        cmd = ["ninja", "-C", bd, "-k", "0"] + ([f"-j{jobs}"] if jobs else []) + want
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = set()
        if r.returncode != 0:
            dry = subprocess.run(["ninja", "-C", bd, "-n", "-v"] + want,
                                 stdout=subprocess.PIPE, text=True).stdout
            bad = set(re.findall(r"-o (\S+\.o)\b", dry))
            log('\n'.join(l for l in r.stdout.splitlines() if not l.startswith((CXX, '['))) [-5000:])
        bins = {}
        for i, (lib, own) in plan.items():
            if any(o in bad for o in own):
                raise RuntimeError(f"harness of {i} does not compile against {REPO}")
            lib = [o for o in lib if o not in bad and os.path.exists(o)]
            ar = os.path.join(bd, f"lib{i}.a")
            if os.path.exists(ar):
                os.remove(ar)
            subprocess.run(["ar", "rcs", ar] + lib, check=True)
            b = os.path.join(bd, i)
            q = subprocess.run([CXX] + VARIANTS[variant].split() + ["-o", b] + own + [ar] + LIBS.split(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode != 0:
                log(q.stdout[-6000:])
                raise RuntimeError(f"harness of {i} does not link against {REPO}")
            bins[i] = b
        return bins
    finally:
        lock.close()


def env(extra=None):
    e = dict(os.environ)
    e.update(SANENV)
    if WORK:
        e["TMPDIR"] = WORK  # scratch of a killed process goes with the rest
    if extra:
        e.update(extra)
    return e


def run_replay(binary, path, timeout=REPLAY_S):
    """True when the case fails (non-zero exit, crash or hang)."""
    p = subprocess.Popen([binary, "--replay", path], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors="replace", env=env(),
                         start_new_session=True, cwd=WORK)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return True, "hang: no result within %d s" % timeout
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    if p.returncode == 0:
        return False, out
    if p.returncode == 1:
        return True, out
    if p.returncode == 3:
        raise RuntimeError("replay file unreadable: " + err)
    m = re.search(r"(SUMMARY: .*|runtime error: .*|terminate called.*(?:\n.*what.*)?|Assertion .*)", err)
    return True, f"{out}crash (exit {p.returncode}): {m.group(1) if m else err[-400:]}"


def live_tape(path, fams, out):
    try:
        raw = open(path, "rb").read()
    except OSError:
        return False
    fam, ln = struct.unpack_from("<QQ", raw, 0)
    if fam == 0 or fam > len(fams):
        return False
    ln = min(ln, len(raw) // 8 - 4)
    vals = struct.unpack_from(f"<{ln}Q", raw, 16)
    with open(out, "w") as f:
        f.write(f"family {fams[fam - 1]}\n" + " ".join(map(str, vals)) + "\n")
    return True


WORK = None


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def campaign(pid, variant, binary, tier, seed, cap_s, tag, scale, workers):
    """One sweep over the planned cases.  Returns (stats, confirmed, unreproduced)."""
    fams = [l.split()[0] for l in subprocess.run([binary, "--list"], stdout=subprocess.PIPE,
                                                 text=True, env=env(), check=True).stdout.splitlines()]
    cpath = os.path.join(WORK, f"{tag}.counter")
    with open(cpath, "wb") as f:
        f.write(b"\0" * 4096)
    stats, unrepro = [], []
    procs = {}
    launches = 0

    def launch(w):
        nonlocal launches
        n = launches
        launches += 1
        base = os.path.join(WORK, f"{tag}.{n}")
        cmd = [binary, "--seed", str(seed), "--tier", tier, "--cap", str(max(1, t_end - time.time())),
               "--live", base + ".live", "--counter", cpath, "--out", base + ".json",
               "--fail", base + ".tape", "--scale", str(scale)]
        err = open(base + ".err", "wb")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env(), cwd=WORK,
                             start_new_session=True)
        procs[n] = dict(p=p, base=base, last=None, since=time.time())

    def stop_all():
        for d in procs.values():
            try:
                os.killpg(d["p"].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            d["p"].wait()
        procs.clear()

    t_end = time.time() + cap_s
    for w in range(workers):
        launch(w)
    confirmed = None
    while procs and not confirmed:
        time.sleep(0.05)
        for n, d in list(procs.items()):
            rc = d["p"].poll()
            base = d["base"]
            cand = None
            if rc is None:
                try:
                    with open(base + ".live", "rb") as f:
                        f.seek(-8, os.SEEK_END)
                        cur = f.read(8)  # number of cases this worker started
                except OSError:
                    cur = b""
                if cur != d["last"]:
                    d["last"], d["since"] = cur, time.time()
                elif time.time() - d["since"] > HANG_S:
                    os.killpg(d["p"].pid, signal.SIGKILL)
                    d["p"].wait()
                    cand = base + ".hang.tape"
                    if not live_tape(base + ".live", fams, cand):
                        cand = None
                    kind = "hang"
                else:
                    continue
                if cand is None:
                    continue
            else:
                if os.path.exists(base + ".json"):
                    try:
                        stats.append((json.load(open(base + ".json")), base + ".json.hashes"))
                    except ValueError:
                        pass
                if rc == 0:
                    del procs[n]
                    continue
                if rc == 1 and os.path.exists(base + ".tape"):
                    cand, kind = base + ".tape", "failure"
                else:
                    cand, kind = base + ".crash.tape", "crash"
                    if not live_tape(base + ".live", fams, cand):
                        err = open(base + ".err", errors="replace").read()[-2000:]
                        raise RuntimeError(f"worker ended with {rc} outside a case: {err}")
            del procs[n]
            # decide the candidate: it must fail again, three times
            fails, msgs = 0, []
            tries = 3
            k = 0
            while k < tries:
                bad, msg = run_replay(binary, cand)
                k += 1
                if bad:
                    fails += 1
                    msgs.append(msg)
                if k == 3 and fails < 3 and kind != "hang":
                    tries = 30  # schedule-dependent: look for three failures
                if fails >= 3:
                    break
            if fails >= 3:
                confirmed = dict(tape=cand, kind=kind, msg=msgs[-1])
                break
            try:
                err = open(base + ".err", errors="replace").read()[-3000:]
            except OSError:
                err = ""
            unrepro.append(dict(kind=kind, rc=rc, tape=open(cand).read()[:400] + " ... " + open(cand).read()[-200:], failed=fails,
                                tries=k, stderr=err))
            log(f"note: a {kind} did not reproduce ({fails}/{k}); continuing")
            if len(unrepro) > 6:
                continue
            launch(n)
    stop_all()
    return fams, stats, confirmed, unrepro


def decide(pid, tier, seed):
    global WORK
    P = PROPS[pid]
    t0 = time.time()
    WORK = os.path.join(HERE, "work", f"{pid}-{os.getpid()}")
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    try:
        variants = P.get("variants", {}).get(tier) or [("asan", 1.0)]
        cov = dict(evaluations=0, distinct_nontrivial=0, rule=P["rule"], samples=[], families={},
                   planned=0, unreproduced=[], complete=True, build_s=0.0)
        hashes = set()
        violation = None
        known = known_findings(pid)
        known_hit = set()
        cap = P.get("cap", {}).get(tier, 420 if tier == "quick" else 1500)
        for variant, scale in variants:
            tb = time.time()
            binary = build([pid], variant)[pid]
            cov["build_s"] = round(cov["build_s"] + time.time() - tb, 1)
            tag = variant
            workers = P.get("workers", os.cpu_count() or 4)
            fams, stats, confirmed, unrepro = campaign(
                pid, variant, binary, tier, seed, cap, tag, scale, workers)
            cov["unreproduced"] += unrepro
            for st, hp in stats:
                cov["complete"] &= st["complete"]
                for f, d in st["families"].items():
                    key = f if variant == "asan" else f"{f}@{variant}"
                    x = cov["families"].setdefault(key, dict(
                        planned=d["planned"], evaluations=0, nontrivial=0, secs=0.0, max_secs=0.0, labels={}))
                    x["evaluations"] += d["evals"]
                    x["nontrivial"] += d["nontrivial"]
                    x["secs"] = round(x["secs"] + d["secs"], 2)
                    x["max_secs"] = round(max(x["max_secs"], d["max_secs"]), 3)
                    for l, c in d["labels"].items():
                        x["labels"][l] = x["labels"].get(l, 0) + c
                    if len([s for s in cov["samples"] if s.startswith(f + ":")]) < 2:
                        cov["samples"] += [f + ": " + s for s in d["samples"][:1]]
                    cov["evaluations"] += d["evals"]
                if os.path.exists(hp):
                    raw = open(hp, "rb").read()
                    hashes.update(struct.unpack(f"<{len(raw) // 8}Q", raw))
            if confirmed:
                shrunk = os.path.join(WORK, "shrunk.tape")
                secs = 20 if confirmed["kind"] == "hang" else P.get("shrink_s", 45)
                per = HANG_S if confirmed["kind"] == "hang" else 40
                if confirmed["kind"] != "hang":
                    try:
                        subprocess.run([binary, "--shrink", confirmed["tape"], "--out", shrunk, "--secs", str(secs),
                                        "--per-case", str(per)], env=env(), timeout=secs + 120, cwd=WORK,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    except subprocess.TimeoutExpired:
                        pass
                use, msg = confirmed["tape"], confirmed["msg"]
                if os.path.exists(shrunk):
                    r = [run_replay(binary, shrunk) for _ in range(3)]
                    if all(b for b, _ in r):
                        use, msg = shrunk, r[-1][1]
                h = hashlib.sha1(open(use, "rb").read()).hexdigest()[:10]
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                dst = os.path.join(HERE, "replays", f"{pid}-{variant}-{h}.tape")
                body = open(use).read()
                note = "".join(f"# {l}\n" for l in msg.strip().splitlines()[:40])
                open(dst, "w").write(
                    f"# property {pid} ({P['title']})\n# re-run: ./run.py {pid} --replay {dst}\n{note}{body}")
                violation = (dst, msg)
                break
        cov["distinct_nontrivial"] = len(hashes)
        if not cov["samples"]:
            cov["samples"] = ["(no non-trivial case was completed before the violation)"]
        cov["samples"] = cov["samples"][:24]
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=P.get("assumptions", []) + COMMON_ASSUMPTIONS,
                  wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        if violation:
            print(violation[1].strip()[-3000:])
            print(f"VIOLATION property={pid} replay={violation[0]}")
            return 1
        if cov["evaluations"] == 0:
            log("no case was evaluated")
            return 2
        print(f"{pid} held: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
              f"{ev['wall_s']} s (build {cov['build_s']} s)")
        return 0
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


COMMON_ASSUMPTIONS = [
    "external libraries (folly, AWS/GCS SDK, emp-tool) are replaced by the stand-ins in /verif/shim",
    "OpenSSL, the C++ standard library, boost, re2 and the compiler are trusted",
    "the code under test draws entropy only from OpenSSL RAND_bytes/BN_rand_range, which the harness makes deterministic",
    "absence of failures over the generated cases is evidence, not proof",
]


def main():
    global WORK
    a = sys.argv[1:]
    if a and a[0] in ("--setup", "--setup-tools"):
        for t in (CXX, "ninja", "ar"):
            if not shutil.which(t):
                log("missing tool", t)
                return 1
        if a[0] == "--setup-tools":  # every check builds what it needs itself
            return 0
        ids = a[1:] or list(PROPS)
        try:
            build(ids, "asan")
        except RuntimeError as e:
            log(str(e))
            return 1
        return 0
    if not a or a[0] not in PROPS:
        log(__doc__)
        return 2
    pid = a[0]
    if "--replay" in a:
        f = os.path.abspath(a[a.index("--replay") + 1])
        variant = ([v for v in VARIANTS if f"-{v}-" in os.path.basename(f)] + ["asan"])[0]
        binary = build([pid], variant)[pid]
        WORK = os.path.join(HERE, "work", f"{pid}-{os.getpid()}")
        os.makedirs(WORK, exist_ok=True)
        try:
            bad, msg = run_replay(binary, f)
        finally:
            shutil.rmtree(WORK, ignore_errors=True)
        print(msg)
        if bad:
            print(f"VIOLATION property={pid} replay={f}")
        return 1 if bad else 0
    tier = (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return decide(pid, tier, seed)
    except (RuntimeError, subprocess.CalledProcessError) as e:
        log("error:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
