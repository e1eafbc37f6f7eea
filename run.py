#!/usr/bin/env python3
"""run.py <PROPERTY> [--replay FILE]: builds what the property's monitor needs from /repo, runs it, writes evidence."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
from checks import CHECKS

KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known(prop):
    """Lines: known: property=<id> key=<key> <text>   (fixed: lines suppress nothing)"""
    out = {}
    for line in open(KNOWN):
        m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s*(.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def sanitizer_key(err):
    """Returns (key, text) of a sanitizer report (or None)."""
    m = re.search(r"(\S+):(\d+):(\d+): runtime error: (.*)", err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(4))
        msg = re.sub(r"'[^']*'", "T", msg)[:60]
        return "ubsan:" + re.sub(r"\W+", "-", msg).strip("-") + ":" + first_frame(err), m.group(0)
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|MemorySanitizer|UndefinedBehaviorSanitizer): ([^\n]*)", err)
    if m:
        tool = {"AddressSanitizer": "asan", "ThreadSanitizer": "tsan", "MemorySanitizer": "msan", "UndefinedBehaviorSanitizer": "ubsan"}[m.group(1)]
        kind = re.split(r"[\s:(]", m.group(2).strip())[0]
        if tool == "tsan":
            kind = re.sub(r"\W+", "-", re.sub(r"\(pid.*", "", m.group(2)).strip()).strip("-")
        return "%s:%s:%s" % (tool, kind, first_frame(err)), m.group(0)
    return None


def first_frame(err):
    """First stack frame that lies in /repo; function name without arguments."""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err):
        f = m.group(1)
        if B.REPO + "/blend2d" in f:
            f = re.split(r"\s+/", f)[0]
            f = re.sub(r"\(anonymous namespace\)::", "", f)
            f = re.sub(r"<.*>", "", f)
            f = re.sub(r"\(.*", "", f)
            return f.strip().split(" ")[-1] or "unknown"
    for m in re.finditer(r"#\d+ ([^\n(]*)[^\n]* " + re.escape(B.REPO) + "/blend2d", err):
        return re.sub(r"<.*>", "", m.group(1)).strip().split(" ")[-1] or "unknown"
    return "outside"


class Shard:
    def __init__(self, idx, cfg, exe, args, env, work, start=0):
        self.idx, self.cfg, self.exe, self.args, self.env, self.work = idx, cfg, exe, args, env, work
        self.start = start
        self.restarts = 0
        self.launch()

    def launch(self):
        self.tag = "%d.%d" % (self.idx, self.restarts)
        self.progf = os.path.join(self.work, "prog." + self.tag)
        self.statf = os.path.join(self.work, "stat." + self.tag)
        self.outf = os.path.join(self.work, "out." + self.tag)
        self.errf = os.path.join(self.work, "err." + self.tag)
        scratch = os.path.join(self.work, "scratch.%d" % self.idx)
        os.makedirs(scratch, exist_ok=True)
        a = [self.exe] + self.args + ["--start", str(self.start), "--progress", self.progf, "--stats", self.statf, "--scratch", scratch]
        self.last = (None, time.time())
        self.t0 = time.time()
        self.hung = False
        self.p = subprocess.Popen(a, stdout=open(self.outf, "wb"), stderr=open(self.errf, "wb"), env=self.env, cwd=scratch)

    def progress(self):
        try:
            b = open(self.progf, "rb").read(16)
            return int.from_bytes(b[:8], "little"), int.from_bytes(b[8:16], "little")
        except OSError:
            return 0, 0


def run_one(exe, args, env, work, case, timeout):
    """Replays one case; returns (rc or None on timeout, stdout, stderr)."""
    scratch = os.path.join(work, "scratch.replay")
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run([exe] + args + ["--case", str(case), "--scratch", scratch], env=env, cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace", text=True)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, "", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--verbose", action="store_true")
    o = ap.parse_args()
    cfg = CHECKS[o.prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    runs = cfg["runs"]
    work = tempfile.mkdtemp(prefix="vh-%s-" % o.prop, dir=os.environ.get("TMPDIR", "/tmp"))
    os.chmod(work, 0o755)
    try:
        return check(o, cfg, runs, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(o, cfg, runs, tier, seed, work, t0):
    prop = o.prop
    known = load_known(prop)
    found = {}      # key -> dict
    evals = 0
    counters = {}
    samples = []
    hashes = set()
    errors = []
    for ri, run in enumerate(runs):
        variant = run.get("variant", "asan")
        exe = B.build(variant, os.path.join(VERIF, "harness", run["harness"]), run.get("wraps", ()), run.get("libs", ""), run.get("hflags", ""))
        if o.verbose:
            print("built %s in %.1fs" % (exe, time.time() - t0))
        ncases = o.cases or run[tier]
        nsh = run.get("shards", 8)
        base = ["--seed", str(seed), "--mode", run.get("mode", prop), "--tier", tier, "--corpus", os.path.join(VERIF, "corpus"), "--cases", str(ncases)]
        env0 = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "TSAN_", "UBSAN_", "MSAN_", "LSAN_", "BL_VERIF"))}
        env0["UBSAN_OPTIONS"] = "print_stacktrace=1"
        env0.update(run.get("env", {}))

        def shard_env(i):
            e = dict(env0)
            feats = run.get("cpu", [0, 0x7f, 0, 0x1f, 0, 0x7f, 0, 0x7])
            e["BL_VERIF_CPU_FEATURES"] = hex(feats[i % len(feats)])
            return e

        if o.replay:
            rp = json.load(open(o.replay))
            if rp.get("run", 0) != ri:
                continue
            base[1] = str(rp["seed"]); base[5] = rp["tier"]; base[-1] = str(rp["cases"])
            e = dict(env0); e.update(rp["env"])
            rc, out, err = run_one(exe, base + ["-v"], e, work, rp["case"], 600)
            sys.stdout.write(out); sys.stderr.write(err)
            bad = rc is None or rc != 0 or "VH-VIOLATION" in out
            if bad:
                print("VIOLATION property=%s replay=%s" % (prop, o.replay))
            return 1 if bad else 0

        ctimeout = run.get("case_timeout", 60)
        total_limit = 640 if tier == "quick" else 6 * 3600
        shards = [Shard(i, run, exe, base + ["--shard", str(i), "--nshards", str(nsh)], shard_env(i), work) for i in range(nsh)]
        active = list(shards)
        trun = time.time()

        def add(key, sh, case, msg, err=""):
            key = re.sub(r"\s+", "_", key)
            if key not in found:
                found[key] = dict(key=key, run=ri, case=case, msg=msg, env={"BL_VERIF_CPU_FEATURES": sh.env["BL_VERIF_CPU_FEATURES"]}, seed=seed, tier=tier, cases=ncases, stderr=err[-6000:], count=0)
            found[key]["count"] += 1

        while active:
            time.sleep(0.05)
            for sh in list(active):
                rc = sh.p.poll()
                pr = sh.progress()
                now = time.time()
                if pr != sh.last[0]:
                    sh.last = (pr, now)
                if rc is None:
                    if now - trun > total_limit:
                        sh.p.kill(); sh.p.wait(); active.remove(sh)
                        errors.append("shard %d: time limit of the run" % sh.idx)
                    elif now - sh.last[1] > ctimeout:
                        sh.hung = True
                        if os.environ.get("VERIF_GCORE"):
                            pass
                        sh.p.kill(); sh.p.wait()
                    else:
                        continue
                    rc = sh.p.returncode
                    if not sh.hung:
                        continue
                out = open(sh.outf, errors="replace").read()
                err = open(sh.errf, errors="replace").read()
                nv = 0
                for line in out.splitlines():
                    if line.startswith("VH-VIOLATION\t"):
                        _, key, case, msg = (line.split("\t") + ["", ""])[:4]
                        add(key, sh, int(case), msg); nv += 1
                if os.path.exists(sh.statf):
                    try:
                        stt = json.load(open(sh.statf))
                        evals += stt["evals"]
                        for k, v in stt["counters"].items():
                            counters[k] = counters.get(k, 0) + v
                        samples += stt["samples"]
                        hashes.update(stt["hashes"])
                    except ValueError:
                        pass
                if rc == 0 and "VH-DONE" in out:
                    active.remove(sh)
                    continue
                # Abnormal end.
                case = pr[0]
                key = None
                if sh.hung:
                    rc2, o2, e2 = run_one(exe, sh.args, sh.env, work, case, max(120, 2 * ctimeout))
                    if rc2 is None:
                        key, msg = "hang:%s" % run.get("mode", prop), "case %d does not terminate" % case
                        err = ""
                    elif rc2 != 0:
                        sk = sanitizer_key(e2)
                        key, msg, err = (sk[0], sk[1], e2) if sk else ("crash:rc%d" % rc2, "exit %d" % rc2, e2)
                        if rc2 == 77 or rc2 == -9: key = None; errors.append("shard %d case %d: rc %d: %s" % (sh.idx, case, rc2, e2[-300:]))
                    else:
                        errors.append("shard %d: stalled on case %d but the replay terminated" % (sh.idx, case))
                elif rc == 77 or "VH-HARNESS-ERROR" in err:
                    errors.append("shard %d case %d: harness error: %s" % (sh.idx, case, err[-500:]))
                elif rc == -9 or "hard rss limit" in err or "failed to allocate" in err and "AddressSanitizer" not in err:
                    errors.append("shard %d case %d: ended from outside (rc %d) %s" % (sh.idx, case, rc, err[-300:]))
                else:
                    sk = sanitizer_key(err)
                    if sk:
                        key, msg = sk
                    else:
                        m = re.search(r"\[Blend2D\] ASSERTION[^\n]*|[Aa]ssert[^\n]*", err)
                        key, msg = "crash:rc%d" % rc, "process ended with %d %s" % (rc, (m.group(0) if m else err[-200:]).replace("\n", " "))
                if key:
                    add(key, sh, case, msg, err)
                    # Continue after a listed finding (or a few unlisted ones to collect distinct keys).
                    if sh.restarts < (200 if key in known else 2) and pr[1] == 1:
                        sh.restarts += 1
                        sh.start = case + 1
                        evals += 1
                        sh.launch()
                        continue
                active.remove(sh)
        if o.verbose:
            print("run %d: %.1fs" % (ri, time.time() - trun))
    # Verdict.
    unl = [f for k, f in found.items() if k not in known]
    for k in known:
        if k in found or not cfg.get("known_needs_observation", False):
            print("KNOWN-FINDING: property=%s %s (%s)%s" % (prop, k, known[k], "" if k in found else " [not reached in this run]"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
                     "samples": samples[:12], "observed": dict(sorted(counters.items())), "known_findings_hit": sorted(k for k in found if k in known)},
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(unl),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for f in unl[:8]:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", f["key"])[:80]))
        json.dump(f, open(rp, "w"), indent=1)
        print("  key=%s case=%d env=%s: %s" % (f["key"], f["case"], f["env"]["BL_VERIF_CPU_FEATURES"], f["msg"][:700]))
        if f["stderr"]:
            print("\n".join("    " + x for x in f["stderr"].splitlines()[:24]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if unl:
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    if evals == 0 or len(hashes) < 2:
        print("ERROR: nothing was observed (evals=%d distinct=%d)" % (evals, len(hashes)))
        return 2
    miss = [c for c in cfg.get("require", []) if not counters.get(c)]
    if miss:
        print("ERROR: never observed: " + ", ".join(miss))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs %s" % (prop, tier, seed, evals, len(hashes), time.time() - t0, json.dumps(counters)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
