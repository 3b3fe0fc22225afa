#!/usr/bin/env python3
"""check.py ID [quick|thorough]: builds the harness against /repo's working tree, runs the workload
of one property in parallel workers, merges what their monitors observed into evidence/ID.json.
Exit 0: held on everything observed. Exit 1 + VIOLATION line: violated. Exit 2: no verdict."""
import json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()
MEM = 4 << 30          # per worker
HANG = 120             # seconds without a finished case (cases take milliseconds)

def log(*a):
    print(*a, flush=True)

def die(msg):
    log("NO VERDICT: " + msg)
    sys.exit(2)

def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target")
    e.pop("RUSTFLAGS", None)
    return e

def build(feature=None):
    cmd = ["cargo", "build", "--offline", "--locked"] + (["--features", feature] if feature else [])
    e = env()
    if feature:
        e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target", feature)
    try:
        r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=700)
    except subprocess.TimeoutExpired:
        die("the build timed out")
    if r.returncode != 0:
        log(r.stdout.decode(errors="replace")[-4000:])
        die("the harness does not build against /repo")
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "vh")

def tsan(prop, feature, seed, n, fails, cover):
    """The same workload under ThreadSanitizer (the standard library instrumented as well)."""
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target", "tsan")
    e["RUSTFLAGS"] = "-Zsanitizer=thread"
    t = "x86_64-unknown-linux-gnu"
    try:
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "-Zbuild-std", "--target", t] + (["--features", feature] if feature else []),
                           cwd=os.path.join(HERE, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        err = "" if r.returncode == 0 else r.stdout.decode(errors="replace")[-800:]
    except subprocess.TimeoutExpired:
        err = "timeout"
    if err:
        log("note: no ThreadSanitizer build: " + err)
        cover["no ThreadSanitizer build"] = 1
        return
    work = os.path.join(HERE, "target", "run", "tsan-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    vh = os.path.join(HERE, "target", "tsan", t, "debug", "vh")
    e = env()
    e["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66"
    e["VH_SECONDS"] = "150"
    ps = []
    for i in range(4):
        o = open(os.path.join(work, "e%d" % i), "wb")
        ps.append((i, subprocess.Popen([vh, "worker", prop, "quick", str(seed), str(i), "4", str(n), os.path.join(work, "o%d" % i),
                                        os.path.join(work, "p%d" % i)], stdout=o, stderr=o, env=e)))
    for i, p in ps:
        try:
            rc = p.wait(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            continue
        txt = read(os.path.join(work, "e%d" % i))
        if "WARNING: ThreadSanitizer" in txt:
            fails.append({"idx": -1, "what": "ThreadSanitizer", "detail": txt[:6000]})
        elif rc == 0:
            d = json.load(open(os.path.join(work, "o%d" % i)))
            fails += d["fails"]
            k = "parallel run"
            cover[k + " under ThreadSanitizer"] = cover.get(k + " under ThreadSanitizer", 0) + d["cover"].get(k, 0)
        else:
            log("note: ThreadSanitizer did not run: " + txt[-300:])
            cover["ThreadSanitizer did not run"] = 1
    shutil.rmtree(work, ignore_errors=True)

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return ""

def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    meta = json.load(open(os.path.join(HERE, "checks.json")))[prop]
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try:
        os.remove(os.path.join(HERE, "evidence", "replay-%s.txt" % prop))
    except OSError:
        pass
    vh = build(meta.get("feature"))
    t_build = time.time() - T0
    sizes = {}
    for l in subprocess.run([vh, "list"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines():
        n, q, t = l.split()
        sizes[n] = {"quick": int(q), "thorough": int(t)}
    if prop not in sizes:
        die("no workload for " + prop)
    ncases = int(os.environ.get("VERIF_CASES", sizes[prop][tier]))
    nw = min(8, os.cpu_count() or 1)
    work = os.path.join(HERE, "target", "run", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    deadline = T0 + (600 if tier == "quick" else 830)
    ws = []

    def spawn(i, skip=""):
        out, prog = os.path.join(work, "o%d" % i), os.path.join(work, "p%d" % i)
        err = open(os.path.join(work, "e%d" % i), "wb")
        e = env()
        e["VH_SKIP"] = skip
        e["VH_SECONDS"] = str(max(1, int(deadline - 20 - time.time())))
        p = subprocess.Popen([vh, "worker", prop, tier, str(seed), str(i), str(nw), str(ncases), out, prog],
                             stdout=err, stderr=err, preexec_fn=limit, env=e)
        return dict(p=p, out=out, prog=prog, i=i, last="", t=time.time(), state="run", skip=skip)

    def judge(w, why):
        """A crash or a hang is only a verdict when the case alone reproduces it in the engine; a case in
        which the message parser (a dependency) crashes is skipped."""
        cur = w["last"] or read(w["prog"])
        m = re.match(r"-?\d+", cur.strip())
        if not m or int(m.group()) < -1:
            die("worker %d: %s (%s)" % (w["i"], why, read(os.path.join(work, "e%d" % w["i"]))[-500:]))
        idx = int(m.group())
        rout = os.path.join(work, "r%d" % w["i"])
        with open(rout, "wb") as f:
            try:
                rc = subprocess.run([vh, "replay", prop, str(seed), str(idx)], preexec_fn=limit, timeout=HANG, env=env(),
                                    stdout=f, stderr=f).returncode
            except subprocess.TimeoutExpired:
                rc = None
        txt = open(rout, errors="replace").read()
        if rc == 0:
            die("worker %d: %s at case %d, not reproduced" % (w["i"], why, idx))
        phases = re.findall(r"^phase (\w+)$", txt, re.M)
        if phases and phases[-1] == "parse" and idx >= 0 and w["skip"].count(",") < 20:
            log("case %d: the message parser crashes, skipped" % idx)
            w.update(spawn(w["i"], w["skip"] + "%d," % idx))
            return
        w["state"] = "dead"
        how = "the case does not end" if rc is None else "exit status %d" % rc
        crashes.append({"idx": idx, "what": "crash or hang", "detail": how + ": " + txt[:3000] + "\n...\n" + txt[-1500:]})

    crashes = []
    truncated = False
    for i in range(nw):
        ws.append(spawn(i))
    while any(w["state"] == "run" for w in ws):
        time.sleep(0.05)
        for w in ws:
            if w["state"] != "run":
                continue
            now = time.time()
            rc = w["p"].poll()
            if rc is not None:
                if rc == 0 and os.path.exists(w["out"]):
                    w["state"] = "done"
                else:
                    w["last"] = ""
                    judge(w, "the process ended with status %d" % rc)
                continue
            cur = read(w["prog"])
            if cur != w["last"]:
                w["last"], w["t"] = cur, now
            elif now - w["t"] > HANG:
                w["p"].kill()
                w["p"].wait()
                judge(w, "no progress for %d s" % HANG)
        if time.time() > deadline:
            truncated = True
            for w in ws:
                if w["state"] == "run":
                    w["p"].kill()
                    w["p"].wait()
                    w["state"] = "dead"
    fails, known, cover, samples, evals, distinct = [], [], {}, [], 0, set()
    for w in ws:
        if w["state"] != "done":
            continue
        d = json.load(open(w["out"]))
        evals += d["evals"]
        for k, v in d["cover"].items():
            cover[k] = cover.get(k, 0) + v
        samples += d["samples"][:2]
        fails += d["fails"]
        known += d["known"]
        b = open(w["out"] + ".hashes", "rb").read()
        distinct.update(b[j:j + 8] for j in range(0, len(b), 8))
    fails += crashes
    if meta.get("sanitizer"):
        tsan(prop, meta.get("feature"), seed, 240 if tier == "quick" else 3000, fails, cover)
    if "cases not run for lack of time" in cover:
        truncated = True
    shutil.rmtree(work, ignore_errors=True)
    listed = set()
    for l in read(os.path.join(HERE, "known-findings.txt")).splitlines():
        m = re.match(r"finding: property=(\S+) key=(\S+)", l)
        if m and m.group(1) == prop:
            listed.add(m.group(2))
    seen = set()
    for k in known:
        key = k.split(" ", 1)[0]
        if key in listed:
            if key not in seen:
                log("KNOWN-FINDING: property=%s %s" % (prop, k))
                seen.add(key)
        else:
            fails.append({"idx": -1, "what": "unlisted finding", "detail": k})
    fails.sort(key=lambda f: f["idx"])
    wall = time.time() - T0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": meta["rule"],
            "samples": samples[:8] or ["(none)"], "cases": ncases, "observed": dict(sorted(cover.items())),
            "complete": not truncated, "build_s": round(t_build, 1),
        },
        "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fails),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s seed=%d: %d oracle evaluations, %d distinct non-trivial, %d cases, %.1f s (build %.1f s)%s" % (
        prop, tier, seed, evals, len(distinct), ncases, wall, t_build, " TRUNCATED" if truncated else ""))
    if fails:
        rp = os.path.join(HERE, "evidence", "replay-%s.txt" % prop)
        with open(rp, "w") as f:
            for x in fails:
                f.write("# replay: target/debug/vh replay %s %d %d\n%s\n%s\n\n" % (prop, seed, x["idx"], x["what"], x["detail"]))
        for x in fails[:3]:
            log("case %d: %s\n%s" % (x["idx"], x["what"], x["detail"][:3000]))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if evals == 0 or len(distinct) == 0:
        die("nothing was observed")
    missing = [k for k in meta.get("need", []) if k not in cover]
    if missing:
        die("never observed: " + ", ".join(missing))
    if truncated and tier == "quick":
        log("note: the time limit ended the exploration early")
    sys.exit(0)

if __name__ == "__main__":
    main()
