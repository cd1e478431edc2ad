#!/usr/bin/env python3
"""Runs one check: builds its harness against /repo's working tree, drives the monitored workers,
collects what the monitors observed and reports the verdict.

  check.py ID            (VERIF_SEED, VERIF_TIER from the environment)
  check.py ID --replay F (re-runs one recorded case)

exit 0: held on everything observed; 1: VIOLATION (line printed); 2: no answer (build failure, ...).
"""
import hashlib, json, os, shutil, signal, struct, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
TARGET = os.path.join(ROOT, "target")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.92.0", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never",
             VERIF_ROOT=ROOT, VERIF_REPO=REPO, RUST_BACKTRACE="0")
    return e


def build(part):
    """Builds the harness crate of a part and returns the path of its binary."""
    crate = part["crate"]
    e = env()
    e.update(part.get("build_env", {}))
    cmd = ["cargo"] + part.get("cargo", []) + ["build", "--offline"] + part.get("build_args", [])
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log(f"build of {crate} failed")
        sys.exit(2)
    return os.path.join(e["CARGO_TARGET_DIR"], part.get("bin_dir", "debug"), part.get("bin", crate))


class Worker(threading.Thread):
    def __init__(self, part, binary, out, k, n, tier, extra=None):
        super().__init__()
        self.part, self.binary, self.out, self.k, self.n, self.tier, self.extra = part, binary, out, k, n, tier, extra
        self.viols, self.samples, self.done, self.status, self.err = [], [], None, "ok", ""

    def run(self):
        p = self.part
        secs = p.get("secs", {}).get(self.tier, 40 if self.tier == "quick" else 600)
        count = p.get("count", {}).get(self.tier, 10 ** 9)
        cmd = [self.binary, p["check"], "--seed", str(SEED), "--start", str(self.k), "--step", str(self.n),
               "--count", str(max(1, count // self.n)), "--secs", str(secs), "--out", self.out, "--tier", self.tier,
               "--stack-mb", str(p.get("stack_mb", 8))] + (self.extra or [])
        e = env()
        e.update(p.get("env", {}))
        pre = p.get("prefix", [])
        errf = open(os.path.join(self.out, f"err-{p['check']}-{self.k}"), "w+")
        proc = subprocess.Popen(pre + cmd, stdout=subprocess.PIPE, stderr=errf, text=True, env=e, cwd=self.out, start_new_session=True)
        timer = threading.Timer(secs + p.get("grace", 60), lambda: self.kill(proc))
        timer.start()
        for line in proc.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("t") == "viol":
                self.viols.append(d)
            elif d.get("t") == "sample":
                self.samples.append(d["v"])
            elif d.get("t") == "done":
                self.done = d
        rc = proc.wait()
        timer.cancel()
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        errf.seek(0)
        self.err = errf.read()[-4000:]
        if self.status == "ok" and (rc != 0 or self.done is None):
            self.status = f"exit {rc}" if rc >= 0 else "signal " + signal.Signals(-rc).name

    def kill(self, proc):
        self.status = "hang"
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass


def current(part, out, k):
    try:
        return json.loads(open(os.path.join(out, f"cur-{part['check']}-{k}.json")).read() or "null")
    except (OSError, ValueError):
        return None


def replay_run(part, binary, out, case, n):
    """Runs one recorded case alone. Returns (violations, status)."""
    f = os.path.join(out, f"replay-in-{n}.json")
    json.dump({"check": part["check"], "case": case}, open(f, "w"))
    p = dict(part, secs={TIER: 60}, grace=30)
    w = Worker(p, binary, out, 1000 + n, 1, TIER, ["--replay", f])
    w.start()
    w.join()
    return w


def trim(v):
    if isinstance(v, str):
        return v[:400]
    if isinstance(v, list):
        return [trim(x) for x in v[:8]]
    if isinstance(v, dict):
        return {k: trim(x) for k, x in v.items()}
    return v


def sig_of(v):
    if v.get("sig"):
        return v["sig"]
    key = json.dumps(v.get("case"), sort_keys=True)
    return v.get("kind", "?") + ":" + hashlib.sha256(key.encode()).hexdigest()[:16]


def known(cid):
    """Known findings: lines `known: property=ID sig=SIG [replay=FILE] text`."""
    res = {}
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        f = line[7:].split(" ", 2)
        if f[0] != f"property={cid}":
            continue
        sig = f[1][len("sig="):]
        text = f[2]
        rep = None
        if text.startswith("replay="):
            rep, text = text.split(" ", 1)
            rep = os.path.join(ROOT, rep[len("replay="):])
        res[sig] = (text, rep)
    return res


def main():
    cid = sys.argv[1]
    cfg = CHECKS[cid]
    out = os.path.join(ROOT, "out", cid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    t0 = time.time()
    parts = [p for p in cfg["parts"] if TIER in p.get("tiers", ["quick", "thorough"])]
    bins = {}
    for p in parts:
        key = json.dumps([p["crate"], p.get("build_env"), p.get("cargo"), p.get("build_args"), p.get("bin")])
        if key not in bins:
            bins[key] = build(p)
        p["_bin"] = bins[key]
    t_build = time.time() - t0
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        rec = json.load(open(f))
        part = next((p for p in parts if p["check"] == rec.get("check")), parts[0])
        w = replay_run(part, part["_bin"], out, rec.get("case", rec), 0)
        for v in w.viols:
            print(json.dumps(v))
        print("status", w.status, w.err[-500:])
        sys.exit(1 if w.viols or w.status != "ok" else 0)
    kf = known(cid)
    viols, samples, counts, distinct, notes = [], [], {}, set(), []
    for p in parts:
        n = p.get("workers", 8)
        ws = [Worker(p, p["_bin"], out, k, n, TIER) for k in range(n)]
        for w in ws:
            w.start()
        for w in ws:
            w.join()
        for w in ws:
            for v in w.viols:
                v["check"] = p["check"]
                viols.append(v)
            samples += w.samples[:1]
            for k, c in ((w.done or {}).get("counts") or {}).items():
                counts[k] = counts.get(k, 0) + c
            try:
                b = open(os.path.join(out, f"distinct-{p['check']}-{w.k}.bin"), "rb").read()
                distinct.update(x[0] ^ (hash(p["check"]) & 0) for x in struct.iter_unpack("<Q", b))
            except OSError:
                pass
            if w.status != "ok":
                case = current(p, out, w.k)
                log(f"worker {p['check']}/{w.k}: {w.status}; {w.err[-300:]}")
                notes.append(f"worker {p['check']}/{w.k}: {w.status}")
                if case is None:
                    continue
                r = replay_run(p, p["_bin"], out, case, w.k)
                viols += [dict(v, check=p["check"]) for v in r.viols]
                if r.status != "ok" and not r.viols and "SIGKILL" not in r.status:
                    kind = "hang" if r.status == "hang" else "crash"
                    msg = f"{r.status}: {r.err[-300:]}"
                    viols.append({"kind": kind, "msg": msg, "case": case, "check": p["check"]})
                elif not r.viols and w.status.startswith("signal") and "SIGKILL" not in w.status:
                    viols.append({"kind": "crash", "msg": f"{w.status} (not reproduced by the case alone): {w.err[-300:]}", "case": case, "check": p["check"]})
    # known findings are re-run every time; each is reported while it still fails
    shown, bad, quiet = set(), [], 0
    for sig, (text, rep) in kf.items():
        if not rep:
            continue
        rec = json.load(open(rep))
        part = next((p for p in parts if p["check"] == rec.get("check")), parts[0])
        r = replay_run(part, part["_bin"], out, rec["case"], 500 + len(shown))
        if r.viols or r.status != "ok":
            if sig not in shown:
                print(f"KNOWN-FINDING: property={cid} {text}")
            shown.add(sig)
        else:
            notes.append(f"known finding {sig} did not fail")
    for v in viols:
        s = sig_of(v)
        if s in kf:
            if s not in shown:
                print(f"KNOWN-FINDING: property={cid} {kf[s][0]}")
                shown.add(s)
            quiet += 1
        else:
            bad.append(v)
    evals = counts.get("evaluations", 0)
    ev = {
        "property": cid, "tier": TIER, "seed": SEED, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": cfg["rule"],
            "samples": [trim(s) for s in samples[:4]] or ["none"],
            "observed": counts,
            "known_findings_seen": sorted(shown),
            "notes": notes,
        },
        "wall_s": round(time.time() - t0, 1),
        "build_s": round(t_build, 1),
        "violations": [{"kind": v.get("kind"), "msg": (v.get("msg") or "")[:600], "sig": sig_of(v)} for v in bad[:20]],
    }
    with open(os.path.join(ROOT, "evidence", f"{cid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{cid} {TIER}: {evals} evaluations, {len(distinct)} distinct, {len(bad)} violations, {time.time() - t0:.1f}s (build {t_build:.1f}s)")
    for i, v in enumerate(bad[:5]):
        path = os.path.join(out, f"violation-{i}.json")
        json.dump({"check": v.get("check"), "kind": v.get("kind"), "msg": v.get("msg"), "sig": sig_of(v), "case": v.get("case")}, open(path, "w"), indent=1)
        log(f"  {v.get('kind')}: {(v.get('msg') or '')[:300]}")
        print(f"VIOLATION property={cid} replay={path}")
    if bad:
        sys.exit(1)
    if evals < cfg.get("min_evaluations", 1):
        log("too little observed")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
