#!/usr/bin/env python3
"""Builds one property's binary from /repo's working tree and runs it.

  check.py ID            the check of one property (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE run one saved case
  check.py --setup       build everything

Exit 0: held; 1: violation (with a VIOLATION line); anything else: the check itself failed.
"""
import fcntl, hashlib, json, os, re, resource, signal, struct, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
HARNESS = VERIF / "harness"
BUILD = VERIF / "build"
TARGET = BUILD / "target"
T0 = time.time()
BUDGET = {"quick": 840, "thorough": 4 * 3600}

# property -> (package, per-mille of the counts run in the "plain" configuration)
PKG = {}
for pkg, ids in {
    "ptopo": ["C01", "C02"],
    "pchain": ["C03", "C36", "C38"],
    "ptext": ["C04", "C05", "C06", "C07"],
    "pparse": ["C08", "C09", "C10", "C11", "C37"],
    "ppat": ["C12", "C13", "C14", "C34", "C35"],
    "ppaths": ["C15", "C16", "C17"],
    "psyn": ["C18", "C19", "C20", "C31", "C43"],
    "psmall": ["C21", "C22", "C23", "C24", "C25", "C27", "C28", "C29", "C30", "C32", "C33"],
    "palways": ["C26"],
    "pkeys": ["C39", "C40", "C41", "C42"],
}.items():
    for i in ids:
        PKG[i] = pkg
PLAIN_SCALE = {"C18": 60, "C19": 60, "C20": 150, "C31": 150, "C43": 250, "C26": 1000}
FEATURES = {("pchain", "plain"): ["--features", "sync"]}
ONLY = {"C38": "plain"}  # about the thread-safe build
CONFIG_NOTE = {
    "checked": "debug assertions and overflow checks on, in the code under test too",
    "plain": "debug assertions and overflow checks off",
}


def fail(msg, code=2):
    print(f"check error: {msg}", file=sys.stderr)
    sys.exit(code)


def cargo_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "PROPTEST_CASES", "PROPTEST_RNG_SEED", "RUST_LOG"):
        env.pop(k, None)
    env["CARGO_TARGET_DIR"] = str(TARGET)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def repo_hash():
    h = hashlib.sha256()
    files = sorted(p for p in (REPO / "crates").rglob("*") if p.is_file() and "target" not in p.parts)
    for p in [REPO / "Cargo.toml", *files]:
        if p.is_file():
            h.update(str(p).encode() + b"\0" + hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()


def cargo(args, timeout=800):
    return subprocess.run(["cargo", *args], cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def freshen():
    """Forget everything built from /repo if its contents changed (file times alone are not trusted)."""
    stamp = BUILD / "repo.sha256"
    now = repo_hash()
    if stamp.exists() and stamp.read_text() == now:
        return
    if TARGET.exists():
        names = []
        for c in sorted((REPO / "crates").iterdir()):
            t = c / "Cargo.toml"
            if t.is_file():
                m = re.search(r'^name\s*=\s*"([^"]+)"', t.read_text(), re.M)
                if m:
                    names.append(m.group(1))
        md = json.loads(subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=HARNESS,
                                       env=cargo_env(), stdout=subprocess.PIPE, text=True).stdout or '{"packages":[]}')
        known = {p["name"] for p in md["packages"]}
        sel = [x for n in names if n in known for x in ("-p", n)]
        if sel:
            cargo(["clean", "--offline", *sel])
            cargo(["clean", "--offline", "--profile", "plain", *sel])
    BUILD.mkdir(exist_ok=True)
    stamp.write_text(now)


def build(pkg, config):
    prof = [] if config == "checked" else ["--profile", "plain"]
    r = cargo(["build", "--offline", "-p", pkg, *prof, *FEATURES.get((pkg, config), [])])
    if r.returncode != 0:
        print(r.stdout[-6000:], file=sys.stderr)
        fail(f"cannot build {pkg} ({config}) against /repo")
    return TARGET / ("debug" if config == "checked" else "plain") / pkg


def limits(memory=16 << 30, cpu=None):
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if cpu:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 10))


def run_env():
    env = cargo_env()
    env["VERIF_ROOT"] = str(VERIF)
    return env


def run_child(cmd, timeout, memory=16 << 30, cpu=None):
    """Returns (returncode, stdout, stderr); -1000 on timeout. The child's own children go with it."""
    p = subprocess.Popen([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=run_env(), preexec_fn=lambda: limits(memory, cpu), start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(timeout, 1))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return -1000, o, e


def save_replay(prop, config, f):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    doc = {"property": prop, "part": f["part"], "config": config, "case": f["case"], "message": f["message"]}
    body = json.dumps(doc, indent=1, ensure_ascii=True, sort_keys=True)
    h = hashlib.sha256(body.encode()).hexdigest()[:10]
    p = d / f"{prop}-{f['part']}-{h}.json"
    p.write_text(body + "\n")
    return p


def findings(prop):
    """Recorded but unrepaired defects: 'finding: property=ID part=PART case=JSON :: what fails'."""
    out = []
    kf = VERIF / "known-findings.txt"
    if kf.exists():
        for line in kf.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) part=(\S+) case=(.*) :: (.*)$", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), json.loads(m.group(3)), m.group(4)))
    return out


def alone(binary, file, left, limit=60):
    """Runs one case by itself. What it died of, if the case kills it; None if it ends."""
    rc, o, e = run_child([binary, "replay", file], min(left(), limit * 4 + 60), memory=8 << 30, cpu=limit)
    if rc == 1:
        return o.strip()[-1500:]
    if rc == -signal.SIGXCPU:
        return f"did not finish within {limit} s of processor time"
    if rc == -signal.SIGABRT and "memory allocation" in e:
        return "used up 8 GB of memory"
    if rc < 0 and rc not in (-1000, -signal.SIGKILL):
        return f"the process died of signal {-rc}: {e.strip()[-300:]}"
    return None


def crashed(binary, prop, args, out, left):
    """The process died: find the case that kills it by running again with traces, then each case alone."""
    trace = out / "trace"
    trace.mkdir(parents=True, exist_ok=True)
    for f in trace.iterdir():
        f.unlink()
    rc, _, _ = run_child([*args, "--trace", trace], left())
    if rc == 5:
        return hung(binary, out, left)
    for f in sorted(trace.iterdir()):
        what = alone(binary, f, left)
        if what:
            doc = json.loads(f.read_text())
            return {"part": doc["part"], "case": doc["case"], "message": what}
    return None


def hung(binary, out, left):
    """A case ran for very long: does it end when run alone, with a limit on processor time?"""
    f = out / "hang.json"
    doc = json.loads(f.read_text())
    what = alone(binary, f, left, doc["limit"])
    return what and {"part": doc["part"], "case": doc["case"], "message": what}


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    left = lambda: BUDGET[tier] - (time.time() - T0)
    pkg = PKG[prop]
    freshen()
    configs = [ONLY[prop]] if prop in ONLY else ["checked"] + ([] if PLAIN_SCALE.get(prop) == 0 else ["plain"])
    bins = {c: build(pkg, c) for c in configs}
    results, violations = [], []
    hashes = set()
    known = findings(prop)
    for config in configs:
        scale = 1000 if config == "checked" or prop in ONLY else PLAIN_SCALE.get(prop, 250)
        out = BUILD / "out" / f"{prop}-{config}"
        out.mkdir(parents=True, exist_ok=True)
        for f in ("result.json", "hashes.bin"):
            (out / f).unlink(missing_ok=True)
        args = [bins[config], "run", prop, "--tier", tier, "--seed", seed, "--scale", scale, "--out", out,
                "--regress", VERIF / "regress" / prop]
        rc, o, e = run_child(args, left())
        sys.stderr.write(e[-3000:])
        f = None
        if rc == 5:
            f = hung(bins[config], out, left)
            if not f:  # a slow machine, then
                rc, o, e = run_child([*args, "--no-watch"], left())
        if rc == -1000:
            fail(f"{prop} ({config}) did not finish within its time", 4)
        if rc != 0 or not (out / "result.json").exists():
            if rc < 0:
                f = crashed(bins[config], prop, args, out, left)
            if f:
                results.append({"config": config, "parts": [], "crashed": True})
                violations.append((config, f))
                break
            fail(f"{prop} ({config}) ended with {rc}: {e.strip()[-500:]}", 3)
        res = json.loads((out / "result.json").read_text())
        results.append(res)
        if (out / "hashes.bin").exists():
            b = (out / "hashes.bin").read_bytes()
            hashes.update(struct.unpack(f"<{len(b) // 8}Q", b))
        for f in res["failures"]:
            if not any(k[0] == f["part"] and k[1] == f["case"] for k in known):
                violations.append((config, f))
        if violations:
            break
    for part, _case, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    lines = []
    for config, f in violations:
        p = save_replay(prop, config, f)
        print(f"[{f['part']}, {config}] {f['message'][:1500]}")
        lines.append(f"VIOLATION property={prop} replay={p}")
    write_evidence(prop, tier, seed, results, hashes, len(violations))
    for line in lines:
        print(line)
    n = sum(q["evaluations"] for r in results for q in r["parts"])
    print(f"{prop}: {n} cases, {len(hashes)} distinct and non-trivial, {len(violations)} violations, {time.time() - T0:.1f} s")
    sys.exit(1 if violations else 0)


def write_evidence(prop, tier, seed, results, hashes, nviol):
    rules, samples, parts = [], [], []
    for r in results:
        for q in r["parts"]:
            rule = f"{q['part']}: {q['rule']}"
            if rule not in rules:
                rules.append(rule)
            samples += [{"part": q["part"], "case": s} for s in q["samples"][:2]]
            parts.append({"config": r["config"], **{k: q[k] for k in
                          ("part", "evaluations", "nontrivial", "distinct_nontrivial", "labels", "wall_s")}})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(q["evaluations"] for q in parts),
            "distinct_nontrivial": len(hashes),
            "rule": "Cases are drawn by seeded proptest strategies. Non-trivial, by part: " + "; ".join(rules),
            "samples": samples[:16],
            "parts": parts,
            "regressions_replayed": sum(r.get("regressions_replayed", 0) for r in results),
            "configurations": {r["config"]: CONFIG_NOTE[r["config"]] for r in results},
        },
        "assumptions": ["the oracle written in harness/ states the property correctly",
                        "inputs outside the generated distribution are not examined"],
        "wall_s": round(time.time() - T0, 2),
        "violations": nviol,
    }
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=True) + "\n")


def replay(file):
    doc = json.loads(Path(file).read_text())
    freshen()
    b = build(PKG[doc["property"]], doc.get("config", "checked"))
    rc, o, e = run_child([b, "replay", Path(file).resolve()], 600, memory=8 << 30, cpu=60)
    print(o, e)
    if rc == 0:
        sys.exit(0)
    if rc == 1 or rc < 0 and rc != -1000:
        print(f"VIOLATION property={doc['property']} replay={file}")
        sys.exit(1)
    sys.exit(4)


def setup():
    freshen()
    for config in ("checked", "plain"):
        for pkg in dict.fromkeys(PKG.values()):
            if config == "plain" and all(PLAIN_SCALE.get(i) == 0 for i in PKG if PKG[i] == pkg):
                continue
            build(pkg, config)
            print(f"built {pkg} ({config})")


def main():
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        a = sys.argv[1:]
        if a == ["--setup"]:
            setup()
        elif len(a) == 2 and a[0] == "--replay":
            replay(a[1])
        elif len(a) == 1 and a[0] in PKG:
            check(a[0])
        else:
            fail("usage: check.py ID | --replay FILE | --setup")


main()
