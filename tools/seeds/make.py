#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the seeds defined in s_*.py, and confirms them.

  make.py ID...     (re)write and confirm these (all if none)
  make.py --catch ID...  apply to /repo, run the property's check, undo; print whether it is caught
"""
import difflib, json, os, subprocess, sys, shutil
from pathlib import Path
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from lib import SEEDS
for f in sorted(HERE.glob("s_*.py")):
    exec(compile(f.read_text(), str(f), "exec"), {"seed": __import__("lib").seed})
OUT = HERE.parent.parent / "seeded"
WORK = Path("/tmp/seedwork")

EXT = {"rowan": '"0.16.1"', "log": '"0.4.20"', "proc-macro2": '"1"', "syn": '{ version = "2", features = ["full"] }', "quote": '"1"', "rustc-hash": '"2.1.0"', "text-size": '"1.1.1"', "nohash-hasher": '"0.2.0"'}

def patch(s):
    out = []
    files = {}
    for file, old, new in s["edits"]:
        t = files.setdefault(file, [Path("/repo", file).read_text()] * 2)
        assert t[1].count(old) == 1, (s["id"], file, old, t[1].count(old))
        files[file] = [t[0], t[1].replace(old, new)]
    for file, (a, b) in files.items():
        d = list(difflib.unified_diff(a.splitlines(True), b.splitlines(True), f"a/{file}", f"b/{file}"))
        out += [f"diff --git a/{file} b/{file}\n", *d]
    return "".join(out)

def write(s):
    d = OUT / s["id"]
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(patch(s))
    (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    (d / "demo.rs").write_text(s["main"].strip() + "\n")
    def dep(x):
        if x in EXT: return f"{x} = {EXT[x]}"
        feats = s["features"].get(x)
        return f'{x} = {{ path = "$repo/crates/{x}"' + (f', features = {json.dumps(feats)}' if feats else "") + " }"
    deps = "\n".join(dep(x) for x in s["deps"])
    build = ""
    copy = ""
    if s["gen"] is not None:
        (d / "gen.rs").write_text(s["gen"].strip() + "\n")
        build = '[build-dependencies]\nsyntax-gen = { path = "$repo/crates/syntax-gen" }'
        copy = 'cp "$here/gen.rs" "$work/build.rs"\n'
    rel = " --release" if s["profile"] == "release" else ""
    (d / "demo.sh").write_text(f'''#!/bin/bash
# Run with cwd at the repository. Exit 0: the property holds for the demonstrated case.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work="$repo/target/seeded-demo/{s["id"]}"
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
{copy}[ ! -f "$repo/Cargo.lock" ] || cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
{deps}
{build}
EOF
cd "$work"
export CARGO_TARGET_DIR="$repo/target/seeded-demo/target"
cargo build --offline -q{rel} >"$work/log" 2>&1 || {{ tail -30 "$work/log"; echo "the demonstration does not build"; exit 1; }}
mkdir -p "$work/scratch"
cd "$work/scratch"
timeout 200 "$CARGO_TARGET_DIR/{"release" if rel else "debug"}/demo"
''')
    os.chmod(d / "demo.sh", 0o755)

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)

def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)

STABLE = None
def confirm(s):
    """In a scratch copy: builds, passes the stable tests, demo 0 without and nonzero with."""
    d = OUT / s["id"]
    if not WORK.exists():
        shutil.copytree("/repo", WORK, symlinks=True)
    demo = Path("/tmp/seeddemo"); shutil.rmtree(demo, ignore_errors=True); demo.mkdir()
    for f in d.iterdir():
        if f.suffix not in (".diff", ".patch") and f.name != "meta.json": shutil.copy(f, demo / f.name)
    sh("git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", WORK)
    r0 = sh(f"bash {demo}/demo.sh", WORK, 300)
    if r0.returncode != 0: return f"DEMO FAILS CLEAN: {r0.stdout[-1500:]}"
    a = sh(f"git apply {d}/patch.diff", WORK)
    if a.returncode: return f"NO APPLY {a.stdout}"
    b = sh("cargo build --workspace --offline && cargo test --workspace --no-run --offline && cargo check --workspace --all-features --offline", WORK)
    if b.returncode: return f"NO BUILD {b.stdout[-2500:]}"
    t = sh("cargo test --workspace --no-fail-fast --offline", WORK)
    ok = sum(l.endswith("... ok") for l in t.stdout.splitlines())
    bad = [l for l in t.stdout.splitlines() if l.endswith("FAILED") and l.startswith("test ")]
    if bad or t.returncode: return f"TESTS FAIL {bad} {t.stdout[-800:] if not bad else ''}"
    r1 = sh(f"bash {demo}/demo.sh", WORK, 300)
    sh("git checkout -q -f -- .", WORK)
    if r1.returncode == 0: return "DEMO PASSES WITH PATCH"
    if "does not build" in r1.stdout: return "ok (demo does not build with the patch) " + r1.stdout[-300:]
    return f"ok ({ok} tests; demo: {r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else r1.returncode})"

CW = Path("/tmp/catchwork")
def catch(s, w=0, tier="quick"):
    """Runs the property's check in a mount namespace of its own, where /repo and /verif are copies."""
    d = OUT / s["id"]
    prop = s["prop"]
    base = CW / str(w)
    base.mkdir(parents=True, exist_ok=True)
    sh(f"rsync -a --delete --exclude /target /repo {base}/ && rsync -a --delete --exclude /verif/.git --exclude /verif/build --exclude /verif/replays /verif {base}/ && mkdir -p {base}/verif/build", "/")
    if not (base / "verif/build/target").exists(): sh(f"cp -a /verif/build {base}/verif/", "/")
    script = f"mount --bind {base}/repo /repo && mount --bind {base}/verif /verif && cd /repo && git checkout -q -f -- . && git apply /verif/seeded/{s['id']}/patch.diff && cd /verif && VERIF_SEED={os.environ.get('VERIF_SEED', '1')} timeout 1500 ./check.sh {prop} {tier}"
    r = subprocess.run(["unshare", "-m", "sh", "-c", script], cwd="/", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    last = [l for l in r.stdout.splitlines() if l.startswith("[")]
    return ("CAUGHT" if r.returncode == 1 and v and f"property={prop} " in v[0] else f"MISSED rc={r.returncode}") + "  " + (last[-1][:160] if last else r.stdout[-300:])

args = sys.argv[1:]
mode = "confirm"
if args and args[0] == "--catch": mode, args = "catch", args[1:]
ids = [i for i in SEEDS if not args or any(i == a or i.startswith(a) for a in args)]
if mode == "catch":
    import queue, threading
    q = queue.Queue()
    for i in ids: q.put(i)
    def work(w):
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            print(i, SEEDS[i]["prop"], catch(SEEDS[i], w), flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(min(int(os.environ.get("JOBS", "3")), len(ids)))]
    for t in ts: t.start()
    for t in ts: t.join()
else:
    for i in ids:
        write(SEEDS[i])
        print(i, SEEDS[i]["prop"], confirm(SEEDS[i]), flush=True)
