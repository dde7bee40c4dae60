#!/usr/bin/env python3
"""Measures the checks: small mechanical changes to /repo's sources, each run against the checks of its crate.

  mutate.py --list [CRATE...]         show the changes
  mutate.py OUT.jsonl [CRATE...]      run them (JOBS workers, each in a mount namespace with copies of /repo and /verif)

Not part of any check; /repo and /verif are not written to.
"""
import difflib, json, os, queue, re, subprocess, sys, threading
from pathlib import Path

REPO = Path("/repo")
PROPS = {
    "topo-sort": ["C01", "C02"], "chain-map": ["C03", "C36", "C38"], "apply-changes": ["C04"], "text-pos": ["C05", "C06", "C07", "C04", "C25"],
    "event-parse": ["C08", "C09", "C10", "C11", "C37"], "token": ["C08", "C09", "C10", "C11"], "pattern-match": ["C12", "C13", "C14", "C34", "C35"],
    "paths": ["C15", "C16", "C17", "C33"], "syntax-gen": ["C18", "C19", "C20"], "write-rs-tokens": ["C31"],
    "identifier-case": ["C21", "C18"], "code-h2-md-map": ["C22"], "str-process": ["C23", "C37"], "fmt-util": ["C24"], "diagnostic": ["C25"],
    "always": ["C26"], "char-name": ["C27"], "fast-hash": ["C28"], "idx": ["C29"], "uniq": ["C29"], "str-util": ["C30"],
    "elapsed": ["C32"], "text-size-util": ["C33"],
}
SUBS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" < ", " > "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" > ", " < "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif !", "if "), (r"\b!(?=[a-z])", ""), (r"\(!(?=[a-z(])", "("),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
    (r"\.is_some_and\(", ".is_none_or("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.rev\(\)", ""), (r"\.skip\(\w+\)", ""), (r"\.take\(\w+\)", ""),
    (r"\bstarts_with\b", "ends_with"), (r"\bends_with\b", "starts_with"), (r"\bstrip_prefix\b", "strip_suffix"), (r"\bstrip_suffix\b", "strip_prefix"),
    (r"_uppercase\b", "_lowercase"), (r"_lowercase\b", "_uppercase"), (r"\bLess\b", "Greater"), (r"\bGreater\b", "Less"), (r"\.unwrap_or_default\(\)", ".unwrap()"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\bu32::MAX\b", "0"), (r"\busize::MAX\b", "0"), (r"\.\.=", ".."), (r"(?<=[\w)])\.\.(?=[\w(])", "..="),
    (r"\.pop\(\)", ".pop().and(None)"), (r"\bSome\(([a-z_]\w*)\)(?=[,;\s)}])", "None"), (r"\bOk\(\)", "Err(Default::default())"), (r"\?;", ".ok();"),
    (r"\.clone\(\)\.into_iter\(\)\.rev\(\)", ".clone().into_iter()"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\.or_default\(\)", ".or_default().clone()"),
    (r"\bassert!\(", "debug_assert!("), (r"\bassert!\((.*)\);", ""), (r"\.filter\(", ".take_while("), (r"\.filter_map\(", ".map_while("), (r"\.trim_start\b", ".trim"),
    (r"\bchars\(\)", "chars().rev()"), (r"\.lines\(\)", ".split('\\\\n')"), (r"\.max_by", ".min_by"), (r"\.len_utf8\(\)", ".len_utf16()"), (r"\.len_utf16\(\)", ".len_utf8()"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"\.is_empty\(\)", ".len() <= 1"), (r"\.entry\(", ".entry_broken("), (r"\.extend\((.*)\);", ""), (r"\.insert\(0, ", ".push("),
    (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.len\(\)", ".len() + 1"), (r"\.push\(", ".insert(0, "), (r"\bmatches!\(", "!matches!("), (r"\.get\(([\w.]+)\)", r".get(\1 + 1)"),
    (r"\.sort_unstable\(\)", ".reverse()"), (r"\.sort_unstable\(\);", ".len();"), (r"\.cmp\(", ".cmp(&"), (r"\bReverse\(([^()]*)\)", r"(\1)"), (r"\.contains\(", ".is_empty_broken("),
]

def code_lines(text):
    """Indices of lines with code in them, before any test module."""
    depth_doc = False
    for i, l in enumerate(text.splitlines()):
        s = l.strip()
        if re.match(r"mod \w+ \{", s) and "test" in s: return
        if s.startswith("mod "): continue
        if not s or s.startswith(("//", "use ", "pub use", "#[", "#![", "extern ")): continue
        yield i, l

def mutants(file):
    text = file.read_text()
    lines = text.splitlines(True)
    out = []
    def add(i, new, what):
        if new != lines[i]: out.append((i, lines[:i] + [new] + lines[i + 1:], what))
    for i, l in code_lines(text):
        raw = lines[i]
        for pat, to in SUBS:
            for m in re.finditer(pat, raw):
                # generics and signatures
                if pat.strip() in ("<", ">") and ("fn " in raw or "impl" in raw): continue
                new = raw[:m.start()] + m.expand(to) + raw[m.end():]
                add(i, new, f"{m.group(0).strip()} -> {to.strip()}")
        s = l.strip()
        if s.endswith(";") and not s.startswith(("let ", "pub ", "type ", "const ", "static ", "fn ", "}")):
            add(i, "\n", "delete statement")
        if s.startswith("let _") or re.match(r"(return|break|continue)\b.*;", s): add(i, "\n", "delete jump")
        m = re.match(r"(\s*(?:\} else )?if )(?!let )(.*)( \{\s*)$", raw)
        if m and " let " not in raw:
            add(i, f"{m[1]}({m[2]}) && false{m[3]}", "if false"); add(i, f"{m[1]}({m[2]}) || true{m[3]}", "if true")
        m = re.match(r"(\s*while )(?!let )(.*)( \{\s*)$", raw)
        if m: add(i, f"{m[1]}({m[2]}) && false{m[3]}", "while false")
        for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', raw):
            if "expect(" in raw or "panic!" in raw or "unreachable!" in raw or "DropBomb" in raw: continue
            add(i, raw[:m.end() - 1] + "X" + raw[m.end() - 1:], "string")
        # match arms: each answer taken from the next line
        if i + 1 < len(lines):
            a = re.match(r"^(\s*)(.+?) => ([^{}]+),\n$", raw); b = re.match(r"^(\s*)(.+?) => ([^{}]+),\n$", lines[i + 1])
            if a and b and a[3] != b[3]: add(i, f"{a[1]}{a[2]} => {b[3]},\n", "arm of the next line")
    # adjacent statements swapped
    idx = [i for i, l in code_lines(text) if l.strip().endswith(";") and not l.strip().startswith(("let ", "type ", "const ", "use "))]
    for i in idx:
        if i + 1 in idx:
            new = lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2:]
            out.append((i, new, "swap with next"))
    seen = set()
    for i, new, what in out:
        t = "".join(new)
        if t in seen: continue
        seen.add(t)
        yield i + 1, t, what

def all_mutants(crates):
    for c in crates:
        for f in sorted((REPO / "crates" / c / "src").rglob("*.rs")):
            if f.name == "tests.rs": continue
            for line, t, what in mutants(f):
                yield c, f.relative_to(REPO), line, t, what

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
BASE = Path("/tmp/mutwork")

def sh(cmd, timeout=3000):
    return subprocess.run(cmd, cwd="/", shell=isinstance(cmd, str), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)

def prepare(w):
    b = BASE / str(w)
    b.mkdir(parents=True, exist_ok=True)
    sh(f"rsync -a --delete /repo {b}/ && rsync -a --delete --exclude /verif/.git --exclude /verif/seeded --exclude /verif/replays --exclude /verif/build /verif {b}/ && mkdir -p {b}/verif/build")
    if not (b / "verif/build/target").exists(): sh(f"cp -a /verif/build {b}/verif/")
    # fewer cases, to get through
    check = b / "verif/tools/check.py"
    check.write_text(check.read_text().replace('"--scale", scale,', f'"--scale", max(1, scale * {os.environ.get("SCALE", "100")} // 100),'))
    return b

def inside(b, script):
    return sh(["unshare", "-m", "sh", "-c", f"mount --bind {b}/repo /repo && mount --bind {b}/verif /verif && {script}"])

def run(w, item):
    c, f, line, t, what = item
    b = BASE / str(w)
    path = b / f.parent if False else b / "repo" / f
    old = path.read_text()
    rec = {"crate": c, "file": str(f), "line": line, "what": what, "diff": "".join(difflib.unified_diff(old.splitlines(True), t.splitlines(True), n=0)).split("\n", 3)[-1]}
    path.write_text(t)
    try:
        r = inside(b, f"cd /repo && cargo check -q --offline -p {c}")
        if r.returncode: return {**rec, "result": "no build"}
        r = inside(b, f"cd /repo && timeout 120 cargo test -q --offline -p {c} -p topo-sort -p text-pos")
        rec["tests"] = "fail" if r.returncode else "pass"
        for p in PROPS[c]:
            r = inside(b, f"cd /verif && VERIF_SEED={os.environ.get('VERIF_SEED', '1')} timeout 880 ./check.sh {p} quick")
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout: return {**rec, "result": "caught", "by": p}
            if r.returncode: return {**rec, "result": f"error {r.returncode}", "by": p, "out": r.stdout[-500:]}
        return {**rec, "result": "missed"}
    finally:
        path.write_text(old)

def main():
    args = sys.argv[1:]
    if args[0] == "--list":
        for c, f, line, _, what in all_mutants(args[1:] or PROPS): print(f"{f}:{line} {what}")
        return
    out = Path(args[0])
    items = list(all_mutants(args[1:] or PROPS))
    done = set()
    if out.exists():
        for l in out.read_text().splitlines():
            d = json.loads(l); done.add((d["file"], d["line"], d["what"], d["diff"]))
    q = queue.Queue()
    for it in items: q.put(it)
    lock = threading.Lock()
    def work(w):
        prepare(w)
        while True:
            try: it = q.get_nowait()
            except queue.Empty: return
            old = (REPO / it[1]).read_text()
            diff = "".join(difflib.unified_diff(old.splitlines(True), it[3].splitlines(True), n=0)).split("\n", 3)[-1]
            if (str(it[1]), it[2], it[4], diff) in done: continue
            try: r = run(w, it)
            except subprocess.TimeoutExpired: r = {"crate": it[0], "file": str(it[1]), "line": it[2], "what": it[4], "diff": diff, "result": "timeout"}
            with lock, out.open("a") as h: h.write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(int(os.environ.get("JOBS", "4")))]
    for t in ts: t.start()
    for t in ts: t.join()

if __name__ == "__main__":
    main()
