#!/usr/bin/env python3
"""Mechanical mutants of /repo, run through its tests and then through the checks.
mutants.py list            prints the mutants
mutants.py run OUT [K N]   runs every N-th, starting at K; appends one JSON line each to OUT
Works in copies (/tmp/mutw-*) that stand for /repo and /verif in mount namespaces."""
import concurrent.futures as cf, json, os, queue, re, shutil, subprocess, sys, hashlib

FILES = ["src/path.rs"] + ["src/yaml/" + f for f in
         "aliased array_data deserializer document hash_data hash_element insert mod parser serializer string types".split()]
FILES = [f if f.endswith(".rs") else f + ".rs" for f in FILES]
FIRST = {"src/path.rs": "C11 C12", "src/yaml/deserializer.rs": "C10 C07 C09", "src/yaml/serializer.rs": "C19 C07 C08",
         "src/yaml/string.rs": "C18 C03", "src/yaml/parser.rs": "C02 C03 C01", "src/yaml/insert.rs": "C14 C15 C13",
         "src/yaml/mod.rs": "C05 C06 C13 C16", "src/yaml/types.rs": "C03"}
ALL = [f"C{n:02}" for n in range(1, 21)]
CASES = "60000"

OPS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " >= "]), (r" > ", [" >= ", " <= "]),
    (r" <= ", [" < "]), (r" >= ", [" > "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" = "]),
    (r"(?<![\w!])!(?=[\w(])(?!\[)", [""]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.is_empty\(\)", [".len() == 1"]),
    (r"\.rev\(\)", [""]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]),
    (r"\.trim_end_matches\(", [".trim_start_matches("]), (r"\.trim_end\(\)", ["", ".trim()"]), (r"\.trim\(\)", [""]),
    (r"\.starts_with\(", [".ends_with(", ".contains("]), (r"\.ends_with\(", [".starts_with(", ".contains("]),
    (r"\.contains\(", [".starts_with(", ".ends_with("]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\bSome\((\w+)\) => [^,{]+,", None), (r"\bKeep\b", ["Clip"]), (r"\bClip\b", ["Keep", "Strip"]), (r"\bStrip\b", ["Clip"]),
    (r"\.unwrap_or\(", [".unwrap_or_default_not("]), (r"\.clone\(\)\.alias", None), (r"\balias: (self|e|element|v|x)\.alias\b", ["alias: None"]),
    (r"\.find\(", [".rev().find("]), (r"\.position\(", [".rposition("]), (r"\.filter\(", [".skip_while("]),
    (r"\.to_lowercase\(\)", [""]), (r"\bi64\b", ["i32"]), (r"\bu64\b", ["i64"]), (r"\bf64\b", ["f32"]), (r"\bu128\b", ["u64"]), (r"\bi128\b", ["i64"]),
    (r"'[^'\\]' \| ", [""]), (r" \| '[^'\\]'", [""]), (r'"\w+" \| ', [""]), (r' \| "\w+"', [""]),
    (r"HashData::InlineComment\(", ["HashData::Comment("]), (r"HashData::Comment\(", ["HashData::InlineComment("]),
    (r"ArrayData::InlineComment\(", ["ArrayData::Comment("]), (r"ArrayData::Comment\(", ["ArrayData::InlineComment("]),
    (r"Yaml::InlineArray\(", ["Yaml::Array("]), (r"\.is_err\(\)", [".is_ok()"]), (r"\.is_ok\(\)", [".is_err()"]),
    (r"\.insert\(0, ", [".push("]), (r"\.extend\(", [".splice(0..0, "]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
]
INT = re.compile(r"(?<![\w.'\"])(\d+)(?![\w.'\"])")

def mutants(root="/repo"):
    out = []
    for f in FILES:
        lines = open(f"{root}/{f}").read().split("\n")
        for i, l in enumerate(lines):
            if re.match(r"\s*#\[cfg\(test\)\]|^mod tests", l):
                break
            code = l.split("//")[0]
            s = code.strip()
            if not s or s.startswith(("use ", "#[", "pub mod", "impl", "pub struct", "struct", "pub enum", "pub trait")):
                continue
            cand = []
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps or []:
                        cand.append(code[:m.start()] + r + code[m.end():])
            for m in INT.finditer(code):
                n = int(m[1])
                for k in {n + 1, max(n - 1, 0)} - {n}:
                    cand.append(code[:m.start()] + str(k) + code[m.end():])
            # a statement removed
            if s.endswith(";") and not s.startswith(("let ", "}", ")", "return", "break", "continue", ".", "type ", "const ", "static ")):
                cand.append("")
            # a call in a chain or a match arm removed
            if re.match(r"\.\w+.*\)$", s) and s.count("(") == s.count(")") and not s.startswith((".collect", ".iter", ".into_iter")):
                cand.append("")
            if re.match(r"[^=]+ => .*,$", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                cand.append("")
            m = re.match(r"(\s*)(\} else )?if (?!let)(.+) \{$", code)
            if m:
                for v in ("true", "false"):
                    cand.append(f"{m[1]}{m[2] or ''}if {v} || false {{" if v == "true" else f"{m[1]}{m[2] or ''}if false && ({m[3]}) {{")
            m = re.search(r" if ([^{}]+) => ", code)
            if m:
                cand.append(code[:m.start()] + " if true => " + code[m.end():])
                cand.append(code[:m.start()] + " if false => " + code[m.end():])
            for c in dict.fromkeys(cand):
                if c != code:
                    out.append((f, i, c))
    return out

def sh(c, cwd="/", timeout=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

ENV = "export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 INSTA_UPDATE=no; "

def one(m, t):
    f, i, c = m
    w = f"/tmp/mutw-{t}"
    p = f"{w}/repo/{f}"
    src = open(p).read()
    lines = src.split("\n")
    old = lines[i]
    lines[i] = c
    open(p, "w").write("\n".join(lines))
    r = dict(file=f, line=i + 1, old=old.strip(), new=c.strip())
    def ns(cmd, to):
        return sh(f"timeout {to} unshare -Urm bash -c 'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && {ENV} {cmd}'", timeout=to + 30)
    try:
        rc, o = ns("cd /repo && cargo test --workspace --all-features --offline -- --test-threads 4", 90)
        if "error: could not compile" in o or "error[E" in o:
            r["result"] = "no build"
            return r
        if rc:
            r["result"] = "tests"
            return r
        first = FIRST.get(f, "C13 C05").split()
        for q in first + [q for q in ALL if q not in first]:
            rc, o = ns(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh {q} {CASES}", 600)
            if rc == 1:
                r["result"] = q
                return r
            if rc not in (0, 1):
                r.setdefault("odd", []).append(f"{q}:{rc}:{o[-200:]}")
        r["result"] = "SURVIVED"
        return r
    finally:
        open(p, "w").write(src)

if __name__ == "__main__":
    ms = mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(m)
        print(len(ms))
        sys.exit()
    out = sys.argv[2]
    k, n = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = [m for j, m in enumerate(ms) if j % n == k and (m[0], m[1] + 1, m[2].strip()) not in done]
    W = int(os.environ.get("W", "4"))
    tags = queue.Queue()
    for t in range(W):
        w = f"/tmp/mutw-{t}"
        os.makedirs(w, exist_ok=True)
        sh(f"rsync -a --delete /repo/ {w}/repo/")
        sh(f"rsync -a --delete --exclude seeded --exclude .git --exclude replays /verif/ {w}/verif/")
        tags.put(t)
    def go(m):
        t = tags.get()
        try:
            return one(m, t)
        finally:
            tags.put(t)
    with cf.ThreadPoolExecutor(W) as ex, open(out, "a") as fo:
        for f in cf.as_completed([ex.submit(go, m) for m in todo]):
            r = f.result()
            fo.write(json.dumps(r) + "\n")
            fo.flush()
