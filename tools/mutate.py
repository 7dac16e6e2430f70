#!/usr/bin/env python3
"""Mutation sampling: changes single original lines of the library in a scratch copy and looks
which checks notice. Not part of any check.

mutate.py WORKER SEED COUNT LOG [FILE-REGEX]
"""
import json, os, random, re, subprocess, sys, time

worker, seed, count, log = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
only = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
W = f"/tmp/mut/{worker}"
BASE = "c51e6c4"
os.makedirs(f"{W}/verif", exist_ok=True)
os.makedirs(f"{W}/repo", exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f"rsync -a --delete --exclude .git --exclude target /repo/ {W}/repo/")
if not os.path.isdir(f"{W}/repo/target"):
    sh(f"rsync -a /repo/target {W}/repo/")
sh(f"rsync -a --exclude .git --exclude seeded --exclude evidence --exclude replays --exclude harness/target /verif/ {W}/verif/")
if not os.path.isdir(f"{W}/verif/harness/target"):
    sh(f"rsync -a /verif/harness/target {W}/verif/harness/")
BINS = sorted(f[:-3] for f in os.listdir("/verif/harness/src/bin"))

OPS = [
    (r" <= ", [" < "]), (r" < ", [" <= "]), (r" >= ", [" > "]), (r" > ", [" >= ", " < "]),
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
    (r" \+= ", [" -= "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"T::one\(\)", ["T::zero()"]), (r"T::zero\(\)", ["T::one()"]),
    (r"\.0\b", [".1"]), (r"\.1\b", [".0"]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]),
    (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r" \+ 1\b", [" + 2"]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\bif (?!let)(.+) \{$", [r"if !(\1) {"]),
    (r"UVDirection::U\b", ["UVDirection::V"]), (r"UVDirection::V\b", ["UVDirection::U"]),
    (r"\.rev\(\)", [""]), (r"\bu_", ["v_"]), (r"\bv_", ["u_"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]),
    (r"\.sin\(\)", [".cos()"]), (r"\.cos\(\)", [".sin()"]), (r"\.abs\(\)", [""]), (r"-(?=[a-z(])", [""]),
    (r"\b0\.\.=", ["0.."]), (r"(?<=[a-z0-9)])\.\.(?=[a-z(])", ["..="]), (r"\.\.=", [".."]),
    (r"\b0\b", ["1"]), (r"\b2\b", ["3"]), (r"\b1\b", ["0"]),
    (r"^(\s+)(?!let|return|use|pub|fn|\}|//)([a-z_.\[\]]+(?:\.[a-z_]+\(.*\)|\s[+*/-]?= .*);)$", [r"\1// \2"]),
    (r"\.filter\(", [".skip_while("]), (r"break;", ["continue;"]), (r"continue;", ["break;"]),
    (r"Some\(true\)", ["None"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\.normalize\(\)", [".clone()"]), (r"\bdegree\b", ["(degree + 1)"]), (r"\.is_none\(\)", [".is_some()"]),
]


def candidates():
    out = []
    files = sh("git -C /repo ls-files src").stdout.split()
    for f in files:
        if f.endswith("tests.rs") or f.endswith("lib.rs") or "/tests/" in f or (only and not only.search(f)):
            continue
        blame = sh(f"git -C /repo blame -s {f}").stdout.split("\n")
        lines = open(f"/repo/{f}").read().split("\n")
        cs, serde, depth = [], False, 0
        for i, l in enumerate(lines):
            if re.match(r"\s*#\[cfg\(test\)\]", l):
                break
            t = l.strip()
            if t.startswith(("//", "#", "use ", "pub use", "where", "impl", "pub fn", "fn ", "pub struct", "let o =", "println", "anyhow!", '"')) or not t:
                continue
            if i >= len(blame) or not blame[i].startswith("^"):
                continue
            code = l.split("//")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        n = code[: m.start()] + m.expand(r) + code[m.end():]
                        if n != code:
                            cs.append((f, i, l, n))
        if cs:
            out.append((f, len(lines), cs))
    return out


def checks(scale, bins):
    for b in bins:
        env = dict(os.environ, VERIF_DIR=f"{W}/out", VERIF_SCALE=str(scale), VERIF_SEED="1")
        try:
            r = subprocess.run([f"{W}/verif/harness/target/release/{b}"], capture_output=True, text=True, timeout=200, env=env)
        except subprocess.TimeoutExpired:
            return f"{b}:timeout"
        if r.returncode == 1:
            m = re.search(r"law (\S+) case \d+: ([^:]*)", r.stdout)
            return f"{b}:{m.group(1)}:{m.group(2)}" if m else b
        if r.returncode:
            return f"{b}:rc{r.returncode}"
    return None


def main():
    rnd = random.Random(seed)
    cand = candidates()
    weights = [c[1] ** 0.6 for c in cand]
    os.makedirs(f"{W}/out/evidence", exist_ok=True)
    os.makedirs(f"{W}/out/replays", exist_ok=True)
    sh(f"cp /verif/known_findings.jsonl {W}/out/")
    stable = json.load(open("/opt/vp/BASELINE.json"))
    done = 0
    last = {}
    while done < count:
        f, _, cs = rnd.choices(cand, weights)[0]
        f, i, old, new = rnd.choice(cs)
        p = f"{W}/repo/{f}"
        src = open(f"/repo/{f}").read()
        lines = src.split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        t0 = time.time()
        b = sh("cargo build --release --offline --bins -j 5", cwd=f"{W}/verif/harness")
        if b.returncode:
            open(p, "w").write(src)
            continue
        done += 1
        order = sorted(BINS, key=lambda x: (x != last.get(f), x))
        k = checks(0.15, order)
        res = f"killed {k}"
        if k:
            last[f] = k.split(":")[0]
        else:
            env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=f"{W}/repo/target")
            try:
                subprocess.run(f"cargo test --workspace --features serde,log --no-fail-fast --offline -- --test-threads 4 >{W}/test.log 2>&1", shell=True, cwd=f"{W}/repo", env=env, timeout=600)
                sh(f"python3 /opt/vp/results.py {W}/o.json cargo:{W}/test.log")
                o = json.load(open(f"{W}/o.json"))
            except Exception as e:
                o = {}
            def ok(d):
                for k in ("passed", "stable", "pass", "tests"):
                    if isinstance(d, dict) and k in d:
                        return d[k]
                return d
            B, O = list(ok(stable)), ok(o)
            O = [k for k, v in O.items() if v in ("pass", "passed", True)] if isinstance(O, dict) else O
            miss = [x for x in B if x not in O]
            if miss:
                res = f"tests {len(miss)}"
            else:
                k = checks(1, order)
                res = f"killed-full {k}" if k else "SURVIVED"
        open(p, "w").write(src)
        with open(log, "a") as h:
            h.write(f"{res}\t{f}:{i+1}\t{old.strip()}\t=>\t{new.strip()}\t{time.time()-t0:.0f}s\n")


main()
