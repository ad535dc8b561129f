#!/usr/bin/env python3
"""Mutation testing of the checks: tools/mutate.py <seed> <lines per mutant> <log> [file substring ...]
Mutates single lines of a scratch copy of /repo's sources and runs the checks whose properties are anchored in the
mutated function (or file). Survivors that still pass the stable tests are listed in the log for inspection."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/tools")
PROPS = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
SWAPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-])<(?![<=])(?= )", "<="), (r"(?<=[ ])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"leftX", "rightX"), (r"rightX", "leftX"), (r"upperY", "lowerY"), (r"lowerY", "upperY"), (r"LeftX", "RightX"), (r"RightX", "LeftX"), (r"UpperY", "LowerY"), (r"LowerY", "UpperY"),
         (r"\bminimum\(", "maximum("), (r"\bmaximum\(", "minimum("), (r"Horizontal", "Vertical"), (r"XOverlap", "YOverlap"), (r"YOverlap", "XOverlap"), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"),
         (r"\bprev", "curr"), (r"\bnext", "curr"), (r"\bsmaller\(", "larger("), (r"\blarger\(", "smaller("), (r"(?<![\w.])0(?![\w.x])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])[2-9](?![\w.])", "1"), (r"(?<=if \()(?!!)", "!"), (r"(?<=[(&| ])!(?=\w)", ""), (r"(\d+\.\d+)", r"2 * \1"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;")]


def sh(c, t=900, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "timeout")


def code_lines(path):
    """(line number, name of the function) of the lines of code worth mutating"""
    out, fn, skip = [], "", False
    for i, l in enumerate(open(path).read().split("\n")):
        m = re.match(r"^[A-Za-z].*?([\w~]+)\(", l)
        if m and not l.startswith(("using", "#", "namespace", "return")):
            fn = m[1]
        s = l.strip()
        if skip:
            skip = not s.endswith(";"); continue
        if "_log->" in s or s.startswith("<<"):
            skip = not s.endswith(";"); continue
        if not l.startswith("  ") or not s or s.startswith(("//", "*", "/*", "#", "assert", "}", "using", "<<", "case", "default")) and not s.startswith("} else if"):
            continue
        if fn.startswith("~") or "delete " in s or "Logger(" in s:
            continue
        out.append((i, fn))
    return out


def mutants(line):
    code = line.split("  //")[0]
    res = []
    for pat, rep in SWAPS:
        for m in re.finditer(pat, code):
            if code[:m.start()].count('"') % 2:
                continue
            new = code[:m.start()] + re.sub(pat, rep, m[0]) if pat not in (r"(?<=if \()(?!!)",) and "(?" not in pat else code[:m.start()] + (rep if "\\1" not in rep else "2 * " + m[0])
            new += code[m.end():]
            if new != code:
                res.append(new)
    if re.match(r"^\s+[\w\->.\[\]()]+ (\+|-)?= .*;$", code) or re.match(r"^\s+[\w\->.]+\(.*\);$", code) or re.match(r"^\s+(continue|return|break);$", code) or re.match(r"^\s+if \(.*\) \{ (continue|return|break).*\}$", code) or re.match(r"^\s+[\w\->.]+(\+\+|--);$", code):
        res.append("")
    return res


def checks_for(f, fn):
    a, b = [], []
    for p in PROPS:
        m = [x["name"] for x in p["anchors"]["mechanism"] if x["where"] == f"src/{f}"]
        if any(fn in re.findall(r"[\w~]+", n) for n in m):
            a.append(p["id"])
        elif m or f"src/{f}" in p["anchors"]["files"]:
            b.append(p["id"])
    return a + [x for x in b if x < "C40"]


def main():
    seed, per, log = int(sys.argv[1]), float(sys.argv[2]), sys.argv[3]
    only = sys.argv[4:]
    rnd = random.Random(seed)
    w = tempfile.mkdtemp(prefix="mutate_")
    r = w + "/repo"
    sh(f"cp -a /repo {r}")
    sh(f"sed 's,/repo,{r},g' /opt/vp/build.sh > {w}/build.sh; sed 's,/repo,{r},g; s,/opt/vp/build.sh,{w}/build.sh,' /opt/vp/test.sh > {w}/test.sh")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    os.makedirs(w + "/cache")
    todo = []
    for f in sorted(sh(f"cd {r}/src && find . -name '*.cpp' | cut -c3-").stdout.split()):
        if only and not any(o in f for o in only):
            continue
        ls = [(i, fn, m) for i, fn in code_lines(f"{r}/src/{f}") for m in mutants(open(f"{r}/src/{f}").read().split("\n")[i])]
        n = max(1, round(len(code_lines(f"{r}/src/{f}")) / per))
        rnd.shuffle(ls)
        seen = set()
        for i, fn, m in ls:
            if len(seen) >= n:
                break
            if i not in seen:
                seen.add(i); todo.append((f, i, fn, m))
    rnd.shuffle(todo)
    out = open(log, "a")
    print(len(todo), "mutants", file=out, flush=True)
    try:
        for f, i, fn, m in todo:
            path = f"{r}/src/{f}"
            orig = open(path).read()
            lines = orig.split("\n")
            old = lines[i]
            lines[i] = m
            open(path, "w").write("\n".join(lines))
            t0 = time.time()
            try:
                c = sh(f"cd {r} && g++ -std=c++20 -w -fsyntax-only -include algorithm -include cstring -Isrc -I/usr/include/poppler -I{HERE}/stubs src/{f}")
                if c.returncode:
                    continue
                verdict = "SURVIVED"
                ids = checks_for(f, fn)
                for pid in ids:
                    c = sh(f"cd {HERE} && python3 check.py {pid}", env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=w + "/ev", VERIF_CACHE=w + "/cache", VERIF_FAST="1"))
                    if c.returncode == 1 and f"VIOLATION property={pid}" in c.stdout:
                        verdict = "caught by " + pid
                        break
                    if "NOT DECIDED" in c.stdout or "NOT exh" in c.stdout:
                        verdict = f"SURVIVED ({pid} not exhaustive)"
                if verdict.startswith("SURVIVED"):
                    sh(f"bash {w}/test.sh {w}/t.json", 300)
                    try:
                        miss = stable - set(json.load(open(w + "/t.json"))["passed"])
                    except Exception:
                        miss = stable
                    if miss:
                        verdict = "killed by tests; " + verdict
            finally:
                open(path, "w").write(orig)
            print(f"{verdict} | {f}:{i + 1} {fn} | {old.strip()[:140]} | {m.strip()[:140]} | {','.join(ids[:4])} {time.time() - t0:.0f}s", file=out, flush=True)
            if sum(os.path.getsize(f"{w}/cache/{x}") for x in os.listdir(w + "/cache")) > 6e9:
                for x in os.listdir(w + "/cache"):
                    os.unlink(f"{w}/cache/{x}")
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print("END", file=out, flush=True)


main()
