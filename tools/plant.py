#!/usr/bin/env python3
"""Plants a bug: tools/plant.py <id> ... builds seeded/<id>/ from tools/planted.py and validates it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from planted import BUGS

DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
cd /repo 2>/dev/null || true
SRCS="%s"
pids=()
for s in "$d/demo.cpp" $SRCS; do
  case $s in /*) f=$s;; *) f=src/$s;; esac
  g++ -std=c++20 -w -O0 -include algorithm -include cstring -Isrc -I/usr/include/poppler %s -c "$f" -o "$t/$(echo "$s" | tr '/+' '__').o" & pids+=($!)
done
ok=1
for p in "${pids[@]}"; do wait $p || ok=0; done
[ $ok = 1 ] || { echo "does not compile"; exit 0; }
g++ -o "$t/demo" "$t"/*.o %s || { echo "does not link"; exit 0; }
cd "$t" && timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def plant(bid, run_check=True):
    b = BUGS[bid]
    d = f"{HERE}/seeded/{bid}"
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        sh(f"cp -a /repo {w}/repo")
        r = f"{w}/repo"
        for f, old, new in b["edits"]:
            s = open(f"{r}/{f}").read()
            if s.count(old) != 1:
                return f"{bid}: {s.count(old)} matches in {f} for {old[:60]!r}"
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        diff = sh(f"git -C {r} diff").stdout
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.cpp", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO % (" ".join(b["srcs"]), b.get("flags", ""), b.get("libs", "")))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        if b.get("stub"):
            shutil.copytree(f"{HERE}/stubs/cppflow", f"{d}/cppflow", dirs_exist_ok=True)
        # the demo in the clean and in the patched tree (the copy stands in for /repo)
        s = open(f"{d}/demo.sh").read().replace("cd /repo 2>/dev/null || true", "")
        shutil.copytree(d, f"{w}/demo", dirs_exist_ok=True)
        open(f"{w}/demo/demo.sh", "w").write(s)
        a = sh(f"cd /repo && bash {w}/demo/demo.sh")
        p = sh(f"cd {r} && bash {w}/demo/demo.sh")
        res = f"{bid} [{b['property']}]: demo clean {a.returncode} patched {p.returncode}"
        if a.returncode or not p.returncode:
            res += f"  BAD DEMO clean: {a.stdout[-500:]} patched: {p.stdout[-500:]}"
        # do the stable tests still pass? (build.sh works on /repo, so the patch is applied there for the moment of the test)
        if os.environ.get("PLANT_TESTS", "1") == "1":
            x = sh(f"git -C /repo apply {d}/patch.diff && bash /opt/vp/build.sh; bash /opt/vp/test.sh {w}/t.json; git -C /repo checkout -q -- .")
            t = json.load(open(f"{w}/t.json"))
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(t["passed"])
            res += f" tests lost: {sorted(miss)}" if miss else " tests ok"
        if run_check:
            t0 = time.time()
            e = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=f"{w}/ev")
            c = sh(f"cd {HERE} && python3 check.py {b['property']}", env=e)
            ok = c.returncode == 1 and f"VIOLATION property={b['property']}" in c.stdout
            res += f" check: {'CAUGHT' if ok else 'MISSED rc %d: %s' % (c.returncode, c.stdout[-600:])} {time.time() - t0:.0f}s"
            res += "  <" + next((l.strip()[:150] for l in c.stdout.splitlines() if l.startswith("  ")), "") + ">"
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    for b in sys.argv[1:] or sorted(b for b in BUGS if not BUGS[b].get("skip")):
        print(plant(b), flush=True)
    if os.path.exists("/repo/.git"):
        sh("bash /opt/vp/build.sh")
