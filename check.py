#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current source.

  check.py <ID>              run the check of property <ID> (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --setup           build the engine (build/symx)
  check.py --replay <file>   rebuild the native harness and replay a recorded counterexample
Exit: 0 held on everything explored (parts without a verdict are named), 1 violated (VIOLATION line), 2 no engine.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
BUILD = HERE + "/build"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = max(2, min(8, os.cpu_count() or 8))
sys.path.insert(0, HERE)
from specs import SPECS, COMMON_NATIVE_LIBS  # noqa: E402

CLANG = ["clang++-18", "-std=c++20", "-O1", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
         "-fno-delete-null-pointer-checks", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-D__NO_INLINE__",
         "-DSYMBOLIC", "-w", "-g1", f"-I{HERE}/shadow", f"-I{HERE}/engine", f"-I{HERE}/stubs", f"-I{HERE}/harness",
         f"-I{SRC}", "-I/usr/include/poppler", "-include", "algorithm", "-include", "cstring", "-emit-llvm", "-c"]
GCC = ["g++", "-std=c++20", "-O0", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", f"-I{HERE}/engine",
       f"-I{HERE}/stubs", f"-I{HERE}/harness", f"-I{SRC}", "-I/usr/include/poppler", "-include", "algorithm",
       "-include", "cstring", "-c"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]


class Broken(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


def engine():
    """path of the engine binary, building it if it is missing or stale"""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(f"{HERE}/engine/symx.cpp", "rb").read() + open(f"{HERE}/engine/build_engine.sh", "rb").read()).hexdigest()[:16]
    exe = f"{BUILD}/symx-{h}"
    if not os.path.exists(exe):
        tmp = tempfile.mkdtemp(dir=BUILD)
        r = sh([f"{HERE}/engine/build_engine.sh", tmp], timeout=900)
        if r.returncode:
            raise Broken("engine build failed:\n" + r.stdout[-3000:])
        os.replace(f"{tmp}/symx", exe)
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


_deps = []


def compile_one(args):
    cmd, src, out = args
    cache = os.environ.get("VERIF_CACHE")  # only for tools/mutate.py: the registered commands compile everything
    if cache:
        if not _deps:
            h = hashlib.sha256()
            for d in (SRC, HERE + "/harness", HERE + "/engine", HERE + "/shadow", HERE + "/shadow_hash", HERE + "/stubs"):
                for p in sorted(glob.glob(d + "/**/*", recursive=True)):
                    if os.path.isfile(p) and not p.endswith((".cpp", ".o")):
                        h.update(open(p, "rb").read())
            _deps.append(h.hexdigest())
        key = f"{cache}/" + hashlib.sha256("|".join(cmd + [src, _deps[0]]).encode() + open(src, "rb").read()).hexdigest()
        if os.path.exists(key):
            shutil.copy(key, out)
            return (src, 0, "")
    r = sh(cmd + [src, "-o", out], timeout=400)
    if cache and r.returncode == 0:
        shutil.copy(out, f"{key}.{os.getpid()}.{threading.get_ident()}")
        os.replace(f"{key}.{os.getpid()}.{threading.get_ident()}", key)
    return (src, r.returncode, r.stdout)


def src_path(s):
    return s if s.startswith("/") else (f"{HERE}/{s[1:]}" if s.startswith("@") else f"{SRC}/{s}")


def all_srcs():
    skip = ("pdftotext++.cpp", "PdfDocumentVisualization.cpp", "PdfToTextPlusPlus.cpp")
    return [os.path.relpath(p, SRC) for p in sorted(glob.glob(f"{SRC}/**/*.cpp", recursive=True)) if not p.endswith(skip)]


def compile_many(pool, cmd, srcs, wd, ext):
    outs, futs = {}, []
    for s in srcs:
        o = f"{wd}/{re.sub('[^A-Za-z0-9]', '_', s)}.{ext}"
        outs[s] = o
        futs.append(pool.submit(compile_one, (cmd, src_path(s), o)))
    return outs, futs


def finish(futs, what):
    for f in futs:
        src, rc, txt = f.result()
        if rc:
            raise Broken(f"{what}: {src} does not compile:\n{txt[-3000:]}")


def undefined_ppp(llfile):
    r = sh(["llvm-nm-18", "--undefined-only", llfile])
    return [l.split()[-1] for l in r.stdout.splitlines() if "3ppp" in l]


def build(pool, harness, srcs, wd, shadow=""):
    """compiles harness + sources to one bitcode file; returns its path and the sources really linked"""
    srcs = list(srcs)
    base = [f"@harness/{harness}.cpp", "@engine/symlib.cpp", "@shadow/sym_streams.cpp"]
    sym_only = CLANG[:1] + ([f"-I{HERE}/{shadow}"] if shadow else []) + CLANG[1:]
    outs, futs = compile_many(pool, sym_only, base[:1] + srcs, wd, "bc")
    o2, f2 = compile_many(pool, [x for x in CLANG if x not in ("-include", "algorithm", "cstring")] + ["-fno-builtin"], base[1:], wd, "bc")
    finish(futs + f2, "symbolic build")
    outs.update(o2)
    bc = f"{wd}/all.bc"

    def link():
        r = sh(["llvm-link-18", "-o", bc] + list(outs.values()))
        if r.returncode:
            raise Broken("llvm-link failed:\n" + r.stdout[-3000:])
    link()
    missing = undefined_ppp(bc)
    if missing:  # code was moved to another file: pull in everything that defines a missing symbol
        rest = [s for s in all_srcs() if s not in srcs]
        o3, f3 = compile_many(pool, sym_only, rest, wd, "bc")
        for f in f3:
            f.result()
        progress = True
        while missing and progress:
            progress = False
            for s in rest:
                if s in outs or not os.path.exists(o3[s]):
                    continue
                d = sh(["llvm-nm-18", "--defined-only", o3[s]]).stdout
                defs = {l.split()[-1] for l in d.splitlines() if l.split()}
                if defs & set(missing):
                    outs[s] = o3[s]; srcs.append(s); progress = True
            link()
            missing = undefined_ppp(bc)
    return bc, srcs


def build_native(pool, harness, srcs, wd, flags, name, libs):
    base = [f"@harness/{harness}.cpp", "@engine/native_rt.cpp"]
    outs, futs = compile_many(pool, GCC + flags, base + list(srcs), wd, name + ".o")
    return outs, futs, flags, f"{wd}/{name}", libs


def link_native(nb):
    outs, futs, flags, exe, libs = nb
    finish(futs, "native build")
    r = sh(["g++"] + flags + ["-rdynamic", "-o", exe] + list(outs.values()) + ["-ldl"] + libs)
    if r.returncode:
        raise Broken("native link failed:\n" + r.stdout[-3000:])
    return exe


def write_inputs(path, inputs, head=""):
    with open(path, "w") as f:
        f.write(head)
        for t in inputs.split(";"):
            if t:
                f.write(t + "\n")


def run_native(exe, entry, f, params, timeout=20, wrap=()):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=42:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=43", LC_ALL="C")
    try:
        r = subprocess.run(list(wrap) + [exe, entry, f] + [str(p) for p in params], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, text=True, errors="replace", cwd=os.path.dirname(f))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def confirms(kind, msg, rc, out):
    if kind == "assert":
        return rc == 3 and ("ASSERT-FAILED: " + msg) in out
    if kind == "nontermination":
        return rc == "timeout"
    if kind == "recursion":
        return rc == 42 and "stack-overflow" in out or rc in (-11, "timeout")
    if kind == "exception":
        return rc == 6
    if kind in ("memory", "ub", "program-assert", "abort"):
        return rc in (42, 43, -6, -11, 6) or "runtime error" in out or "AddressSanitizer" in out or rc == "timeout"
    if kind == "uninit":
        return rc == 77
    return False


def load_known(pid):
    p = f"{HERE}/known_findings.jsonl"
    if not os.path.exists(p):
        return []
    return [k for k in (json.loads(l) for l in open(p) if l.strip()) if k.get("property") == pid and k.get("status") == "known"]


def match_known(known, entry, v):
    for k in known:
        s = k["signature"]
        if s.get("entry") in (None, entry) and s.get("kind") in (None, v["kind"]) and s["msg"] == v["msg"] and (not s.get("site") or s["site"] in v.get("stack", "")):
            return k
    return None


def check(pid):
    t_start = time.time()
    spec = SPECS[pid]
    exe = engine()
    wd = tempfile.mkdtemp(prefix=f"symx_{pid}_")
    ev_dir = os.environ.get("VERIF_EVIDENCE") or f"{HERE}/evidence"
    os.makedirs(ev_dir, exist_ok=True)
    rep_dir = f"{ev_dir}/replays"
    os.makedirs(rep_dir, exist_ok=True)
    for f in glob.glob(f"{rep_dir}/{pid}-*"):
        os.unlink(f)
    known = load_known(pid)
    tot = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, instr=0, forks=0, paths=0, completed=0, assume_end=0, unsupported=0, limits=0, asserts=0, asserts_proved=0, ambiguous=0, cut=0)
    maxq, fns, runs_out, violations, unconfirmed, found_known, samples_out = 0.0, set(), [], [], [], {}, []
    validated = mismatched = skipped_samples = 0
    reach_missing, harness_errors, linked, undecided = [], [], set(), []
    pool = cf.ThreadPoolExecutor(JOBS)
    groups = {}
    for r in spec["runs"]:
        if r.get("tier") and r["tier"] != TIER:
            continue
        groups.setdefault((r["harness"], tuple(r["srcs"]), r.get("shadow", "")), []).append(r)
    try:
        for gi, ((harness, srcs, shadow), runs) in enumerate(groups.items()):
            gwd = f"{wd}/g{gi}"
            os.makedirs(gwd)
            try:
                bc, srcs2 = build(pool, harness, srcs, gwd, shadow)
            except Broken as e:  # a source construct the encoder's library model lacks: say so, decide the rest
                undecided.append(f"{harness}: {str(e)[:1500]}")
                continue
            linked |= set(srcs2)
            libs = list(COMMON_NATIVE_LIBS) + spec.get("libs", [])
            nb = build_native(pool, harness, srcs2, gwd, SAN, "asan", libs)
            native = vg = None
            for ri, r in enumerate(runs):
                T = r.get("time_" + TIER, r.get("time", 60 if TIER == "quick" else 400))
                args = r.get("args_" + TIER, r.get("args", []))
                out = f"{gwd}/out{ri}"
                cmd = [exe, bc, "--entry", r["entry"], "--out", out, "--time", str(T), "--jobs", str(JOBS), "--samples", str(r.get("samples", 16)), "--seed", str(SEED), "--max-viol", str(r.get("max_viol", 6) + 3 * sum(k["signature"].get("entry") in (None, r["entry"]) for k in known))]
                if r.get("logic"):
                    cmd += ["--logic", r["logic"]]
                if r.get("max_instr"):
                    cmd += ["--max-instr", str(r["max_instr"])]
                if r.get("rlimit"):
                    cmd += ["--rlimit", str(r["rlimit"])]
                for a in args:
                    cmd += ["--arg", str(a)]
                t1 = time.time()
                try:
                    pr = sh(cmd, timeout=T * 3 + 120)
                except subprocess.TimeoutExpired:
                    pr = None
                rs = dict(harness=harness, entry=r["entry"], args=args, wall_s=round(time.time() - t1, 2), paths=0, queries=0, completed=0, unsupported=0, cut=0, limits=0, unknown=0)
                labels, why, viols, samples = {}, {}, [], []
                for f in sorted(glob.glob(out) + glob.glob(out + ".*")):
                    for line in open(f, errors="replace"):
                        try:
                            d = json.loads(line)
                        except ValueError:
                            continue
                        if d["t"] == "viol":
                            viols.append(d)
                        elif d["t"] == "sample":
                            samples.append(d)
                        else:
                            for k in tot:
                                tot[k] += d.get(k, 0)
                            for k in ("paths", "queries", "completed", "unsupported", "cut", "limits", "unknown"):
                                rs[k] += d[k]
                            maxq = max(maxq, d["max_query_s"])
                            fns |= set(d["fns"])
                            for k, v in d["labels"].items():
                                labels[k] = labels.get(k, 0) + v
                            for k, v in d["why"].items():
                                why[k] = why.get(k, 0) + v
                if pr is None or (pr.returncode not in (0, 1) and not viols):
                    harness_errors.append(f"{r['entry']}: engine " + ("timed out" if pr is None else f"exit {pr.returncode}: {pr.stdout[-400:]}"))
                rs["labels"], rs["inconclusive"] = labels, dict(sorted(why.items(), key=lambda x: -x[1])[:5])
                rs["exhaustive"] = not (rs["unsupported"] or rs["cut"] or rs["limits"] or rs["unknown"]) and pr is not None
                rs["bounds"] = r.get("bounds", "")
                runs_out.append(rs)
                for l in r.get("reach", []):
                    if l not in labels and not viols:
                        reach_missing.append(f"{r['entry']}: {l}")
                if native is None:
                    try:
                        native = link_native(nb)
                    except Broken as e:
                        undecided.append(f"{harness}: {str(e)[:1500]}")
                        break
                params = args
                if os.environ.get("VERIF_FAST"):  # only for tools/mutate.py: the first confirmed violation is enough
                    if violations:
                        break
                    samples = samples[:2]
                # --- replay violations
                for vi, v in enumerate(viols):
                    k = match_known(known, r["entry"], v)
                    path = f"{rep_dir}/{pid}-{len(violations) + len(unconfirmed)}-{r['entry']}.txt"
                    write_inputs(path, v["inputs"], f"# property {pid} harness {harness} entry {r['entry']} params {' '.join(map(str, params))}\n# {v['kind']}: {v['msg']}\n# at {v['stack'][:600]}\n# replay: python3 {HERE}/check.py --replay {path}\n")
                    if v["kind"] == "uninit":
                        if vg is None:
                            vg = link_native(build_native(pool, harness, srcs2, gwd, ["-DSYM_VALGRIND"], "plain", libs))
                        rc, txt = run_native(vg, r["entry"], path, params, 120, ("valgrind", "-q", "--error-exitcode=77", "--track-origins=no"))
                        if rc != 77 and "uninitialised" in txt:
                            rc = 77
                    else:
                        rc, txt = run_native(native, r["entry"], path, params)
                    ok = confirms(v["kind"], v["msg"], rc, txt)
                    item = dict(entry=r["entry"], kind=v["kind"], msg=v["msg"], stack=v["stack"][:400], replay=path, native_rc=rc, native=txt[-300:])
                    if not ok:
                        unconfirmed.append(item)
                    elif k:
                        found_known[k["id"]] = k
                    else:
                        violations.append(item)
                if os.environ.get("VERIF_FAST") and violations:
                    break
                # --- differential validation of the encoding on completed paths
                nat = []
                for si, s in enumerate(samples):
                    path = f"{gwd}/s{ri}_{si}.txt"
                    write_inputs(path, s["inputs"])
                    nat.append(pool.submit(run_native, native, r["entry"], path, params))
                for si, s in enumerate(samples):
                    rc, txt = nat[si].result()
                    m = re.search(r"^OBS (.*)$", txt, re.M)
                    lm = re.search(r"^LABELS (.*)$", txt, re.M)
                    if rc == 4 and "REPLAY-DIVERGED" in txt:
                        skipped_samples += 1  # a path the approximated rounding made possible
                        mismatched += 1
                        if len(samples_out) < 8:
                            samples_out.append(dict(entry=r["entry"], inputs=s["inputs"][:400], result="diverged"))
                        continue
                    if rc != 0 or not m:
                        mismatched += 1
                        samples_out.append(dict(entry=r["entry"], inputs=s["inputs"][:400], result=f"native rc {rc}: {txt[-200:]}"))
                        # a real failure of the real code on an input the solver chose: still a violation of the property
                        if rc in (3, 6, 42, 43, -6, -11):
                            p2 = f"{rep_dir}/{pid}-s{len(violations)}-{r['entry']}.txt"
                            write_inputs(p2, s["inputs"], f"# property {pid} harness {harness} entry {r['entry']} params {' '.join(map(str, params))}\n# native failure on a solver-chosen path\n")
                            msg = (re.search(r"ASSERT-FAILED: (.*)", txt) or [None, txt[-200:]])[1]
                            vv = dict(kind="assert" if rc == 3 else "memory", msg=msg, stack="")
                            k = match_known(known, r["entry"], vv)
                            if k:
                                found_known[k["id"]] = k
                            else:
                                violations.append(dict(entry=r["entry"], kind="native", msg=msg, stack="", replay=p2, native_rc=rc, native=txt[-300:]))
                        continue
                    a, b = s["obs"].split(), m.group(1).split()
                    same = len(a) == len(b) and all(x == "?" or x == y for x, y in zip(a, b)) and set(filter(None, s["labels"].split(","))) == set(filter(None, (lm.group(1) if lm else "").split(",")))
                    if same:
                        validated += 1
                        if len(samples_out) < 4 and s["inputs"]:
                            samples_out.append(dict(entry=r["entry"], inputs=s["inputs"][:400], obs=s["obs"][:200], labels=s["labels"], result="native run agrees"))
                    else:
                        mismatched += 1
                        samples_out.append(dict(entry=r["entry"], inputs=s["inputs"][:400], result=f"MISMATCH obs {s['obs'][:200]} labels {s['labels']} native {m.group(1)[:200]} labels {lm.group(1) if lm else ''}"))
            for nbf in nb[1]:
                nbf.result()
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(gwd, ignore_errors=True)
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    # the repository functions the engine really executed
    dem = sh(["c++filt"], input="\n".join(sorted(fns))).stdout.splitlines() if fns else []
    own = sorted({d for d in dem if "ppp::" in d.split("(")[0] and not d.startswith("std::")})
    exhaustive = all(r["exhaustive"] for r in runs_out) and not harness_errors and not undecided
    cov = dict(states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated, traces_mismatched=mismatched, samples=samples_out[:12] or [dict(note="no symbolic path completed")],
               symbolic_paths_completed=tot["completed"], paths_ended_by_assumption=tot["assume_end"], instructions=tot["instr"],
               queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2), max_query_s=maxq,
               assertions_checked=tot["asserts"], assertions_proved=tot["asserts_proved"], ambiguous_roundings=tot["ambiguous"], paths_not_encoded=tot["unsupported"], paths_cut=tot["cut"],
               exhaustive_within_bounds=exhaustive, functions_encoded=own[:200], n_functions_encoded=len(own), repo_sources=sorted(linked), runs=runs_out, unconfirmed=unconfirmed[:6], reach_missing=reach_missing, not_decided=undecided + harness_errors, bounds=spec["bounds"])
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov, wall_s=round(time.time() - t_start, 2), violations=len(violations), assumptions=spec.get("assumptions", []))
    json.dump(ev, open(f"{ev_dir}/{pid}.json", "w"), indent=1)
    for k in sorted(found_known.values(), key=lambda k: k["id"]):
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    print(f"{pid}: {tot['paths']} paths, {tot['asserts']} assertions ({tot['asserts_proved']} proved), {tot['queries']} queries, solver {tot['solver_s']:.1f}s, {validated} traces validated, {mismatched} mismatched, {tot['unsupported']} not encoded, {tot['cut']} cut, unconfirmed {len(unconfirmed)}, {'exhaustive within bounds' if exhaustive else 'NOT exhaustive'}, {time.time() - t_start:.1f}s")
    for v in violations:
        print(f"  {v['kind']}: {v['msg']} [{v['entry']}] at {v['stack'][:200]} native rc={v['native_rc']}")
    if os.environ.get("VERIF_VERBOSE"):
        for r in runs_out:
            print("  run", json.dumps(r))
        for u in unconfirmed:
            print("  unconfirmed", json.dumps(u))
        for s in samples_out:
            if s.get("result") != "native run agrees":
                print("  sample", json.dumps(s)[:800])
        print("  reach_missing", reach_missing)
    if violations:
        print(f"VIOLATION property={pid} replay={violations[0]['replay']}")
        return 1
    for u in undecided + harness_errors:
        print("NOT DECIDED (no verdict on this part): " + u)
    if reach_missing:
        print("note: not reached: " + "; ".join(reach_missing))
    return 0


def replay(path):
    m = re.search(r"# property (\S+) harness (\S+) entry (\S+) params ?(.*)", open(path).read())
    pid, harness, entry, params = m.groups()
    srcs, shadow = next((r["srcs"], r.get("shadow", "")) for r in SPECS[pid]["runs"] if r["harness"] == harness)
    wd = tempfile.mkdtemp()
    pool = cf.ThreadPoolExecutor(JOBS)
    try:
        _, srcs = build(pool, harness, srcs, wd, shadow)  # also finds the further sources that are needed
        exe = link_native(build_native(pool, harness, srcs, wd, SAN, "asan", list(COMMON_NATIVE_LIBS) + SPECS[pid].get("libs", [])))
        shutil.copy(path, wd + "/r.txt")
        rc, out = run_native(exe, entry, wd + "/r.txt", params.split())
        print(out)
        print("exit", rc)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            print(engine())
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except Broken as e:
        print("CHECK ERROR:", e)
        sys.exit(2)
