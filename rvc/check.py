#!/usr/bin/env python3-vt
"""check.py <property> [--thorough] [--debug] [--only proof]

Rebuilds the verification module from /repo's working tree, generates the proof
obligations of the property's contracts from it, discharges them, and reports."""
import os
import sys
import json
import time
import importlib.util
import multiprocessing as mp
import subprocess
import shutil
import tempfile
import collections

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "specs"))
sys.setrecursionlimit(20000)

import build      # noqa: E402
import proof      # noqa: E402
import solve      # noqa: E402

TRUSTED = [
    "clang 18 -O0 and opt (sroa, simplifycfg, loop-simplify): the LLVM IR they emit means the C++ source",
    "rvc/ (IR parser, symbolic VC generator, loop cuts): written for this task, not itself verified; exercised by the planted bugs in seeded/",
    "SMT back ends: z3 (python bindings), z3-new, z3 4.8.12, cvc5 1.1.2",
]


def load_spec(pid):
    p = os.path.join(VERIF, "specs", pid + ".py")
    sp = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def worker(mod, name, func, q, idx, limit):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    r = proof.run_proof(mod, name, func)
    q.put((idx, r))


def run_proofs(mod, proofs, limit, jobs=8):
    ctx = mp.get_context("fork")
    pending = list(enumerate(proofs))
    running = {}
    res = [None] * len(proofs)
    q = ctx.Queue()
    while pending or running:
        while pending and len(running) < jobs:
            i, (nm, fn) = pending.pop(0)
            pr = ctx.Process(target=worker, args=(mod, nm, fn, q, i, limit))
            pr.start()
            running[i] = (pr, time.time())
        try:
            idx, r = q.get(timeout=0.5)
            res[idx] = r
            pr, _ = running.pop(idx)
            pr.join(5)
            if pr.is_alive():
                pr.kill()
        except Exception:
            pass
        for i, (pr, t) in list(running.items()):
            if time.time() - t > limit:
                pr.kill()
                pr.join()
                running.pop(i)
                res[i] = {"name": proofs[i][0], "error": "unsupported: VC generation exceeded %d s" % limit, "time": limit}
            elif not pr.is_alive() and q.empty():
                time.sleep(0.3)
                if q.empty() and res[i] is None and i in running:
                    running.pop(i)
                    res[i] = {"name": proofs[i][0], "error": "unsupported: VC generator died (exit %s)" % pr.exitcode, "time": 0}
    return res


class E2E:
    HARNESS = "e2e.cpp"


def run_harness(spec, pid, models, seconds, seed):
    """native replay against the real code; returns (found, text, error).  A harness that
    reaches into the clipper falls back to one that only uses the public interface when the
    changed code no longer has the internals it names."""
    if not getattr(spec, "HARNESS", None):
        return False, "no native harness for this property", None
    r = run_harness1(spec, pid, models, seconds, seed)
    if r[2] and r[2].startswith("harness build") and spec.HARNESS == "cl.cpp":
        r2 = run_harness1(E2E, pid, models, seconds, seed)
        return r2[0], r[2][:600] + "\npublic-interface harness instead:\n" + r2[1], r2[2]
    return r


def run_harness1(spec, pid, models, seconds, seed):
    src = spec.HARNESS
    tmp = tempfile.mkdtemp(prefix="rvch_")
    try:
        exe = os.path.join(tmp, "h")
        cpp = os.path.join(VERIF, "harness", src)
        rsrc = [os.path.join(build.REPO, "src/src", f) for f in sorted(os.listdir(os.path.join(build.REPO, "src/src")))
                if f.endswith(".cpp") and f not in ("river.cpp", "decl.cpp", "util.cpp") and f not in getattr(spec, "HARNESS_EXCLUDE", [])]
        flags = ["-std=c++17", "-O1", "-g", "-w", "-ffp-contract=off", "-fno-access-control", "-I" + os.path.join(VERIF, "harness")] + build.includes()
        flags += ["-D" + d for d in getattr(spec, "HARNESS_DEFS", [])]
        san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
        from concurrent.futures import ThreadPoolExecutor

        def comp(s):
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            p = subprocess.run(["g++"] + flags + san + ["-c", s, "-o", o], capture_output=True, text=True)
            if p.returncode:
                raise build.BuildError(p.stderr[-3000:])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, rsrc + [cpp]))
        p = subprocess.run(["g++"] + san + objs + ["-o", exe], capture_output=True, text=True)
        if p.returncode:
            return False, "", "link: " + p.stderr[-2000:]
        mf = os.path.join(tmp, "models.txt")
        with open(mf, "w") as f:
            for m in models:
                f.write("model\n")
                for k, v in m.items():
                    f.write("%s %s\n" % (k, repr(float(v)) if not isinstance(v, bool) else int(v)))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")
        cmd = ["timeout", "-k", "5", str(int(seconds) + 60), exe, str(seed), str(seconds), mf]
        p = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=tmp, errors="replace")
        txt = (p.stdout + p.stderr)[-8000:]
        if p.returncode == 0:
            return False, txt, None
        if p.returncode in (1, 77) or p.returncode < 0 or p.returncode >= 124:
            if p.returncode in (124, 137):
                return False, txt, "harness timed out"
            return True, txt, None
        return False, txt, "harness exit %d" % p.returncode
    except build.BuildError as ex:
        return False, "", "harness build: %s" % ex
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    debug = "--debug" in sys.argv
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = load_spec(pid)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        mod = build.module()
    except build.BuildError as ex:
        print("ERROR: /repo does not compile for extraction:\n%s" % ex)
        return 2
    tb = time.time() - t0
    proofs = spec.proofs(mod, thorough)
    if only:
        proofs = [p for p in proofs if only in p[0]]
    res = run_proofs(mod, proofs, 600 if thorough else 330)
    todo, allobs = [], []
    errors = []
    for r in res:
        if r.get("error"):
            errors.append(r)
            if debug:
                print("!!", r["name"], r["error"], r.get("trace"))
            continue
        if debug:
            print("-- %-50s %5d obligations %4d paths cover=%s %.1fs feas=%s loops=%s" % (r["name"][:50], len(r["obligations"]), r["paths"], r["cover"], r["time"], r["feas"], r["loops"]))
        for o in r["obligations"]:
            allobs.append(o)
            if "status" not in o:
                todo.append(o)
        if r["cover"] in ("unsat", "no returning path"):
            allobs.append({"name": r["name"] + " :: the function returns on some admissible input", "kind": "cover", "status": "sat", "solver": "z3-py", "time": 0, "values": None})
    tv = time.time()
    if "--fast" in sys.argv:
        for o in todo:
            o["slow"] = 8
    solve.DEADLINE[0] = t0 + (3000 if thorough else 600)
    out = solve.discharge_all(todo)
    for o, (stt, sv, tm, vals) in zip(todo, out):
        o.update(status=stt, solver=sv, time=tm + o.get("pre_time", 0), values=vals)
    failed = [o for o in allobs if o["status"] != "unsat"]
    # a solver that gave up is asked once more, alone, with a longer limit
    again = [o for o in failed if o["status"] == "unknown" and "smt2" in o]
    if again and len(again) <= 24 and not any(o["status"] == "sat" for o in failed) and "--fast" not in sys.argv:
        out = solve.discharge_all(again, jobs=min(8, len(again)), fast=5, slow=100 if thorough else 60, retry=True)
        for o, (stt, sv, tm, vals) in zip(again, out):
            o.update(status=stt, solver=sv, time=tm + o["time"], values=vals)
    failed = [o for o in allobs if o["status"] != "unsat"]
    if debug:
        slowest = sorted(allobs, key=lambda o: -o["time"])[:8]
        for o in slowest:
            print("   slow %.2fs %s %s %s" % (o["time"], o["status"], o["solver"], o["name"][:150]))
        for o in failed[:40]:
            print("   FAILED", o["status"], o["name"], str(o.get("values"))[:300])
        print("build %.1fs vcgen %.1fs solve %.1fs" % (tb, tv - t0 - tb, time.time() - tv))

    by = collections.Counter(o["solver"] for o in allobs if o["status"] == "unsat")
    kinds = collections.Counter(o["kind"] for o in allobs)
    cov = {
        "obligations": len(allobs),
        "discharged": sum(1 for o in allobs if o["status"] == "unsat"),
        "checker_cmd": "python3-vt rvc/check.py %s" % pid,
        "trusted_base": TRUSTED + list(getattr(spec, "TRUSTED", [])),
        "functions_under_contract": sorted({f for r in res if not r.get("error") for f in r["under_contract"]}),
        "functions_executed": sorted({f for r in res if not r.get("error") for f in r["functions"]}),
        "contracts_used_at_calls": sorted({f for r in res if not r.get("error") for f in r["contracts_used"]}),
        "obligations_by_kind": dict(kinds),
        "discharged_by": dict(by),
        "solver_seconds": round(sum(o["time"] for o in allobs), 2),
        "paths": sum(r.get("paths", 0) for r in res),
        "loops_cut": sorted({"%s: %s" % (l[0], "; ".join(l[2])) for r in res if not r.get("error") for l in r["loops"]}),
        "proofs": {r["name"]: ("error: " + r["error"]) if r.get("error") else "%d obligations, %d paths, vacuity %s" % (len(r["obligations"]), r["paths"], r["cover"]) for r in res},
        "source_tree_sha256": build.tree_hash(),
        "bounded": getattr(spec, "BOUNDED", []),
    }
    assumptions = sorted({a for r in res if not r.get("error") for a in r["assumptions"]}) + list(getattr(spec, "ASSUMPTIONS", []))
    viol = 0
    rc = 0
    msg = []
    replay = None
    if failed:
        mods = [o["values"] for o in failed if o.get("values")][:40]
        found, txt, herr = run_harness(spec, pid, mods, 120 if thorough else 60, seed)
        replay = os.path.join(evdir, pid + ".replay.txt")
        with open(replay, "w") as f:
            f.write("property %s: %d of %d obligations not discharged\n" % (pid, len(failed), len(allobs)))
            f.write("reproduce: cd /verif && python3-vt rvc/check.py %s --debug\n\n" % pid)
            for o in failed:
                f.write("FAILED obligation: %s\n  back end: %s said %s\n  counterexample: %s\n" % (o["name"], o["solver"], o["status"], o.get("values")))
            f.write("\n--- native replay against the real code (%s) ---\n%s\n%s\n" % (getattr(spec, "HARNESS", None), txt, herr or ""))
            if failed and failed[0].get("smt2"):
                f.write("\n--- SMT-LIB of the first failed obligation ---\n" + failed[0]["smt2"][:200000])
        viol = len(failed)
        for o in failed[:20]:
            print("failed obligation: %s [%s]" % (o["name"], o["status"]))
        if found:
            print(txt[-1500:])
        line = "VIOLATION property=%s replay=%s" % (pid, replay)
        if not found:
            line += " no-failing-input-found"
        print(line)
        rc = 1
    elif errors:
        # the code has left the dialect the extraction understands: a bounded native
        # check of the same contracts stands in, labelled as such
        found, txt, herr = run_harness(spec, pid, [], 120 if thorough else 60, seed)
        cov["bounded"] = list(cov["bounded"]) + ["%s: %s -- replaced on this run by the native bounded check %s" % (r["name"], r["error"], getattr(spec, "HARNESS", None)) for r in errors]
        for r in errors:
            print("UNDECIDED-BY-PROOF: %s: %s" % (r["name"], r["error"]))
        if found:
            replay = os.path.join(evdir, pid + ".replay.txt")
            with open(replay, "w") as f:
                f.write("property %s, extraction limit: %s\nnative bounded check found:\n%s\n" % (pid, errors[0]["error"], txt))
            print(txt[-1500:])
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            viol, rc = 1, 1
        elif herr:
            print("ERROR: %s" % herr)
            rc = 2
        else:
            print("bounded stand-in passed (not a proof): %s" % txt.strip().split("\n")[-1][:300])
    elif thorough and getattr(spec, "HARNESS", None):
        found, txt, herr = run_harness(spec, pid, [], 150, seed)
        cov["native_cross_check"] = txt.strip().split("\n")[-1][:300] if not found else "FAILED"
        if found:
            replay = os.path.join(evdir, pid + ".replay.txt")
            open(replay, "w").write("native cross-check of %s found:\n%s\n" % (pid, txt))
            print(txt[-1500:])
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            viol, rc = 1, 1
    for kf in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    if not allobs and not errors:
        print("ERROR: no obligations generated")
        rc = 2
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof",
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s: %d/%d obligations discharged, %d proofs (%d outside the dialect), %.1f s" % (
        pid, cov["discharged"], cov["obligations"], len(res), len(errors), time.time() - t0))
    return rc


def known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                out.append(ln.split(" ", 2)[2])
    return out


if __name__ == "__main__":
    sys.exit(main())
