#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--repo-src DIR]

Decides one property of /repo's current source: generates the proof obligations of the functions under
contract, discharges them with z3, replays refutations on the real code, and writes the evidence file."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")


def reexec():
    """the prover runs in the tooling interpreter with a fixed hash seed"""
    if os.environ.get("VP_INNER") == "1":
        return
    exe = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
    env = dict(ENV, VP_INNER="1")
    os.execve(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


PLAN = {
    "C01": "stream", "C02": "stream", "C03": "stream", "C04": "stream",
    "C05": "chipstate", "C06": "chipstate", "C07": "chipstate", "C08": "chipstate notes song instruments tempo trackscsv", "C09": "chipstate",
    "C10": "process", "C11": "tempo", "C12": "song", "C13": "document", "C14": "notes", "C15": "instruments",
    "C16": "trackscsv", "C17": "values", "C18": "streams", "C19": "isolation", "C20": "cli",
}


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def start_worker(pid, scratch, budget, seed, inputs=None, only=False, known=False):
    d = tempfile.mkdtemp(dir=scratch)
    cmd = [REPO_PY, "-B", os.path.join(HERE, "harness", "worker.py"), pid, "--budget", str(budget), "--seed", str(seed)]
    if inputs is not None:
        f = os.path.join(scratch, f"inputs-{len(os.listdir(scratch))}.json")
        with open(f, "w") as h:
            json.dump(inputs, h)
        cmd += ["--inputs", f]
    if only:
        cmd.append("--only-inputs")
    if known:
        cmd.append("--known")
    env = dict(ENV, HOME=d)
    env.pop("PYTHONPATH", None)
    return subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def finish_worker(p, limit):
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"runs": 0, "distinct": 0, "seconds": limit, "violation": None, "error": "harness exceeded its time limit"}
    for line in reversed(out.strip().splitlines()):
        try:
            return json.loads(line)
        except ValueError:
            continue
    return {"runs": 0, "distinct": 0, "seconds": 0, "violation": None, "error": (err or "no output")[-600:]}


def findings(pid):
    out = {}
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            if line.startswith("finding:") and f"property={pid} " in line:
                out[line.split("id=")[1].split()[0]] = line.split(f"property={pid} ", 1)[1].strip()
    except OSError:
        pass
    return out


def prove(pid, tier, seconds):
    """[unit result], or an explanation why there is no proof"""
    sys.path.insert(0, HERE)
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    import importlib
    from engine import unit
    unit.setup()
    units = [u for m in PLAN[pid].split() for u in importlib.import_module("contracts." + m).UNITS[pid]]
    if not units:
        return [], "no units"
    return unit.run_units(units, pid, tier, seconds, cross=(tier == "thorough"), total=(None if tier == "thorough" else 440)), None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    quick = tier != "thorough"
    ev_path = os.path.join(HERE, "evidence", f"{pid}.json")
    replay = os.path.join(HERE, "evidence", f"replay-{pid}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    for f in (ev_path, replay):
        if os.path.exists(f):
            os.remove(f)
    with Scratch() as scratch:
        h1 = start_worker(pid, scratch, 12 if quick else 200, seed)
        hk = start_worker(pid, scratch, 5, seed, known=True) if findings(pid) else None
        try:
            results, why = prove(pid, tier, 200 if quick else 420)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            results, why = [], f"the prover failed: {type(e).__name__}: {e}"
        runs = [finish_worker(h1, 140 if quick else 320)]
        known = []
        if hk is not None:
            r = finish_worker(hk, 60)
            known = r if isinstance(r, list) else []
        obl = {}
        for r in results:
            for o in r["obligations"]:
                w = obl.setdefault((r["unit"], o["obligation"]), o)
        # a unit that lifts an assumption: undecided, it leaves that assumption standing
        lifting = [r for r in results if r.get("lifts") and (r["unsupported"] or any(o["status"] == "unknown" for o in r["obligations"]))]
        standing = [f"{r['unit']}: {r['unsupported'] or 'unknown'}; so: {r['lifts']}" for r in lifting]
        for r in lifting:
            r["not_lifted"], r["unsupported"] = r["unsupported"] or "unknown", None
            r["obligations"] = [o for o in r["obligations"] if o["status"] == "refuted"]
            obl = {k: o for k, o in obl.items() if k[0] != r["unit"] or o["status"] == "refuted"}
        gone = {r["lifts"] for r in results if r.get("lifts") and r not in lifting}
        for r in results:
            r["assumptions"] = [x for x in r["assumptions"] if x not in gone]
        undecided = [f"{r['unit']}: {r['unsupported']}" for r in results if r["unsupported"]]
        undecided += [f"{o['unit']}: {o['obligation']}: {o['status']} {o['reason'][:200]}" for o in obl.values() if o["status"] == "unknown"]
        refuted = [o for o in obl.values() if o["status"] == "refuted"]
        exact = any(x for r in results for x in r.get("exact", []))
        if why:
            undecided.append(why)
        if not obl and not undecided:
            undecided.append("no obligation was generated")
        violation = next((w["violation"] for w in runs if w.get("violation")), None)
        inputs = [i for r in results for i in r["inputs"]][:400]
        if refuted and not violation and inputs:
            w = finish_worker(start_worker(pid, scratch, 60, seed, inputs, only=True), 120)
            w["kind"] = "counterexamples of the verifier"
            runs.append(w)
            violation = w.get("violation")
        if not violation and (refuted or undecided):
            w = finish_worker(start_worker(pid, scratch, 40 if quick else 120, seed + 7919), 200)
            w["kind"] = "bounded stand-in"
            runs.append(w)
            violation = w.get("violation")
    proved = bool(obl) and not refuted and not undecided
    lines, code, nviol = [], 0, 0
    if violation or (refuted and exact):
        nviol, code = 1, 1
        rep = {"property": pid, "failed_obligations": [{k: o[k] for k in ("unit", "obligation", "reason")} for o in refuted]}
        if violation:
            rep.update(input=violation["input"], message=violation["message"],
                       how="write [input] to FILE, then in an empty directory: /opt/venv/bin/python /verif/harness/worker.py " + pid + " --inputs FILE --only-inputs")
        else:
            rep["note"] = "the verifier refutes the obligation; no failing input was found by replay"
        with open(replay, "w") as f:
            json.dump(rep, f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={replay}" + ("" if violation else " no-failing-input-found"))
    fs = findings(pid)
    for k in known:
        if k in fs:
            lines.append(f"KNOWN-FINDING: property={pid} {fs[k]}")
    evidence(ev_path, pid, tier, seed, t0, results, obl, runs, undecided, refuted, proved, nviol, known)
    n, d = sum(o["vcs"] for o in obl.values()), sum(o["discharged"] for o in obl.values())
    if violation:
        print(f"{pid}: {violation['message']}"[:1500])
    for o in refuted:
        print(f"{pid}: obligation {o['obligation']} of '{o['unit']}' refuted: {o['reason'][:500]}")
    for u in standing:
        print(f"{pid}: not lifted: {u[:400]}")
    for u in undecided:
        print(f"{pid}: undecided, bounded check instead: {u[:400]}")
    print(f"{pid}: {len(obl)} obligations over {len(results)} units, {d}/{n} verification conditions discharged; "
          f"{sum(w.get('runs', 0) for w in runs)} run-time contract evaluations; {'proved' if proved else 'violated' if code else 'bounded'}; {time.time() - t0:.1f} s")
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(code)


def evidence(path, pid, tier, seed, t0, results, obl, runs, undecided, refuted, proved, nviol, known):
    n, d = sum(o["vcs"] for o in obl.values()), sum(o["discharged"] for o in obl.values())
    fns = sorted({f for r in results for f in r["functions"]})
    simp = sum(o["by_simplifier"] for o in obl.values())
    try:
        import z3
        zv = z3.get_version_string()
    except Exception:
        zv = "?"
    try:
        from engine import unit
        src = unit.source_hashes()
    except Exception:
        src = {}
    from contracts_info import TRUSTED, DROPPED
    assumptions = sorted({x for r in results for x in r["assumptions"]})
    cov = {
        "functions_under_contract": fns,
        "obligations": n, "discharged": d,
        "named_obligations": [o for o in obl.values()],
        "units": [{k: r.get(k) for k in ("unit", "paths", "cut_paths", "solver_s", "wall_s", "unsupported", "reached", "branch_checks", "unknown_branches", "cross", "lifts", "not_lifted")} for r in results],
        "back_ends": {f"z3 {zv}": d - simp, "z3 simplifier (obligation true by normalisation)": simp,
                      "cvc5 (re-proved)": sum((r.get("cross") or {}).get("agrees", 0) for r in results)},
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "checker_cmd": f"python3 /verif/check.py {pid} --tier {tier}",
        "trusted_base": TRUSTED,
        "extraction": DROPPED,
        "source_sha256_prefix": src,
        "undecided": undecided,
        "refuted": [o["obligation"] for o in refuted],
        "known_findings_present": known,
        "bounded": {"note": "run-time contracts on the real code under CPython: replay of refutations, bounded stand-in for undecided obligations; never counted as proved",
                    "seconds": round(sum(w.get("seconds", 0) for w in runs), 1), "inapplicable": sum(w.get("inapplicable", 0) for w in runs),
                    "errors": [w["error"] for w in runs if w.get("error")]},
        "evaluations": sum(w.get("runs", 0) for w in runs), "distinct_nontrivial": sum(w.get("distinct", 0) for w in runs),
        "rule": "systematic cases of the property's domain first, then seeded random ones; distinct by content; each runs the real code against the executable specification",
        "samples": [s for w in runs for s in w.get("samples", [])][:4] or ["none"],
    }
    ev = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": "proof" if proved or not (undecided or nviol) else "exploration",
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    reexec()
    sys.path.insert(0, HERE)
    main()
