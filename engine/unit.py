"""Verification units: one function (or small group) under contract, explored path by path."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")

REPO_SRC = os.environ.get("VP_REPO_SRC", "/repo/src")
HOOKS = ("loop_specs", "listcomp_hook", "sorted_hook", "extremum_hook", "open_hook", "gzip_hook", "on_print", "tracked", "token_eq",
         "token_nonempty", "trust_comp", "comp_hook", "effect_ok", "json_hook")

# modules under contract, all instrumented; everything else they import is a dependency
MODULES = ("tools", "vgm.command", "vgm.core", "vgm.ym2151.config", "vgm.ym2151.note", "vgm.ym2151.state", "xrns.writer",
           "xrns.xrns_serializer", "xrns.parts.globals", "xrns.parts.instrument", "xrns.parts.pattern", "xrns.parts.pattern_sequence",
           "xrns.parts.song", "xrns.parts.track", "extractors", "main")

SETUP = {"done": False, "globals": None, "errors": {}}


def setup():
    """instruments and imports the code under test; remembers the pristine global state"""
    if SETUP["done"]:
        return
    SETUP["done"] = True
    from . import heap, instrument, runtime, shims  # noqa: F401
    heap.REPO_PREFIX = REPO_SRC
    instrument.install(REPO_SRC)
    for m in MODULES:
        try:
            importlib.import_module(m)
        except BaseException as e:
            SETUP["errors"][m] = f"{type(e).__name__}: {e}"
    for m in instrument.repo_module_names(REPO_SRC):
        if m.startswith("xrns.xml") or m in MODULES:
            continue
        try:
            importlib.import_module(m)
        except BaseException:
            pass
    runtime.REPO_READY = True
    SETUP["globals"] = heap.GlobalState()


class Unit:
    def __init__(self, name, fn, functions, replay=None, timeout=None, cover=(), assumptions=(), max_paths=60000, lifts=None):
        self.name, self.fn, self.functions = name, fn, list(functions)
        self.replay = replay            # replay(model, info) -> harness input or None
        self.timeout = timeout
        self.covers = list(cover)       # cover points that must be reached (vacuity guard)
        self.assumptions = list(assumptions)
        self.max_paths = max_paths
        self.lifts = lifts              # the assumption of other units that this one makes unnecessary; undecided, it only leaves that standing


def run_unit(unit, pid, tier, seconds, cross=False):
    """explores a unit; returns a JSON-serialisable result"""
    from .core import Explorer
    setup()
    import z3
    z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1") or 1) % 1000)
    t0 = time.time()
    ex = Explorer(unit.name, timeout_ms=20000 if tier == "quick" else 60000, max_paths=unit.max_paths,
                  deadline=t0 + (unit.timeout or seconds), cross=(Cross() if cross else None))
    ex.pid = pid

    def on_reset():
        SETUP["globals"].restore()
        for h in HOOKS:
            ex.__dict__.pop(h, None)
    ex.on_reset = on_reset
    real_prove, real_fail = ex.prove, ex.fail
    stats = {"exact": 0}

    def prove(name, cond, info=None):
        if not name.startswith(pid):
            return True
        return real_prove(name, cond, info)

    def fail(name, why, info=None):
        if not name.startswith(pid):
            return
        real_fail(name, why, info)
    ex.prove, ex.fail = prove, fail
    out = {"unit": unit.name, "lifts": unit.lifts, "functions": unit.functions, "unsupported": None, "obligations": [], "refuted": [], "inputs": []}
    missing = [f.split(":")[0] for f in unit.functions if f.split(":")[0] in SETUP["errors"]]
    if missing:
        out["unsupported"] = "cannot import: " + "; ".join(f"{m}: {SETUP['errors'][m]}" for m in sorted(set(missing)))
    else:
        ex.explore(unit.fn)
        out["unsupported"] = ex.unsupported
    on_reset()
    for o in ex.obls.values():
        out["obligations"].append(o.row())
        if o.status == "refuted":
            out["refuted"].append(o.name)
            for m, info, _ in o.models:
                out.setdefault("exact", []).append(not ex_over(info))
                rp = unit.replay
                if info and "replay" in info:
                    rp = info["replay"]
                if rp is None or m is None:
                    continue
                try:
                    i = rp(m, info)
                    if i is not None:
                        out["inputs"].extend(i if isinstance(i, list) else [i])
                except BaseException as e:
                    out.setdefault("replay_errors", []).append(f"{type(e).__name__}: {e}")
    miss = [c for c in unit.covers if not ex.reached.get(c)]
    if not out["unsupported"] and miss:
        out["unsupported"] = "vacuity guard: not reached: " + ", ".join(miss)
    out.update(paths=ex.paths, cut_paths=ex.cut_paths, solver_s=round(ex.solver_s, 3), wall_s=round(time.time() - t0, 2), reached=ex.reached,
               branch_checks=ex.branch_checks, unknown_branches=ex.unknown_branches, cross_checked=ex.cross_checked,
               cross=(ex.cross.stats() if ex.cross else None), assumptions=unit.assumptions + sorted(ex.assumptions))
    if ex.errors:
        out["trace"] = ex.errors[-1][-1500:]
    return out


def ex_over(info):
    return bool(info and info.get("over"))


class Cross:
    """second back end: the discharged goal is sent to cvc5 as SMT-LIB"""

    def __init__(self, limit=150, tlimit=3000):
        self.limit, self.tlimit = limit, tlimit
        self.unsat = self.unknown = self.sat = self.skipped = 0
        self.errors = 0

    def __call__(self, ex, goal):
        import z3
        if self.unsat + self.unknown + self.sat >= self.limit:
            self.skipped += 1
            return 0
        s = z3.Solver()
        s.add(*ex.pc)
        s.add(z3.Not(goal))
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
        import subprocess
        from . import core
        core.OWN.append(1)
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={self.tlimit}", "-q", "-"], input=txt, capture_output=True, text=True, timeout=self.tlimit / 1000 + 5)
            r = p.stdout.strip().split("\n")[0]
        except Exception:
            r = "unknown"
        finally:
            core.OWN.pop()
        if r == "unsat":
            self.unsat += 1
            return 1
        if r == "sat":
            self.sat += 1
        else:
            self.unknown += 1
        return 0

    def stats(self):
        return {"backend": "cvc5", "agrees": self.unsat, "unknown": self.unknown, "disagrees": self.sat, "not_asked": self.skipped}


def _child(conn, unit, pid, tier, seconds, cross):
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        r = run_unit(unit, pid, tier, seconds, cross)
    except BaseException as e:
        r = {"unit": unit.name, "lifts": unit.lifts, "functions": unit.functions, "unsupported": f"engine: {type(e).__name__}: {e}", "obligations": [], "refuted": [],
             "inputs": [], "paths": 0, "cut_paths": 0, "solver_s": 0, "wall_s": 0, "reached": {}, "assumptions": [], "trace": traceback.format_exc()[-1500:]}
    try:
        conn.send_bytes(json.dumps(r, default=str).encode())
    except BaseException:
        pass
    conn.close()
    os._exit(0)


def run_units(units, pid, tier, seconds, jobs=None, cross=False, total=None):
    """runs every unit in its own forked process; all of them within `total` seconds"""
    setup()
    end = time.time() + (total or 1e9)
    ctx = mp.get_context("fork")
    jobs = jobs or max(2, min(8, (os.cpu_count() or 4)))
    todo, running, done = list(enumerate(units)), [], {}
    while todo or running:
        while todo and len(running) < jobs:
            i, u = todo.pop(0)
            left = min(u.timeout or seconds, end - time.time())
            if left < 2:
                done[i] = dead(u, "budget: the time of the check is used up")
                continue
            u.timeout = left
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, u, pid, tier, seconds, cross))
            p.start()
            b.close()
            running.append((i, u, p, a, time.time()))
        if not running:
            continue
        mp.connection.wait([r[3] for r in running], timeout=0.5)
        still = []
        for i, u, p, a, t in running:
            if a.poll():
                try:
                    done[i] = json.loads(a.recv_bytes())
                except EOFError:
                    done[i] = dead(u, "the prover process died")
                p.join()
            elif not p.is_alive() and not a.poll():
                done[i] = dead(u, "the prover process died")
            elif time.time() - t > u.timeout + 60:
                p.kill()
                p.join()
                done[i] = dead(u, "budget: the prover process exceeded its time limit")
            else:
                still.append((i, u, p, a, t))
        running = still
    return [done[i] for i in range(len(units))]


def dead(u, why):
    return {"unit": u.name, "lifts": u.lifts, "functions": u.functions, "unsupported": why, "obligations": [], "refuted": [], "inputs": [], "paths": 0, "cut_paths": 0,
            "solver_s": 0, "wall_s": 0, "reached": {}, "assumptions": []}


def source_hashes():
    out = {}
    for d, dirs, fs in os.walk(REPO_SRC):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                out[os.path.relpath(p, REPO_SRC)] = hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
    return out
