"""Path-exhaustive symbolic executor: the real Python code runs on symbolic values.

Every branch on a symbolic condition forks; all feasible paths are enumerated by
re-execution.  Obligations are proved with z3 under the path condition.  Loops over
unbounded data are cut (see loops.py), so the enumeration is finite and complete.
"""
import io as _io, os as _os, sys, time, traceback
import z3

sys.setrecursionlimit(20000)


class PathCut(BaseException):
    """The current path is fully accounted for (loop back edge, infeasible, ...)."""


class Unsupported(BaseException):
    """The code left the subset the verifier handles: the unit is undecided."""


class Budget(BaseException):
    pass


class Obligation:
    __slots__ = ("unit", "name", "vcs", "discharged", "status", "models", "reason", "time", "syntactic")

    def __init__(self, unit, name):
        self.unit, self.name = unit, name
        self.vcs = 0
        self.discharged = 0
        self.syntactic = 0
        self.status = "discharged"
        self.models = []
        self.reason = ""
        self.time = 0.0

    def row(self):
        return {"unit": self.unit, "obligation": self.name, "vcs": self.vcs, "discharged": self.discharged,
                "by_simplifier": self.syntactic, "status": self.status, "reason": self.reason,
                "solver_s": round(self.time, 4)}


class Explorer:
    """Explores one unit (a function under its contract)."""

    MAX_MODELS = 6

    def __init__(self, name, timeout_ms=20000, branch_timeout_ms=4000, max_paths=60000, deadline=None, cross=None):
        self.name = name
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.cross = cross              # optional second back end (cvc5)
        self.obls = {}
        self.paths = 0
        self.cut_paths = 0
        self.branch_checks = 0
        self.solver_s = 0.0
        self.assumptions = set()
        self.reached = {}               # cover points
        self.errors = []
        self.unknown_branches = 0
        self.cross_checked = 0
        self.loop_table = {}
        self.memo = {}
        self.shared = {}                # scratch for units, survives across paths

    # ---- path state -------------------------------------------------
    def _reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.fresh_n = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.is_cond = []
        self.depth_summary = 0
        self.depth_nest = 0
        self.notes = {}
        self.on_reset()

    def on_reset(self):
        pass

    def fresh_name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return base if n == 0 else f"{base}!{n}"

    def fresh_int(self, base="i"):
        return z3.Int(self.fresh_name(base))

    def fresh_bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def fresh_fn(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    # ---- constraints ------------------------------------------------
    def assume(self, f, cond=False):
        """Adds a fact (contract precondition, definition instance; cond: a branch decision)."""
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        if not z3.is_expr(f):
            f = f.t                         # SymBool
        self.pc.append(f)
        self.is_cond.append(cond)
        self.solver.add(f)

    def retract(self, n):
        """forgets the facts after the first n (sound: fewer facts)"""
        del self.pc[n:], self.is_cond[n:]
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.solver.add(*self.pc)

    def _check(self, *extra, timeout=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget of the unit exhausted")
        t = time.time()
        self.solver.set("timeout", timeout or self.timeout_ms)
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        return r

    light = False       # branch feasibility over the quantifier-free facts only (more paths, never fewer)

    def _light(self, *extra):
        """check with the quantifier-free part of the path condition: unsat is sound, sat means maybe"""
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget of the unit exhausted")
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.branch_timeout_ms)
        for f in self.pc:
            if not has_quantifier(f):
                s.add(f)
        s.add(*extra)
        r = s.check()
        self.solver_s += time.time() - t
        return r

    def _branch_check(self, *extra):
        if self.light:
            return z3.unsat if self._light(*extra) == z3.unsat else z3.sat
        return self._check(*extra, timeout=self.branch_timeout_ms)

    def feasible(self):
        return self._branch_check() != z3.unsat

    def branch(self, cond):
        """cond: z3 Bool. Returns a Python bool, forking when both are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] not in "fb" or d[2] != cond.hash():
                raise Unsupported("re-execution diverged (the code under test is not deterministic)")
            v = d[1]
            self.taken.append(d)
            self.assume(cond if v else z3.Not(cond), True)
            return v
        self.branch_checks += 1
        rt = self._branch_check(cond)
        rf = self._branch_check(z3.Not(cond)) if rt != z3.unsat else z3.sat
        if rt == z3.unknown or rf == z3.unknown:
            self.unknown_branches += 1
        if rt == z3.unsat:
            d = ("f", False, cond.hash())
        elif rf == z3.unsat:
            d = ("f", True, cond.hash())
        else:
            self.stack.append(self.taken + [("b", False, cond.hash())])
            d = ("b", True, cond.hash())
        self.taken.append(d)
        v = d[1]
        self.assume(cond if v else z3.Not(cond), True)
        return v

    def choose(self, options, label=""):
        """Non-deterministic choice among a list of options (all explored, in order)."""
        n = len(options)
        if n == 1:
            return options[0]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            return options[d[1]]
        for i in range(n - 1, 0, -1):
            self.stack.append(self.taken + [("c", i)])
        self.taken.append(("c", 0))
        return options[0]

    def decision_key(self):
        return tuple(self.taken)

    def concretize(self, term, limit=300):
        """Forks over every feasible value of an integer term."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        for _ in range(limit):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.taken.append(d)
                v, eq = d[1], d[2]
            else:
                r = self._check(timeout=self.branch_timeout_ms)
                if r == z3.unsat:
                    raise PathCut("infeasible")
                if r == z3.unknown:
                    raise Unsupported("cannot enumerate a symbolic integer: solver gave unknown")
                v = self.solver.model().eval(term, model_completion=True).as_long()
                r = self._check(term != v, timeout=self.branch_timeout_ms)
                if r == z3.unsat:
                    d = ("v", v, True)
                else:
                    self.stack.append(self.taken + [("v", v, False)])
                    d = ("v", v, True)
                eq = True
                self.taken.append(d)
            if eq:
                self.assume(term == v, True)
                return v
            self.assume(term != v, True)
        raise Unsupported("symbolic integer with an unbounded domain used where a concrete one is needed")

    # ---- summaries ---------------------------------------------------
    def summarize(self, fn):
        """Runs fn (effect free) on every feasible sub-path.  Returns [(cond, kind, value)] where
        kind is 'val' or 'exc'; the conditions are mutually exclusive and jointly exhaustive."""
        if self.depth_nest > 3:
            raise Unsupported("summaries nested too deeply")
        saved = (self.prefix, self.pos, self.taken, self.stack)
        n0 = len(self.pc)
        names0 = dict(self.fresh_n)
        notes0 = self.notes
        out = []
        self.stack = [[]]
        self.depth_nest += 1
        self.depth_summary += 1
        try:
            while self.stack:
                if len(out) > 3000:
                    raise Unsupported("summary too large")
                self.prefix, self.pos, self.taken = self.stack.pop(), 0, []
                self.solver.push()
                self.notes = {k: (set(v) if isinstance(v, set) else list(v) if isinstance(v, list) else v)
                              for k, v in notes0.items()}
                self.notes["mat"] = []
                try:
                    try:
                        r = ("val", fn())
                    except PathCut:
                        r = None
                    except Exception as e:
                        r = ("exc", e)
                    if self.fresh_n != names0:
                        raise Unsupported("summary creates fresh symbols")
                    if r is not None:
                        cs = [c for c, b in zip(self.pc[n0:], self.is_cond[n0:]) if b]
                        if r[0] == "val" and not isinstance(r[1], (bool, int, str, bytes, type(None))):
                            pass
                        out.append((z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True), r[0], r[1]))
                finally:
                    for owner, entry in self.notes.get("mat", []):
                        owner.forget(entry)
                    self.solver.pop()
                    del self.pc[n0:], self.is_cond[n0:]
        finally:
            self.prefix, self.pos, self.taken, self.stack = saved
            self.notes = notes0
            self.depth_nest -= 1
            self.depth_summary -= 1
        return out

    # ---- obligations ------------------------------------------------
    def obligation(self, name):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obligation(self.name, name)
        return o

    def prove(self, name, cond, info=None):
        """Obligation: cond holds on this path. Returns True if discharged."""
        if self.depth_summary:
            return True
        if self.notes.get("approx"):
            info = dict(info or {}, over=True)          # the path may be none of the code's
        o = self.obligation(name)
        o.vcs += 1
        if cond is True:
            o.discharged += 1
            o.syntactic += 1
            return True
        if cond is False:
            cond = z3.BoolVal(False)
        if not z3.is_expr(cond):
            raise TypeError(f"prove: not a condition: {cond!r}")
        c = z3.simplify(cond)
        if z3.is_true(c):
            o.discharged += 1
            o.syntactic += 1
            return True
        t = time.time()
        key = None
        if self.light:
            # the same condition under the same facts, met again when a path is re-executed
            key = (c.get_id(), tuple(f.get_id() for f in self.pc))
            if key in self.memo:
                o.vcs -= 1
                return True
        r = z3.unsat if self.light and self._light(z3.Not(c)) == z3.unsat else self._check(z3.Not(c), timeout=8000 if self.light else None)
        if r == z3.unknown and not self.light:
            r = self._retry(c)
        o.time += time.time() - t
        if r == z3.unsat:
            o.discharged += 1
            if key is not None:
                self.memo[key] = (c, list(self.pc))     # keeps the terms alive, so their ids stay theirs
            if self.cross:
                self.cross_checked += self.cross(self, c)
            return True
        if r == z3.sat:
            if self._rests_on_weak(c):
                info = dict(info or {}, over=True)
            o.status = "refuted"
            if len(o.models) < self.MAX_MODELS:
                try:
                    m = self._model if self._model is not None else self.solver.model()
                except z3.Z3Exception:
                    m = None
                o.models.append((m, info, list(self.taken)))
                if not o.reason:
                    o.reason = self._reason(c, m)
        else:
            if o.status == "discharged":
                o.status = "unknown"
                o.reason = o.reason or f"solver: {self.solver.reason_unknown()}"
        return False

    def fresh_weak(self, base, boolean=False):
        """a value of which less is known than the code under test ensures: a counterexample that rests on it may be none"""
        self.notes["weak"] = True
        return self.fresh_bool("weak_" + base) if boolean else self.fresh_int("weak_" + base)

    def _rests_on_weak(self, *goal):
        return bool(self.notes.get("weak")) and any(mentions(f, "weak_") for f in list(self.pc) + list(goal))

    _model = None

    def _retry(self, c):
        """A second z3 configuration (fresh solver, other seed / mbqi off) for unknowns."""
        self._model = None
        for opts in ({"smt.mbqi": False}, {"smt.random_seed": 7, "smt.arith.solver": 2}):
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            for k, v in opts.items():
                try:
                    s.set(k, v)
                except z3.Z3Exception:
                    pass
            s.add(*self.pc)
            s.add(z3.Not(c))
            t = time.time()
            r = s.check()
            self.solver_s += time.time() - t
            if r == z3.unsat:
                return r
            if r == z3.sat:
                self._model = s.model()
                return r
        return z3.unknown

    def _reason(self, c, m):
        txt = str(c)
        if len(txt) > 700:
            txt = txt[:700] + " ..."
        mt = ""
        if m is not None:
            items = [f"{d.name()}={m[d]}" for d in m.decls() if d.arity() == 0]
            mt = ", ".join(sorted(items))[:900]
        return f"sat (negation of the obligation is satisfiable). goal: {txt} | model: {mt}"

    def fail(self, name, why, info=None):
        """An obligation that is false on a feasible path for a structural reason."""
        if self.depth_summary:
            return
        if self.notes.get("approx"):
            info = dict(info or {}, over=True)
        o = self.obligation(name)
        o.vcs += 1
        r = self._check()
        if r == z3.unsat:
            o.discharged += 1
            return
        if r == z3.sat:
            if self._rests_on_weak():
                info = dict(info or {}, over=True)
            o.status = "refuted"
            if len(o.models) < self.MAX_MODELS:
                o.models.append((self.solver.model(), info, list(self.taken)))
            o.reason = o.reason or why
        else:
            if o.status == "discharged":
                o.status = "unknown"
                o.reason = why + " (feasibility of the path unknown)"

    def cover(self, name):
        self.reached[name] = self.reached.get(name, 0) + 1

    # ---- driver -----------------------------------------------------
    def explore(self, fn):
        """fn(ex) executes one path."""
        global CUR
        self.stack = [[]]
        prev, CUR = CUR, self
        kept_open, _io.open = _io.open, open_by_library
        self.unsupported = None
        refuted_at = None
        try:
            while self.stack:
                if refuted_at is None and any(o.status == "refuted" for o in self.obls.values()):
                    refuted_at = time.time()
                if refuted_at is not None and time.time() - refuted_at > 30:
                    raise Budget("stopped: an obligation is refuted, the remaining paths were not explored")
                if self.paths + self.cut_paths > self.max_paths:
                    raise Budget("path budget exhausted")
                prefix = self.stack.pop()
                self._reset(prefix)
                try:
                    fn(self)
                    self.paths += 1
                except PathCut:
                    self.cut_paths += 1
        except Unsupported as e:
            self.unsupported = f"unsupported: {e}"
        except Budget as e:
            self.unsupported = f"budget: {e}"
        except RecursionError:
            self.unsupported = "unsupported: recursion too deep"
        except z3.Z3Exception as e:
            self.unsupported = f"solver error: {e}"
        except Exception as e:  # engine trouble: undecided, never a verdict
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(tb[-5:]))
            self.unsupported = f"engine: {type(e).__name__}: {e} at {where}"
            self.errors.append(traceback.format_exc())
        finally:
            CUR, _io.open = prev, kept_open
        return self


_NATIVE_OPEN = _io.open
OWN = []                # not empty while the prover itself calls another program (cvc5)


def open_by_library(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *rest, **more):
    """io.open while code is executed symbolically (pathlib opens its files with it): the stub the contract set up"""
    if CUR is None or isinstance(file, int):
        return _NATIVE_OPEN(file, mode, buffering, encoding, errors, newline, *rest, **more)
    hook = getattr(CUR, "open_hook", None)
    if hook is None or rest or more:
        raise Unsupported("a library opens a file")
    given = dict(buffering=buffering, encoding=None if encoding == "locale" else encoding, errors=errors, newline=newline)
    default = dict(buffering=-1, encoding=None, errors=None, newline=None)
    return hook(_os.fspath(file) if isinstance(file, _os.PathLike) else file, mode, **{k: v for k, v in given.items() if v != default[k]})


def no_real_writes(event, args):
    """nothing that is executed symbolically writes to a real file, creates, renames or removes one"""
    if CUR is None or OWN:
        return
    if event == "open":
        mode, flags = args[1], args[2]
        if (not (isinstance(flags, int) and flags & (_os.O_WRONLY | _os.O_RDWR | _os.O_CREAT | _os.O_TRUNC | _os.O_APPEND)) or isinstance(args[0], int)
                or args[0] == _os.devnull or "__pycache__" in str(args[0])):
            return
    elif event not in ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.chown", "os.system", "os.exec", "os.fork",
                       "os.kill", "os.posix_spawn", "subprocess.Popen", "shutil.rmtree", "shutil.move", "shutil.copyfile", "tempfile.mkstemp", "tempfile.mkdtemp", "socket.connect", "socket.bind"):
        return
    raise Unsupported(f"{event} during symbolic execution")


sys.addaudithook(no_real_writes)


def mentions(t, prefix):
    """does a constant whose name starts with prefix occur in t?"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            work.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(prefix):
                return True
            work.extend(x.children())
    return False


_QUANT = {}


def has_quantifier(f):
    k = f.get_id()
    r = _QUANT.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    seen, work, hit = set(), [f], False
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            hit = True
            break
        work.extend(x.children())
    _QUANT[k] = (f, hit)
    return hit


CUR = None


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CUR
