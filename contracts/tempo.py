"""C11: State.ticks_per_note returns the smallest shift in 1000..7999 with the fewest unpaired onsets.

The mismatch of a shift d over the onsets T(0) < ... < T(n-1) inside the window is, by definition,
D(d) = U(d, n) + V(d, n) where the counters are given by recursion over the prefix length:
U(d, i+1) = U(d, i) + [T(i) - d is no onset of the window], V(d, i+1) = V(d, i) + [T(i) + d < T(n-1) is no onset of
the window].  Counting over any strictly increasing enumeration of the window's onsets gives the same numbers;
that the list the code walks is such an enumeration is proved first."""
import z3
from engine import heap
from engine.core import Unsupported, PathCut
from engine.containers import SymSeq
from engine.loops import LoopSpec
from engine.symval import SymInt, SymBool, is_intlike, mk_int, zi, Z
from engine.unit import Unit
from .common import eq, outcome, frame
from .model import SymState
from .chipstate import recorded_snapshot, recorded_unchanged

WINDOW, LO, HI = 32000, 1000, 8000
FUNCS = ["vgm.ym2151.state:State.ticks_per_note", "vgm.ym2151.state:State.ticks"]
OVER = {"over": True}           # the loop invariants describe this way of counting; another way may be right too
IMPLIED = z3.Implies


class Onsets:
    """the list of onsets the code walks, proved to enumerate the window in increasing order"""

    def __init__(self, W, seq):
        ex = W.ex
        self.W, self.seq = W, seq
        i = z3.IntSort()
        self.U, self.V = z3.Function("unpaired_late", i, i, i), z3.Function("unpaired_early", i, i, i)
        if isinstance(seq, (list, tuple)):
            if seq:
                raise Unsupported("a concrete list of onsets")
            self.n = Z(0)
            self.at = lambda k: Z(-1)
            ex.prove("C11.walks-the-window", z3.Not(W.member(ex.fresh_int("x"))), OVER)
            self.rank = lambda x: Z(0)
            return
        if not isinstance(seq, SymSeq) or seq.tail or seq.log:
            raise Unsupported("the onsets are kept in another form")
        self.n = seq.len_term()
        j = z3.Int("onset_index")
        e1, e2 = zi(seq.base_elem(j)), zi(seq.base_elem(j))
        if not e1.eq(e2):
            raise Unsupported("the onsets are no function of their position")
        seq.scalar = True           # numbers: no identity
        self.at = lambda k: z3.simplify(z3.substitute(e1, (j, k if z3.is_expr(k) else Z(k))))
        ranks = [s.rank for s in W.enums if getattr(s, "rank", None) is not None]
        if not ranks:
            raise Unsupported("the onsets come from elsewhere")
        fo = getattr(seq, "filter_of", None)
        r = ranks[-1]
        if fo is not None:
            h = fo[2]
            self.rank = lambda x: h(r(x))
        else:
            self.rank = r
        a, b, x = ex.fresh_int("a"), ex.fresh_int("b"), ex.fresh_int("x")
        ra, rb = self.at(a), self.at(b)
        ex.prove("C11.walks-in-order", IMPLIED(z3.And(0 <= a, a < b, b < self.n), ra < rb), OVER)
        ex.prove("C11.walks-only-the-window", IMPLIED(z3.And(0 <= a, a < self.n), W.member(ra)), OVER)
        k = self.rank(x)
        ex.prove("C11.walks-the-window", IMPLIED(W.member(x), z3.And(k >= 0, k < self.n, self.at(k) == x)), OVER)
        # lemma, by induction over i: from an index s0 on whose delayed onset is not before the last onset, V is constant
        d, s0, i = ex.fresh_int("d"), ex.fresh_int("s0"), ex.fresh_int("i")
        ex.prove("C11.lemma-no-count-behind-the-last", IMPLIED(
            z3.And(0 <= s0, s0 <= i, i < self.n, d >= 0, self.at(s0) + d >= self.last(), IMPLIED(s0 < i, self.at(s0) < self.at(i)),
                   self.V(d, i) == self.V(d, s0), self.step_v(d, i)), self.V(d, i + 1) == self.V(d, s0)), OVER)

        # lemmas, by induction over i: the i-th onset is at least i, so the window has at most WINDOW onsets; no counter
        # exceeds the number of onsets it has passed
        ex.prove("C11.lemma-window-size", z3.And(
            IMPLIED(self.n > 0, self.at(Z(0)) >= 0),
            IMPLIED(z3.And(0 <= i, i + 1 < self.n, self.at(i) >= i, self.at(i) < self.at(i + 1)), self.at(i + 1) >= i + 1),
            IMPLIED(z3.And(0 <= i, i < self.n, self.at(i) >= i, W.member(self.at(i))), i < WINDOW)), OVER)
        ex.prove("C11.lemma-counters-are-small", IMPLIED(
            z3.And(0 <= i, i < self.n, 0 <= self.U(d, i), self.U(d, i) <= i, 0 <= self.V(d, i), self.V(d, i) <= i, self.step_u(d, i), self.step_v(d, i)),
            z3.And(0 <= self.U(d, i + 1), self.U(d, i + 1) <= i + 1, 0 <= self.V(d, i + 1), self.V(d, i + 1) <= i + 1)), OVER)
        ex.assume(self.n <= WINDOW)

    def mismatches(self, d):
        """D(d), between 0 and twice the number of onsets"""
        self.W.ex.assume(z3.And(self.W.D(d) >= 0, self.W.D(d) <= 2 * self.n, self.n <= WINDOW))
        return SymInt(self.W.D(d), 0, 2 * WINDOW)

    def last(self):
        return self.at(z3.simplify(self.n - 1))

    def step_u(self, d, i):
        return IMPLIED(z3.And(0 <= i, i < self.n), self.U(d, i + 1) == self.U(d, i) + z3.If(self.W.member(self.at(i) - d), Z(0), Z(1)))

    def step_v(self, d, i):
        x = self.at(i) + d
        return IMPLIED(z3.And(0 <= i, i < self.n), self.V(d, i + 1) == self.V(d, i) + z3.If(z3.And(x < self.last(), z3.Not(self.W.member(x))), Z(1), Z(0)))

    def total(self, d):
        """definition of D at one shift"""
        return z3.And(self.W.D(d) == self.U(d, self.n) + self.V(d, self.n), self.U(d, 0) == 0, self.V(d, 0) == 0)

    def constant_behind(self, d, s0):
        """instance of the lemma"""
        return IMPLIED(z3.And(0 <= s0, s0 < self.n, self.at(s0) + d >= self.last()), self.V(d, self.n) == self.V(d, s0))

    def instances(self, d, ti, si):
        """instances, for two positions, of what was proved of the list"""
        ex, n = self.W.ex, self.n
        if z3.is_int_value(n):
            return
        xs = [self.at(ti) - d, self.at(si) + d]
        rs = [self.rank(x) for x in xs]
        for x, r in zip(xs, rs):
            ex.assume(IMPLIED(self.W.member(x), z3.And(r >= 0, r < n, self.at(r) == x)))
        idx = [ti - 1, ti, si - 1, si, n - 1, *rs]
        idx = [z3.simplify(i) for i in idx]
        for a in idx:
            ex.assume(IMPLIED(z3.And(0 <= a, a < n), self.W.member(self.at(a))))
            for b in idx:
                ex.assume(IMPLIED(z3.And(0 <= a, a < b, b < n), self.at(a) < self.at(b)))


class World:
    def __init__(self, ex):
        self.ex = ex
        self.S = SymState(ex, symbolic_live=False)
        self.D = z3.Function("mismatch", z3.IntSort(), z3.IntSort())
        self.on = {}
        ex.loop_specs = self.find

    @property
    def enums(self):
        return self.ex.notes.get("enums", [])

    def member(self, x):
        """x is an onset within the window"""
        if self.S.has is None:
            return z3.BoolVal(False)
        return z3.And(self.S.has(x), x < WINDOW)

    def onsets(self, seq):
        k = id(seq)
        if k not in self.on:
            self.on[k] = Onsets(self, seq)
        return self.on[k]

    def find(self, site, kind, it, src):
        if site.func.split(".")[-1] != "ticks_per_note":
            return None
        if kind == "while":
            return CountSpec(self, site.names)
        if isinstance(it, range) and len(it) > 300:
            return ShiftSpec(self, it, site.names)
        return None


def ints(env, names):
    if any(n not in env for n in names):
        raise Unsupported("the loop keeps its data under other names")
    if any(not is_intlike(env[n]) for n in names):
        raise Unsupported("the loop keeps its data in another form")
    return [zi(env[n]) for n in names]


class ShiftSpec(LoopSpec):
    """invariant: the list of results holds D of the shifts tried so far"""

    def __init__(self, W, it, names):
        self.W, self.it, self.names = W, it, names

    def at(self, k):
        return z3.simplify(Z(self.it.start) + k * self.it.step)

    def entry(self, ex, env):
        if "ticks" not in env:
            raise Unsupported("the loop keeps its data under other names")
        self.T = self.W.onsets(env["ticks"])
        names = [n for n, v in env.items() if isinstance(v, list) and not v and v is not env["ticks"]]
        if len(names) != 1:
            raise Unsupported("cannot find the list of results")
        self.name = names[0]

    def havoc(self, ex, env, k):
        W = self.W
        n = ex.fresh_int("tried")
        ex.assume(n == k)
        self.corr = SymSeq(n, lambda i: self.T.mismatches(self.at(i)), tag="results", scalar=True)
        out = {self.name: self.corr}
        if not z3.eq(z3.simplify(k), Z(len(self.it))):
            W.d = self.at(k)
            ex.assume(self.T.total(W.d))
        return out

    def allowed(self, path, label, obj):
        return obj is self.corr

    def back(self, ex, env, k):
        W, T, d = self.W, self.T, self.at(k)
        if env.get(self.name) is not self.corr or env["ticks"] is not T.seq or self.corr.log:
            raise Unsupported("the list of results is replaced")
        if len(self.corr.tail) != 1 or not is_intlike(self.corr.tail[0]):
            raise Unsupported("not one number per shift")
        if is_intlike(env.get("s_idx", None)) and is_intlike(env.get("t_idx", None)):
            ti, si = zi(env["t_idx"]), zi(env["s_idx"])
            for i in (si - 1, si):
                ex.assume(T.constant_behind(d, z3.simplify(i)))
            T.instances(d, ti, si)
        ex.prove("C11.mismatch-of-every-shift", zi(self.corr.tail[0]) == W.D(d), OVER)


class CountSpec(LoopSpec):
    """invariant of the counting loops: everything before the two positions is counted, and nothing before one
    position can be the partner of what is at or behind the other"""

    def __init__(self, W, names):
        self.W, self.names = W, names

    def holds(self, ti, si, diff, t, s, d):
        T = self.T
        a, b = self.lower
        return z3.And(ti >= a, si >= b, 0 <= ti, ti < T.n, 0 <= si, si <= ti, t == T.at(ti), s == T.at(si) + d, diff == T.U(d, ti) + T.V(d, si),
                      IMPLIED(si > 0, T.at(z3.simplify(si - 1)) + d < T.at(ti)), IMPLIED(ti > 0, T.at(z3.simplify(ti - 1)) < T.at(si) + d))

    def entry(self, ex, env):
        d = ints(env, ["shift"])[0]
        if "ticks" not in env:
            raise Unsupported("the loop keeps its data under other names")
        self.T = self.W.onsets(env["ticks"])
        self.shift = env["shift"]
        self.d = d
        self.lower = ints(env, ["t_idx", "s_idx"])      # positions never go back
        self.check(ex, env)

    def check(self, ex, env):
        vs = ints(env, ["t_idx", "s_idx", "sym_diff", "t", "s"])
        self.T.instances(self.d, vs[0], vs[1])
        ex.prove("C11.counts-what-is-passed", self.holds(*vs, self.d), OVER)
        return vs

    def havoc(self, ex, env, k):
        T, d = self.T, self.d
        ti, si, diff = (ex.fresh_int(x) if x in self.names else zi(env[x]) for x in ("t_idx", "s_idx", "sym_diff"))
        t, s = T.at(ti) if "t" in self.names else zi(env["t"]), T.at(si) + d if "s" in self.names else zi(env["s"])
        ex.assume(self.holds(ti, si, diff, t, s, d))
        ex.assume(z3.And(T.step_u(d, ti), T.step_v(d, si)))
        T.instances(d, ti, si)
        self.start = (ti, si)
        return {"t_idx": SymInt(ti, 0), "s_idx": SymInt(si, 0), "sym_diff": SymInt(diff), "t": SymInt(t), "s": SymInt(s)}

    def back(self, ex, env, k):
        if env.get("shift") is not self.shift or env.get("ticks") is not self.T.seq:
            raise Unsupported("the loop changes the shift or the onsets")
        ti, si, *_ = self.check(ex, env)
        # terminates: both positions only grow, one of them does, and both stay below n
        ex.prove("C11.counting-terminates", z3.And(ti >= self.start[0], si >= self.start[1], ti + si > self.start[0] + self.start[1]), OVER)


def tempo_unit(progress):
    def run(ex):
        ex.light = True
        W = World(ex)
        S = W.S
        snap = recorded_snapshot(S)
        whole = heap.Snapshot([("state", S.st)])
        kind, r = outcome(lambda: S.st.ticks_per_note(show_progress=True) if progress else S.st.ticks_per_note())
        if kind == "exc":
            ex.fail("C11.returns-a-shift", f"raises {type(r).__name__}: {r}")
            return
        ex.cover("started" if S.started else "silent")
        frame(ex, "C11.estimation-keeps-the-analysis", whole, lambda p, l, o: False)
        recorded_unchanged(ex, ("C08.tempo-keeps-recorded",), S, snap, None)
        if not is_intlike(r):
            raise Unsupported(f"the result is of type {type(r).__name__}")
        rt = zi(r)
        j = ex.fresh_int("shift")
        ex.assume(z3.And(j >= LO, j < HI))
        for fact in ex.notes.get("ranked", []):
            ex.assume(fact(j - LO))
        for T in W.on.values():
            ex.assume(z3.And(T.total(j), T.total(rt)))
        ex.prove("C11.returns-a-shift", z3.And(rt >= LO, rt < HI), OVER)
        ex.prove("C11.no-shift-is-better", W.D(j) >= W.D(rt), OVER)
        ex.prove("C11.smallest-on-ties", IMPLIED(j < rt, W.D(j) > W.D(rt)), OVER)
    return run


ASSUME = ["list(set) enumerates a set without repetition and sorted() orders it, stably (Python library)"]
units = [Unit("State.ticks_per_note", tempo_unit(False), FUNCS, cover=["started", "silent"], assumptions=ASSUME),
         Unit("State.ticks_per_note with progress", tempo_unit(True), FUNCS, cover=["started", "silent"], assumptions=ASSUME)]
UNITS = {p: units for p in ("C08", "C11", "C19")}
