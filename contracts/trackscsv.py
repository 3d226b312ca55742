"""C16: extractors.extract_tracks writes one line per row, each with the last event of every channel in it.

The events of channel c are n(c) notes with samples S(c, 0) <= S(c, 1) <= ... (C06).  ROW(x) is x div T; what is used
of it is that it grows with x and is not negative.  The text of a note is an uninterpreted function of the note's
fields, never empty (proved of the real Note.__str__ below).  The specification of a cell is

    cell(c, w) = text of event q-1 of channel c if q > 0 and ROW(S(c, q-1)) == w, else empty,
    where q is a position with  (q == 0 or ROW(S(c, q-1)) <= w)  and  (q == n(c) or ROW(S(c, q)) > w)

so every witness q proves which text the line of row w must show."""
import z3
from engine import heap
from engine.core import Unsupported, PathCut
from engine.containers import SymSeq, SDict, Poison, _DEL
from engine.loops import LoopSpec, SymIter
from engine.symval import SymInt, SymBool, SymStr, SymReal, is_intlike, is_sym, mk_int, zi, zb, Z
from engine.unit import Unit
from .common import OutFile, outcome, frame, sym_range
from .model import SymState
from . import notes

FUNCS = ["extractors:extract_tracks", "tools:smart_open", "vgm.ym2151.state:State.key_presses"]
OVER = {"over": True}           # the invariants describe one way of walking the events; another one may be right too
CH, LINES, COLUMNS = 8, 64, 13
EMPTY = Z(0)
IMP = z3.Implies


class Ticks(SymInt):
    """the ticks per row: dividing by it is ROW"""
    __slots__ = ("W",)

    def __rfloordiv__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return SymInt(self.W.row(zi(o)), 0)

    def __rmod__(self, o):
        raise Unsupported("remainder by the ticks per row")

    def __rdivmod__(self, o):
        raise Unsupported("remainder by the ticks per row")


class Channels(SDict):
    """channel -> its event at position p(c), for the channels that have one"""

    def __init__(self, W, p):
        self.W, self.p = W, list(p)
        ex = W.ex
        i = z3.IntSort()
        self.key = ex.fresh_fn("channel_order", i, i)
        self.rank = ex.fresh_fn("channel_rank", i, i)
        there = [W.there(c, p[c]) for c in range(CH)]
        n = z3.Sum([z3.If(t, Z(1), Z(0)) for t in there])
        super().__init__(base_has=lambda t: z3.Or([z3.And(t == c, there[c]) for c in range(CH)]), base_get=None,
                         base_order=(n, self.order), tag="channels")
        for c in range(CH):
            ex.assume(IMP(there[c], z3.And(self.rank(c) >= 0, self.rank(c) < n, self.key(self.rank(c)) == c)))
        self.n, self.there = n, there

    def order(self, i):
        self.W.ex.assume(IMP(z3.And(i >= 0, i < self.n), self.base_has(self.key(i))))
        return self.key(i)

    def _base_value(self, k):
        t = z3.simplify(zi(k))
        if z3.is_int_value(t):
            c = t.as_long()
            return self.W.note(c, self.p[c]) if 0 <= c < CH else None
        W = self.W
        n = W.S.event_at(0, self.p[0])
        d = [heap.attrs(W.note(c, self.p[c])) for c in range(CH)]
        for f in list(heap.attrs(n)):
            if any(isinstance(x[f], SymBool) for x in d):
                v = zb(d[CH - 1][f])
                for c in range(CH - 2, -1, -1):
                    v = z3.If(t == c, zb(d[c][f]), v)
                heap.put(n, f, SymBool(v))
            else:
                v = zi(d[CH - 1][f])
                for c in range(CH - 2, -1, -1):
                    v = z3.If(t == c, zi(d[c][f]), v)
                heap.put(n, f, SymInt(v))
        W.remember(n)
        return n


def csv_class(W):
    """the file the lines go to: the text is taken apart as it comes"""
    class Csv(OutFile):
        def write(self, s):
            if self.closed:
                self.late = True
            if not isinstance(s, (str, SymStr)):
                raise TypeError("write() argument must be str")
            W.text(s)
            return len(s) if isinstance(s, str) else 0
    return Csv


class World:
    def __init__(self, ex):
        self.ex = ex
        ex.light = True
        self.S = SymState(ex, started=True, symbolic_live=False)
        S = self.S
        self.made = []
        self.n = S.evlen
        from vgm.ym2151.note import Note
        W = self
        self.lists = [SymSeq(S.evlen[c], (lambda i, c=c: W.note(c, i)), tag=("key_presses", c), scalar=True) for c in range(CH)]
        from .model import place_events
        place_events(S.st, self.lists)
        i = z3.IntSort()
        self.ROW = z3.Function("row_of_sample", i, i)
        self.args = []
        self.m = None
        self.texts = []
        fields = sorted(S.shape.elike)
        self.TXT = z3.Function("note_text", *[i] * (len(fields) + 1))

        def text(note):
            v = [heap.attrs(note)[f] for f in fields]
            t = W.TXT(*[z3.If(zb(x), Z(1), Z(0)) if isinstance(x, (bool, SymBool)) else zi(x) for x in v])
            ex.assume(t > 0)
            return SymStr.token(t)
        Note.__str__ = text
        self.fields = fields
        self.T = Ticks(ex.fresh_int("ticks"), 1)
        self.T.W = self
        ex.assume(self.T.t >= 1)
        self.w = None           # lines written (z3 term); None: not even the header
        self.buf = []
        self.p = [Z(0)] * CH    # ghost: events consumed
        self.files = []
        self.Csv = csv_class(self)
        self.phase = "before"
        ex.loop_specs = self.find
        ex.open_hook = self.open
        ex.token_nonempty = lambda t: t != EMPTY

    def open(self, name, mode="r", *a, **k):
        if a or set(k) - {"encoding", "newline", "buffering"}:
            raise Unsupported("open with other arguments")
        f = self.Csv(name, mode)
        self.files.append(f)
        return f

    # -- events
    def sample(self, c, i):
        return self.S.E[(c, "sample")](i)

    def there(self, c, p):
        return p < self.n[c]

    def note(self, c, i):
        return self.remember(self.S.event_at(c, i if z3.is_expr(i) else Z(i)))

    def remember(self, n):
        self.made.append((n, dict(heap.attrs(n))))
        return n

    def notes_untouched(self):
        for n, d in self.made:
            if set(heap.attrs(n)) != set(d) or any(heap.attrs(n)[f] is not d[f] for f in d):
                return False
        return True

    def row(self, t):
        """ROW(t) with the instances of its laws for the samples met so far"""
        t = z3.simplify(t)
        if not any(t.eq(x) for x in self.args):
            self.args.append(t)
            self.ex.assume(IMP(t >= 0, self.ROW(t) >= 0))
            if self.m is not None:
                self.mono(t, self.m)
        return self.ROW(t)

    def mono(self, x, t):
        """instance of: x <= t implies ROW(x) <= ROW(t)"""
        if not x.eq(t):
            y, r = self.ROW(x), self.ROW(t)
            self.ex.assume(z3.And(IMP(x <= t, y <= r), IMP(t <= x, r <= y)))

    def erow(self, c, i):
        return self.ROW(self.sample(c, z3.simplify(i)))

    def etext(self, c, i):
        i = z3.simplify(i)
        e = self.S.E
        t = self.TXT(*[z3.If(e[(c, f)](i), Z(1), Z(0)) if z3.is_bool(e[(c, f)](i)) else e[(c, f)](i) for f in self.fields])
        if not any(t.eq(x) for x in self.texts):
            self.texts.append(t)
            self.ex.assume(t > 0)
        return t

    def cell(self, c, q, w):
        q1 = z3.simplify(q - 1)
        return z3.If(z3.And(q > 0, self.erow(c, q1) == w), self.etext(c, q1), EMPTY)

    def facts(self, c, p):
        """what holds of the events around position p: they are in time order (C06)"""
        n, S = self.n[c], lambda i: self.sample(c, i)
        for i in (p - 1, p, p + 1):
            i = z3.simplify(i)
            self.ex.assume(IMP(z3.And(i >= 0, i < n), S(i) >= 0))
            self.ex.assume(IMP(z3.And(i >= 1, i < n), S(z3.simplify(i - 1)) <= S(i)))
            self.row(S(i))
            self.mono(S(z3.simplify(i - 1)), S(i))

    # -- the file
    def text(self, s):
        ps = [s] if isinstance(s, str) else s.pieces
        for q in ps:
            if not isinstance(q, str):
                self.buf.append(q)
                continue
            lines = q.split("\n")
            for j, x in enumerate(lines):
                if j:
                    self.line(self.buf)
                    self.buf = []
                if x:
                    self.buf.append(x)

    def line(self, ps):
        ex = self.ex
        row, cur = [], []
        for q in ps:
            if isinstance(q, str):
                parts = q.split(",")
                for j, x in enumerate(parts):
                    if j:
                        row.append(cur)
                        cur = []
                    if x:
                        cur.append(x)
            else:
                cur.append(q)
        row.append(cur)
        if self.w is None:
            if any(not isinstance(x, str) for f in row for x in f):
                raise Unsupported("the header is not plain text")
            names = ["".join(f) for f in row]
            ok = len(names) == COLUMNS and names[1:4] == ["Row", "Pattern", "Total Row"] and names[5:] == [f"Channel {c + 1}" for c in range(CH)]
            ex.prove("C16.header", bool(ok), OVER)
            self.w = Z(0)
            return
        w = self.w
        if len(row) != COLUMNS:
            ex.fail("C16.one-field-per-column", f"a line of {len(row)} fields", OVER)
            return
        ex.prove("C16.line-column", number(row[1]) == w % LINES, OVER)
        ex.prove("C16.pattern-column", number(row[2]) == w / LINES, OVER)
        ex.prove("C16.total-row-column", number(row[3]) == w, OVER)
        for f in (row[0], row[4]):
            if any(not isinstance(x, str) and x[0] != "fmt" for x in f):
                raise Unsupported("a note in another column")
        for c in range(CH):
            q = self.p[c]
            n = self.n[c]
            last = z3.And(z3.Or(q == 0, self.erow(c, q - 1) <= w), z3.Or(q == n, z3.And(q < n, self.erow(c, q) > w)))
            ex.prove("C16.cell-shows-the-last-event-of-its-row", z3.And(last, token(row[5 + c]) == self.cell(c, q, w)), OVER)
        self.w = z3.simplify(w + 1)

    # -- which loop is it
    def find(self, site, kind, it, src):
        if site.module.split(".")[-1] != "extractors":
            return None
        if kind == "while" and self.phase == "prologue":
            return Walk(self, site.names)
        if kind == "while" and self.phase == "body":
            return Gap(self, site.names)
        if kind == "for" and src is not None and src.tag == "range" and self.phase == "body":
            return Gap(self, site.names)
        if kind == "for" and self.phase == "body" and isinstance(it, range) and list(it) == list(range(CH)):
            return Advance(self, site.names)
        return None

    # -- the locals of the walk
    def same_everywhere(self, v):
        """this value may be used after states were merged: it is concrete (and compared), or the same in every run"""
        return isinstance(v, (int, str, OutFile)) or v is self.S.st or v is self.T or isinstance(v, (list, tuple)) and all(
            isinstance(x, (str, int)) for x in v)

    def plain(self, env, but=()):
        return {n: list(v) if isinstance(v, (list, tuple)) else v for n, v in env.items() if n not in but and isinstance(
            v, (int, str, list, tuple)) and self.same_everywhere(v)}

    def roles(self, env):
        r = {}
        for nm, v in env.items():
            what = None
            if isinstance(v, SDict):
                what = "pending"
            elif isinstance(v, list) and len(v) == CH and all(isinstance(x, SymIter) for x in v):
                what = "iterators"
            elif isinstance(v, list) and len(v) == CH and all(isinstance(x, (str, SymStr)) for x in v):
                what = "cells"
            if what:
                if what in r:
                    raise Unsupported(f"two candidates for the {what}")
                r[what] = nm
        if set(r) != {"pending", "iterators", "cells"}:
            raise Unsupported("the walk keeps its data in another form")
        return r

    def holds(self, env, p, w):
        """the data of the walk describe the state in which p(c) events of channel c are consumed and row w is being filled"""
        ex = self.ex
        r = self.roles(env)
        self.r = r
        D, its, cells = env[r["pending"]], env[r["iterators"]], env[r["cells"]]
        nm = "C16.walk-is-in-step"
        if isinstance(D, Channels):
            if any(not isinstance(k, int) or isinstance(k, bool) for k, v in D.over):
                raise Unsupported("the pending events are kept under other keys")
            over = {k: v for k, v in D.over}
        elif D.over is None:
            over = {c: D.conc.get(c, _DEL) for c in range(CH)}
            over.update({k: v for k, v in D.conc.items() if k not in over})
        else:
            raise Unsupported("the pending events are kept under other keys")
        if set(over) - set(range(CH)):
            raise Unsupported("the pending events are kept under other keys")
        for c in range(CH):
            here = self.there(c, p[c])
            if c not in over:
                if not D.p[c].eq(p[c]):
                    ex.prove(nm, z3.And(D.there[c] == here, IMP(here, D.p[c] == p[c])), OVER)
            elif over[c] is _DEL:
                ex.prove(nm, z3.Not(here), OVER)
            else:
                v = over[c]
                if type(v) is not type(self.S.shape.event_obj) or set(heap.attrs(v)) != set(self.fields):
                    raise Unsupported("something else than events is pending")
                same = []
                for f in self.fields:
                    t, x = self.S.E[(c, f)](z3.simplify(p[c])), heap.attrs(v)[f]
                    same.append(t == (zb(x) if z3.is_bool(t) else zi(x)))
                ex.prove(nm, z3.And(here, *same), OVER)
            it = its[c]
            if it.seq is not self.lists[c]:
                raise Unsupported("the iterators are kept in another order")
            ex.prove(nm, it.pos == z3.If(here, p[c] + 1, self.n[c]), OVER)
            ex.prove("C16.cell-shows-the-last-event-of-its-row", token_of(cells[c]) == self.cell(c, p[c], w), OVER)

    def place(self, env, p, w):
        """values of the locals in that state"""
        r = self.r
        its = []
        for c in range(CH):
            it = SymIter(self.lists[c])
            it.pos = z3.simplify(z3.If(self.there(c, p[c]), p[c] + 1, self.n[c]))
            its.append(it)
        D = Channels(self, p)
        cells = [SymStr.token(z3.simplify(self.cell(c, p[c], w))) if not z3.is_int_value(z3.simplify(self.cell(c, p[c], w))) else "" for c in range(CH)]
        self.own = [D, its, cells, *its]
        return {r["pending"]: D, r["iterators"]: its, r["cells"]: cells}

    def order(self, c, p, w):
        """consumed events are in rows up to w, the others from w on"""
        return z3.And(p >= 0, p <= self.n[c], IMP(p > 0, self.erow(c, p - 1) <= w), IMP(p < self.n[c], self.erow(c, p) >= w))

    def allowed(self, path, label, obj):
        return any(obj is o for o in self.own) or any(obj is f for f in self.files)

    def instances(self):
        """the smallest pending sample, at the position of every channel"""
        D = self.D
        for fact in self.ex.notes.get("ranked", []):
            for c in range(CH):
                self.ex.assume(IMP(D.there[c], fact(D.rank(c))))


def number(f):
    """the number a field shows"""
    if len(f) == 1 and isinstance(f[0], str):
        if f[0].isdigit() and str(int(f[0])) == f[0]:
            return Z(int(f[0]))
        raise Unsupported(f"a column shows {f[0]!r}")
    if len(f) == 1 and f[0][0] == "fmt" and f[0][1] in ("", "d") and f[0][2] in (None, "s", "r") and is_intlike(f[0][3]):
        return zi(f[0][3])
    raise Unsupported("a column shows no plain number")


def token(f):
    if not f:
        return EMPTY
    if len(f) == 1 and not isinstance(f[0], str) and f[0][0] == "tok":
        return f[0][1]
    raise Unsupported("a cell shows something else than a note")


def token_of(x):
    return token([x] if isinstance(x, str) and x else [] if isinstance(x, str) else x.pieces)


class Walk(LoopSpec):
    """the loop over the rows with events"""

    def __init__(self, W, names):
        self.W, self.names = W, names

    def entry(self, ex, env):
        W = self.W
        here = ex.decision_key()
        if ex.choose(["entry", "go"]) == "entry":
            for c in range(CH):
                W.facts(c, Z(0))
            W.holds(env, W.p, Z(0))
            if W.w is None or W.buf or not z3.is_int_value(W.w) or W.w.as_long():
                raise Unsupported("the loop does not start behind the header")
            self.rows(env)
            raise PathCut
        first = ex.shared.setdefault("C16", {"prologue": here, "late": {}, "same": W.plain(env)})
        if here != first["prologue"]:
            if first["same"] != W.plain(env):
                raise Unsupported("the data of the loop depend on which channels have events")
            raise PathCut                   # the state at the loop is the same, its body is explored once
        self.shared = first
        W.roles(env)
        W.r = W.roles(env)
        self.counters = self.rows(env)
        self.env = env

    def rows(self, env):
        """the counters that are 0 before the first row: they hold the row being filled"""
        return [n for n in self.names if n in env and is_intlike(env[n]) and not isinstance(env[n], bool) and zi(env[n]).eq(Z(0))]

    def havoc(self, ex, env, k):
        W = self.W
        ex.retract(W.base)
        W.args, W.texts = [], []
        W.m = None
        W.phase = "body"
        later = ex.choose([False, True])
        self.later = later
        if later:
            W.p = [ex.fresh_int(f"p{c}") for c in range(CH)]
            self.R = R = ex.fresh_int("R")
        else:
            W.p = [Z(0)] * CH
            self.R = R = Z(0)
        ex.assume(R >= 0)
        for c in range(CH):
            W.facts(c, W.p[c])
            ex.assume(W.order(c, W.p[c], R))
        if later:
            ex.assume(z3.Or([z3.And(W.p[c] > 0, W.erow(c, W.p[c] - 1) == R) for c in range(CH)]))
        W.w = R
        W.buf = []
        # ghost: the earliest pending event
        m = ex.fresh_int("earliest")
        there = [W.there(c, W.p[c]) for c in range(CH)]
        ex.assume(IMP(z3.Or(there), z3.And(z3.And([IMP(t, m <= W.sample(c, W.p[c])) for c, t in enumerate(there)]),
                                           z3.Or([z3.And(t, m == W.sample(c, W.p[c])) for c, t in enumerate(there)]))))
        W.cur = W.row(m)
        W.m = m
        for c in range(CH):
            W.mono(W.sample(c, W.p[c]), m)
        out = {}
        self.none = ex.loop_table.setdefault("locals that hold no row", set())
        if not self.learning:
            self.counters = [n for n in self.counters if n not in self.none]
        for n, v in env.items():
            if n in self.names and n not in out:
                if n in self.counters:
                    out[n] = SymInt(R, 0) if later else 0
                elif isinstance(v, (bool, SymBool)) or is_intlike(v):
                    continue                # see loops.Inferred
                else:
                    out[n] = Poison(f"local {n} after a round of the loop")
            elif not W.same_everywhere(v):
                out[n] = Poison(f"local {n} before the loop")
        W.kept = set(env) - set(out)
        if later:
            for n, what in self.shared["late"].items():
                if what == "int":
                    out[n] = SymInt(ex.fresh_weak(n))
        out.update(W.place(env, W.p, R))
        W.D = out[W.r["pending"]]
        self.p0 = list(W.p)
        return out

    def unsure(self, ov):
        return self.counters if len(self.counters) > 1 else []

    def learn(self, ex, env):
        self.latecomers(env)
        self.none.update(n for n in self.counters if len(self.counters) > 1 and not (
            is_intlike(env.get(n)) and ex._check(zi(env[n]) != self.W.cur) == z3.unsat))

    def allowed(self, path, label, obj):
        return self.W.allowed(path, label, obj)

    def back(self, ex, env, k):
        W = self.W
        if not W.notes_untouched():
            ex.fail("C08.export-keeps-recorded", "the export changes an event", OVER)
        if W.buf:
            raise Unsupported("a line is left unfinished")
        for c in range(CH):
            W.facts(c, W.p[c])
        cur = W.cur
        ex.prove("C16.row-of-the-earliest-pending-event", z3.And([zi(env[n]) == cur for n in self.counters]) if all(
            is_intlike(env[n]) for n in self.counters) else False, OVER)
        ex.prove("C16.every-row-once-in-order", W.w == cur, OVER)
        for c in range(CH):
            ex.prove("C16.events-row-by-row", W.order(c, W.p[c], cur), OVER)
        ex.prove("C16.the-row-being-filled-has-an-event", z3.Or([z3.And(W.p[c] > 0, W.erow(c, W.p[c] - 1) == cur) for c in range(CH)]), OVER)
        ex.prove("C16.walk-ends", z3.And(z3.And([W.p[c] >= self.p0[c] for c in range(CH)]), z3.Or([W.p[c] > self.p0[c] for c in range(CH)])), OVER)
        W.holds(env, W.p, cur)
        self.latecomers(env)

    def latecomers(self, env):
        """the locals that the first round creates"""
        for n in self.names:
            if n in self.env or n not in env:
                continue
            what = "int" if is_intlike(env[n]) and not isinstance(env[n], (bool, SymBool)) else "other"
            if self.later:
                if self.shared["late"].get(n) == "int" and what != "int":
                    raise Unsupported(f"local {n} changes its type")
            elif self.shared["late"].setdefault(n, what) != what:
                self.shared["late"][n] = "other"


class Gap(LoopSpec):
    """lines of rows without events: one per turn, up to the row of the earliest pending event"""

    def __init__(self, W, names):
        self.W, self.names = W, names

    def entry(self, ex, env):
        W = self.W
        if W.buf:
            raise Unsupported("a line is left unfinished")
        W.instances()
        self.w0 = W.w
        ex.prove("C16.every-row-once-in-order", W.w <= W.cur, OVER)
        self.rel = {n: z3.simplify(zi(env[n]) - W.w) for n in self.names if n in env and is_intlike(env[n])}
        self.rel = {n: d for n, d in self.rel.items() if z3.is_int_value(d)}

    def havoc(self, ex, env, k):
        W = self.W
        self.w = ex.fresh_int("w") if k is None else z3.simplify(self.w0 + k)
        ex.assume(z3.And(self.w >= self.w0, self.w <= W.cur))
        W.w = self.w
        return {n: SymInt(z3.simplify(self.w + d)) for n, d in self.rel.items()}

    def rounds(self, ex, k):
        ex.assume(self.w == self.w0 + k)            # one line per round, see back()

    def allowed(self, path, label, obj):
        return any(obj is f for f in self.W.files)

    def back(self, ex, env, k):
        W = self.W
        if W.buf:
            raise Unsupported("a line is left unfinished")
        ex.prove("C16.every-row-once-in-order", z3.And(W.w == self.w + 1, W.w <= W.cur, *[
            zi(env[n]) == W.w + d for n, d in self.rel.items()]) if all(is_intlike(env[n]) for n in self.rel) else False, OVER)


class Advance(LoopSpec):
    """the loop over the channels that moves those with an event in the row one event on"""

    def __init__(self, W, names):
        self.W, self.names = W, names

    def entry(self, ex, env):
        W = self.W
        W.instances()
        if W.buf:
            raise Unsupported("a line is left unfinished")
        W.holds(env, W.p, W.cur)
        self.here = ex.decision_key()
        self.rows = [n for n, v in env.items() if is_intlike(v) and not isinstance(v, (bool, SymBool, Ticks)) and ex._light(zi(v) != W.cur) == z3.unsat]
        self.env = env

    def havoc(self, ex, env, k):
        W = self.W
        out = {}
        if z3.is_int_value(k):
            self.ch = None
            q = [ex.fresh_int(f"q{c}") for c in range(CH)]
            for c in range(CH):
                ex.assume(q[c] == z3.If(z3.And(W.there(c, W.p[c]), W.erow(c, W.p[c]) == W.cur), W.p[c] + 1, W.p[c]))
                W.facts(c, q[c])
            W.p = q
        else:
            # every iteration is the same wherever the loop is entered from: it is explored once, from an arbitrary state
            first = ex.shared.setdefault("advance", (self.here, self.rows))
            if set(first[1]) - set(self.rows):
                raise Unsupported("the loop over the channels is entered in different states")
            if first[0] != self.here:
                raise PathCut
            self.ch = ch = ex.choose(list(range(CH)))
            ex.retract(W.base)
            ex.assume(k == ch)
            W.args, W.texts = [], []
            W.p = [ex.fresh_int(f"q{c}") for c in range(CH)]
            W.m = ex.fresh_int("earliest")
            W.cur = W.row(W.m)
            W.facts(ch, W.p[ch])
            ex.assume(W.order(ch, W.p[ch], W.cur))
            for n, v in env.items():
                if n in first[1]:
                    out[n] = SymInt(W.cur, 0)
                elif n not in W.kept or n in self.names:
                    out[n] = Poison(f"local {n} in the loop over the channels")
            self.pre = list(W.p)
        W.w1 = W.w
        out.update(W.place(env, W.p, W.cur))
        return out

    def item(self, ex, k, default):
        return self.ch

    def allowed(self, path, label, obj):
        return self.W.allowed(path, label, obj)

    def back(self, ex, env, k):
        W = self.W
        if not W.w.eq(W.w1) or W.buf:
            raise Unsupported("lines are written while the channels advance")
        ch, q = self.ch, self.pre[self.ch]
        W.p = list(self.pre)
        W.p[ch] = ex.fresh_int("next")
        ex.assume(W.p[ch] == z3.If(z3.And(W.there(ch, q), W.erow(ch, q) == W.cur), q + 1, q))
        W.facts(ch, W.p[ch])
        W.holds(env, W.p, W.cur)


def run(ex):
    import extractors
    W = World(ex)
    glob = heap.Snapshot(heap.global_roots())
    S = W.S
    state = heap.Snapshot([("state", S.st)])
    for c in range(CH):
        ex.assume(W.n[c] >= 0)
    W.base = len(ex.pc)
    W.phase = "prologue"
    name = "tracks.csv"
    kind, r = outcome(lambda: extractors.extract_tracks(S.st, name, W.T))
    if kind == "exc":
        ex.fail("C16.no-exception", f"raises {type(r).__name__}: {r}", OVER)
        return
    for p in ("C16.export-keeps-the-analysis", "C08.export-keeps-recorded"):
        frame(ex, p, state, None)
        ex.prove(p, W.notes_untouched())
    frame(ex, "C19.shared-state-untouched", glob, None)
    if W.phase != "body" or len(W.files) != 1:
        raise Unsupported("the tracks are not written by one walk to one file")
    f = W.files[0]
    ex.prove("C16.goes-to-the-named-file", bool(f.name == name and f.mode in ("w", "wt", "tw") and f.closed == 1 and not f.late), OVER)
    if W.buf:
        raise Unsupported("a line is left unfinished")
    for c in range(CH):
        ex.assume(IMP(W.n[c] > 0, W.sample(c, W.n[c] - 1) >= 0))
        W.erow(c, W.n[c] - 1)
    some = z3.Or([n > 0 for n in W.n])
    ex.prove("C16.lines-up-to-the-last-event", z3.If(some, z3.And(
        z3.And([IMP(n > 0, W.erow(c, n - 1) <= W.w - 1) for c, n in enumerate(W.n)]),
        z3.Or([z3.And(n > 0, W.erow(c, n - 1) == W.w - 1) for c, n in enumerate(W.n)])), W.w == 0), OVER)
    ex.cover("ends")


ASSUME = ["smart_open with a file name opens and closes that file (C18; its real code runs here, open() is stubbed)",
          "the events of a channel are in time order (C06)",
          "the Samples and Fraction columns are not specified"]


def lemma_unit(ex):
    """the laws of ROW hold of dividing by the ticks per row"""
    T, x, y = ex.fresh_int("T"), ex.fresh_int("x"), ex.fresh_int("y")
    ex.assume(T >= 1)
    ex.prove("C16.lemma-rows-follow-time", IMP(x <= y, x / T <= y / T))
    ex.prove("C16.lemma-rows-are-not-negative", IMP(x >= 0, x / T >= 0))


unit = Unit("extract_tracks", run, FUNCS, cover=["ends"], assumptions=ASSUME)
UNITS = {"C08": [unit], "C16": [unit, Unit("laws of the row numbers", lemma_unit, [])] + notes.UNITS["C16"], "C19": [unit]}
