"""C12: extractors.extract_tracks_to_xrns puts every event in its cell; PatternPool.add_note fills one cell."""
import inspect
import z3
from engine import heap
from engine.core import Unsupported, PathCut
from engine.containers import SymSeq, SDict, Poison
from engine.loops import LoopSpec
from engine.symval import SymInt, SymStr, SymReal, is_intlike, mk_int, zi, Z, fmt, ordinary_names
from engine.unit import Unit
from .common import sym_range, model_int, eq, outcome, frame
from .model import SymState
from .chipstate import parameter_writes, recorded_snapshot
from . import chipstate

FUNCS = ["extractors:extract_tracks_to_xrns", "xrns.parts.song:Song.__init__", "xrns.parts.globals:Globals.__init__", "xrns.parts.track:Tracks.__init__",
         "xrns.parts.pattern:PatternPool.__init__", "xrns.parts.pattern_sequence:PatternSequence.__init__", "xrns.parts.pattern_sequence:PatternSequence.SequenceEntry.__init__",
         "xrns.parts.instrument:Instrument.__init__", "xrns.parts.track:SequencerTrack.__init__",
         "xrns.parts.pattern_sequence:PatternSequence.add_pattern", "vgm.ym2151.state:State.key_presses"]
ARGS = {"pattern", "channel", "line", "note", "instrument", "pan"}


def events_tag(t):
    """channel c if the sequence is key_presses(c), element by element"""
    while isinstance(t, tuple) and t:
        if t[0] == "key_presses":
            return t[1]
        if t[0] in ("enumerate", "map"):
            t = t[1]
            continue
        return None
    return None


class File:
    def __init__(self, name, mode):
        self.name, self.mode, self.closed, self.given = name, mode, 0, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed += 1

    def close(self):
        self.closed += 1

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"file method {n}")


class Fold:
    """ghost: add_note was called for the first k events of channel ch, in order"""

    def __init__(self, ch, k):
        self.ch, self.k = ch, k


class World:
    def __init__(self, ex):
        import extractors
        import xrns.writer
        from xrns.parts import pattern, pattern_sequence
        self.ex = ex
        self.S = SymState(ex, symbolic_live=False)
        self.T = sym_range(ex, "T", 1, None)
        self.name = SymStr.token(ex.fresh_int("track_filename"))
        self.files, self.written, self.trace, self.pools, self.seqs = [], [], [], [], []
        self.depth = 0
        self.at = None
        self.info = {"W": self, "ch": None, "k": None}
        W = self
        ordinary_names(ex)
        add = pattern.PatternPool.add_note
        init, sinit = pattern.PatternPool.__init__, pattern_sequence.PatternSequence.__init__
        sig = inspect.signature(add)
        if set(list(sig.parameters)[1:]) != ARGS:
            raise Unsupported("add_note takes other arguments")

        def pool_init(pool, *a, **k):
            init(pool, *a, **k)
            if not (isinstance(pool.patterns, list) and not pool.patterns):
                raise Unsupported("a fresh pattern pool is not empty")
            pool.patterns = SymSeq(0, lambda i: Poison("a pattern of the song"), tag="patterns", scalar=True)
            W.pools.append((pool, pool.patterns))

        def seq_init(seq, *a, **k):
            sinit(seq, *a, **k)
            if not (isinstance(seq.sequence_entries, list) and not seq.sequence_entries):
                raise Unsupported("a fresh play sequence is not empty")
            seq.sequence_entries = SymSeq(0, W.entry_at, tag="sequence")
            W.seqs.append((seq, seq.sequence_entries))

        def add_note(pool, *a, **k):
            b = sig.bind(pool, *a, **k)
            b.apply_defaults()
            x = {n: b.arguments[n] for n in ARGS}
            if not is_intlike(x["pattern"]):
                raise Unsupported("the pattern number is no integer")
            g = W.ghost(pool)
            W.trace.append((pool, x))
            p = zi(g.base_len)
            g.base_len = z3.simplify(z3.If(zi(x["pattern"]) >= p, zi(x["pattern"]) + 1, p))
        pattern.PatternPool.__init__, pattern.PatternPool.add_note = pool_init, add_note
        pattern_sequence.PatternSequence.__init__ = seq_init
        extractors.writer = xrns.writer.writer = lambda *a, **k: W.writer(*a, **k)
        ex.open_hook = lambda *a, **k: W.open(*a, **k)
        ex.loop_specs = self.find

    def entry_at(self, i):
        from xrns.parts.pattern_sequence import PatternSequence
        e = object.__new__(PatternSequence.SequenceEntry)
        heap.put(e, "pattern", mk_int(i, 0))
        return e

    def ghost(self, pool):
        for p, g in self.pools:
            if p is pool:
                if pool.patterns is not g or g.tail or g.log:
                    raise Unsupported("the patterns are handled outside add_note")
                return g
        raise Unsupported("a pattern pool of unknown origin")

    def open(self, name, mode="r", *a, **k):
        f = File(name, mode)
        self.files.append(f)
        return f

    def writer(self, *a, **k):
        if k or len(a) != 2:
            raise Unsupported("the writer is called differently")
        self.written.append((a[0], a[1], self.state_of(a[1]), getattr(a[0], "closed", 1) == 0))

    def state_of(self, song):
        """what the song is at the moment it is handed to the writer"""
        g = song.globals
        pool = song.pattern_pool
        return {"bpm": g.beats_per_min, "lpb": g.lines_per_beat, "trace": list(self.trace), "pool": pool, "P": zi(self.ghost(pool).base_len),
                "seq": song.pattern_sequence.sequence_entries, "tracks": song.tracks.tracks, "instruments": song.instruments}

    def find(self, site, kind, it, src):
        if kind != "for" or src is None:
            return None
        ch = events_tag(src.tag)
        if ch is not None:
            return EventSpec(self, ch, src)
        if src.tag == "range" or isinstance(src.tag, tuple) and src.tag[0] in ("enumerate", "map") or src.tag == "patterns":
            if z3.is_int_value(z3.simplify(src.n)):
                return None
            return SequenceSpec(self, src)
        return None


class EventSpec(LoopSpec):
    """invariant: add_note was called exactly for the events before k, in order"""

    def __init__(self, W, ch, src):
        self.W, self.ch, self.src = W, ch, src

    def havoc(self, ex, env, k):
        W = self.W
        if len(W.pools) != 1:
            raise Unsupported("not exactly one pattern pool")
        self.pool, self.g = W.pools[0]
        W.ghost(self.pool)
        p = ex.fresh_int("patterns")
        ex.assume(p >= zi(self.g.base_len))
        self.g.base_len = p
        W.trace.append(Fold(self.ch, k))
        self.mark = len(W.trace)
        W.info = {"W": W, "ch": self.ch, "k": k}
        return {}

    def allowed(self, path, label, obj):
        return obj is self.g and label == "base"

    def back(self, ex, env, k):
        W = self.W
        new = W.trace[self.mark:]
        info = dict(W.info)
        W.ghost(self.pool)
        e = W.S.events[self.ch].base_at(k)
        if len(new) != 1 or isinstance(new[0], Fold) or new[0][0] is not self.pool:
            if any(isinstance(x, Fold) for x in new):
                raise Unsupported("loops over events inside each other")
            ex.fail("C12.each-event-lands-once", f"an event causes {len(new)} notes", info)
            return
        x = new[0][1]
        nm = "C12.event-lands-in-its-cell"
        row = mk_int(zi(e.sample) / zi(W.T), 0)
        if not all(is_intlike(x[n]) for n in ("pattern", "channel", "line")):
            ex.fail(nm, f"the cell is {[x[n] for n in ('pattern', 'channel', 'line')]}", info)
            return
        ex.prove(nm, z3.And(zi(x["pattern"]) == zi(row) / 64, zi(x["line"]) == zi(row) % 64, zi(x["channel"]) == self.ch), info)
        kind, want = outcome(e.xrns_note)
        if kind == "exc":
            raise Unsupported("xrns_note raises")
        same_text(ex, "C12.cell-carries-the-note-name", x["note"], want, info)
        if ex.branch(zi(e.config_id) >= 0):
            ex.cover("on")
            same_text(ex, "C12.cell-carries-the-instrument", x["instrument"], fmt(e.config_id, "02X"), info)
        else:
            ex.cover("off")
            same_text(ex, "C12.off-event-has-no-instrument", x["instrument"], None, info)
        r, l = bool(e.right), bool(e.left)
        same_text(ex, "C12.cell-carries-the-panning", x["pan"], None if r and l else "00" if r else "F0", info)


def same_text(ex, name, got, want, info):
    if got is None or want is None:
        if got is want:
            ex.prove(name, True)
        else:
            ex.fail(name, f"{got!r} should be {want!r}", info)
        return
    if not isinstance(got, (str, SymStr)):
        ex.fail(name, f"{got!r} is no text", info)
        return
    if isinstance(got, str) and isinstance(want, str):
        if got == want:
            ex.prove(name, True)
        else:
            ex.fail(name, f"{got!r} should be {want!r}", info)
        return
    ex.prove(name, eq(got, want), info)


class SequenceSpec(LoopSpec):
    """invariant: the play sequence is 0, 1, ..., k-1"""

    def __init__(self, W, src):
        self.W, self.src = W, src

    def entry(self, ex, env):
        W = self.W
        if len(W.seqs) != 1:
            raise Unsupported("not exactly one play sequence")
        self.seq, self.g = W.seqs[0]
        if self.seq.sequence_entries is not self.g or self.g.tail or not z3.is_int_value(z3.simplify(zi(self.g.base_len))) or self.g.log:
            raise Unsupported("the play sequence is built differently")

    def havoc(self, ex, env, k):
        self.g.base_len = k
        self.n0 = len(self.W.trace)
        return {}

    def allowed(self, path, label, obj):
        return obj is self.g

    def back(self, ex, env, k):
        g = self.g
        if len(self.W.trace) != self.n0 or g.log or self.seq.sequence_entries is not g or len(g.tail) != 1:
            raise Unsupported("a loop over numbers does something else than playing one pattern")
        p = getattr(g.tail[0], "pattern", None)
        if not is_intlike(p):
            ex.fail("C12.patterns-are-played-in-order", f"entry for {p!r}", self.W.info)
            return
        ex.prove("C12.patterns-are-played-in-order", zi(p) == k, self.W.info)


def run(ex):
    import extractors
    glob = heap.Snapshot(heap.global_roots())
    W = World(ex)
    S, T = W.S, W.T
    snap = recorded_snapshot(S)
    live = heap.Snapshot([("state", S.st)])
    kind, r = outcome(lambda: extractors.extract_tracks_to_xrns(S.st, W.name, T))
    ex.loop_specs = lambda *a: None
    info = {"W": W, "ch": None, "k": None}
    if kind == "exc":
        for p in ("C12.no-exception", "C08.no-exception"):
            ex.fail(p, f"raises {type(r).__name__}: {r}", info)
        return
    ex.cover("started" if S.started else "empty")
    if len(W.written) != 1 or len(W.files) != 1:
        raise Unsupported("the song is not written by one call of the writer")
    f, song, s, was_open = W.written[0]
    ok = W.files[0] is f and f.mode in ("wb", "bw") and (f.name is W.name or isinstance(f.name, SymStr) and f.name.pieces == W.name.pieces)
    ex.prove("C12.song-goes-to-the-named-file", bool(ok and was_open and f.closed >= 1), info)
    # tempo
    b, nm = s["bpm"], "C12.tempo"
    if isinstance(b, bool) or not is_intlike(b):
        if isinstance(b, SymReal) or isinstance(b, float):
            ex.fail(nm, "the tempo is no whole number", info)
        else:
            ex.fail(nm, f"the tempo is {b!r}", info)
    else:
        t, x = zi(T), zi(b)
        ex.prove(nm, z3.And(x * (4 * t) <= 60 * 44100, (x + 1) * (4 * t) > 60 * 44100), info)
    ex.prove("C12.four-lines-per-beat", eq(s["lpb"], 4), info)
    # tracks, instruments
    ex.prove("C12.eight-tracks", isinstance(s["tracks"], list) and len(s["tracks"]) == 8 and is_intlike(s["pool"].tracks) and s["pool"].tracks == 8, info)
    if not isinstance(s["instruments"], (list, SymSeq)):
        raise Unsupported("the instruments are kept in another form")
    n = s["instruments"].len_term() if isinstance(s["instruments"], SymSeq) else Z(len(s["instruments"]))
    ex.prove("C12.one-instrument-entry-each", n == S.N, info)
    # events
    if any(not isinstance(x, Fold) for x in s["trace"]):
        raise Unsupported("notes are added outside a loop over the events")
    for c in range(8):
        fs = [x for x in s["trace"] if x.ch == c]
        inf = dict(info, ch=c)
        if z3.is_int_value(z3.simplify(S.evlen[c])):
            ex.prove("C12.every-event-is-exported", len(fs) == 0, inf)
            continue
        if not fs:
            ex.prove("C12.every-event-is-exported", S.evlen[c] == 0, inf)
            continue
        ex.prove("C12.every-event-is-exported", fs[0].k == S.evlen[c], inf)
        if len(fs) > 1:
            ex.cover("repeated")    # adding all events again, in the same order, ends in the same cells
            for x in fs[1:]:
                ex.prove("C12.every-event-is-exported", x.k == S.evlen[c], inf)
    # play sequence
    seq = s["seq"]
    if isinstance(seq, SymSeq):
        ex.prove("C12.every-pattern-is-played-once", seq.len_term() == s["P"], info)
        k = ex.fresh_int("k")
        ex.assume(z3.And(k >= 0, k < seq.len_term()))
        if ex.feasible():
            p = getattr(seq.sx_getitem(mk_int(k, 0)), "pattern", None)
            if is_intlike(p):
                ex.prove("C12.patterns-are-played-in-order", zi(p) == k, info)
            else:
                ex.fail("C12.patterns-are-played-in-order", f"entry for {p!r}", info)
    elif isinstance(seq, list):
        ex.prove("C12.every-pattern-is-played-once", s["P"] == len(seq), info)
        ex.prove("C12.patterns-are-played-in-order", all(is_intlike(getattr(e, "pattern", None)) and e.pattern == i for i, e in enumerate(seq)), info)
    else:
        raise Unsupported("the play sequence is kept in another form")
    for p in ("C08.export-keeps-recorded", "C12.export-keeps-the-analysis"):
        frame(ex, p, snap, None, info)
        frame(ex, p, live, None, info)
    frame(ex, "C19.shared-state-untouched", glob, lambda p, l, o: l in ("__init__", "add_note", "writer"), info)


def replay(m, info):
    """histories with an event like the one of the counterexample"""
    W = info["W"]
    S = W.S
    T = max(1, model_int(m, W.T))
    out = []
    evs = []
    if S.started:
        for c in range(8):
            for k in ([info["k"]] if info["ch"] == c and info["k"] is not None else []) + [Z(0), Z(1)]:
                if model_int(m, S.evlen[c]) > model_int(m, k) or info["k"] is k:
                    g = lambda f: m.eval(S.E[(c, f)](k), model_completion=True)
                    evs.append((max(0, g("sample").as_long()), c, max(-1, g("config_id").as_long()), g("octave").as_long() % 8, g("note").as_long() % 16,
                                z3.is_true(g("right")) if z3.is_bool(g("right")) else bool(g("right").as_long()),
                                z3.is_true(g("left")) if z3.is_bool(g("left")) else bool(g("left").as_long())))
    evs = sorted(set(evs))
    for shift in (1, 1000):
        h, t, ids = [], 0, 0
        for s, c, i, o, n, r, l in evs:
            s = min(s, 64 * T * 6 + T)
            if s > t:
                h.append(["b", s - t])
                t = s
            if i >= 0:
                want = min(i, 40)
                while ids < want:
                    h += [["w", 0x60 + (c + 1) % 8, ids], ["w", 8, 0x78 | (c + 1) % 8]]
                    ids += 1
            h += [["w", 0x20 | c, r << 7 | l << 6], ["w", 0x28 | c, o << 4 | n], ["w", 8, (0x78 if i >= 0 else 0) | c]]
        for tt in {T, max(1, T // shift)}:
            out.append({"history": h, "ticks": tt})
            out.append({"history": [["w", 8, 0x7F]] + h, "ticks": tt})
    return out


# ---------------------------------------------------------------- PatternPool.add_note
def dict_base(ex, nm):
    """an arbitrary lines dictionary"""
    has = ex.fresh_fn(nm + "_has", z3.IntSort(), z3.BoolSort())
    n = ex.fresh_int(nm + "_n")
    key = ex.fresh_fn(nm + "_key", z3.IntSort(), z3.IntSort())
    ex.assume(n >= 0)
    return SDict((), base_has=lambda t: has(t), base_get=lambda t: Poison("an earlier line"), base_order=(n, key), tag=nm)


class AppendSpec(LoopSpec):
    """invariant: the pool has the old patterns, followed by fresh empty ones"""

    def __init__(self, A):
        self.A = A

    def havoc(self, ex, env, k):
        A = self.A
        if self.A.used:
            raise Unsupported("several loops over the patterns")
        A.used = True
        L = ex.fresh_int("L")
        lo = A.P0 if k is None else A.P0 + k
        ex.assume(L >= lo)
        if k is not None:
            ex.assume(L == lo)
        # the loop stops as soon as the pattern exists
        ex.assume(z3.Or(L == A.P0, L <= zi(A.pattern) + 1))
        self.L = L
        A.g.base_len = L
        self.before = heap.Snapshot(heap.frame_roots() + [("pool", A.pool)])
        return {}

    def rounds(self, ex, k):
        ex.assume(self.L == self.A.P0 + k)          # one pattern per round, see back()

    def allowed(self, path, label, obj):
        return obj is self.A.g

    def back(self, ex, env, k):
        A, g = self.A, self.A.g
        if g.log or not z3.simplify(zi(g.base_len)).eq(z3.simplify(self.L)):
            raise Unsupported("the list of patterns is rebuilt")
        if len(g.tail) != 1:
            raise Unsupported("the loop does not add one pattern per turn")
        A.fresh_pattern(ex, g.tail[0])
        own = heap.Snapshot([("p", g.tail[0])])
        old = [q for i, (o, q, st) in own.objs.items() if i in self.before.objs and st is not None and not isinstance(o, type) and not heap.is_atom(o)]
        if old:
            ex.fail("C12.new-pattern-is-empty", f"the new pattern shares {old[:2]} with what is there already", A.info)
        ex.prove("C12.no-pattern-beyond-the-last-used", self.L + 1 <= zi(A.pattern) + 1, A.info)


class Adder:
    def __init__(self, ex):
        from xrns.parts.pattern import PatternPool, Pattern
        self.ex, self.cls = ex, Pattern
        self.tracks = ex.choose([1, 8])
        self.pool = PatternPool(self.tracks, 64)
        if not (isinstance(self.pool.patterns, list) and not self.pool.patterns):
            raise Unsupported("a fresh pattern pool is not empty")
        self.P0 = ex.fresh_int("P0")
        self.pattern = sym_range(ex, "pattern", 0, None)
        self.line = sym_range(ex, "line", 0, 63)
        self.channel = sym_range(ex, "channel", 0, self.tracks - 1)
        ex.assume(self.P0 >= 0)
        self.g = self.pool.patterns = SymSeq(self.P0, self.element, tag="patterns")
        self.used = False
        self.made = []
        self.info = {"A": self}
        ex.loop_specs = lambda site, kind, it, src: AppendSpec(self) if kind == "while" or (src is not None and src.tag == "range") else None

    def element(self, i):
        """an old pattern has arbitrary lines; a new one is as Pattern() makes it"""
        p = self.cls(self.tracks, 64)
        old = self.ex.branch(i < self.P0)
        if old:
            for c, t in enumerate(p.tracks):
                t.lines = dict_base(self.ex, f"lines{c}")
        self.made.append((i, p, old))
        return p

    def fresh_pattern(self, ex, p):
        nm = "C12.new-pattern-is-empty"
        if not isinstance(p, self.cls):
            ex.fail(nm, f"{type(p).__name__} in the pool", self.info)
            return
        ok = isinstance(p.tracks, list) and len(p.tracks) == self.tracks and len({id(t) for t in p.tracks}) == self.tracks
        ok = ok and all(len(t.lines) == 0 for t in p.tracks) and len({id(t.lines) for t in p.tracks}) == self.tracks
        ex.prove(nm, bool(ok), self.info)
        g = {i for i in heap.Snapshot(heap.global_roots()).objs}
        own = heap.Snapshot([("p", p)])
        shared = [pth for i, (o, pth, st) in own.objs.items() if i in g and isinstance(o, (list, dict, SDict, self.cls))]
        if shared:
            ex.fail(nm, f"the new pattern shares {shared[:2]}", self.info)


def add_unit(ex):
    from xrns.parts.pattern import PatternPool
    glob = heap.Snapshot(heap.global_roots())
    A = Adder(ex)
    note, ins, pan = (SymStr.token(ex.fresh_int(n)) for n in ("note", "instrument", "pan"))
    names = list(inspect.signature(PatternPool.add_note).parameters)[1:]
    if set(names) != ARGS:
        raise Unsupported("add_note takes other arguments")
    vals = {"pattern": A.pattern, "channel": A.channel, "line": A.line, "note": note, "instrument": ins, "pan": pan}
    kind, r = outcome(lambda: A.pool.add_note(**vals))
    ex.loop_specs = lambda *a: None
    if kind == "exc":
        ex.fail("C12.add-note-no-exception", f"raises {type(r).__name__}: {r}", A.info)
        return
    g = A.g
    if A.pool.patterns is not g or g.log:
        raise Unsupported("the list of patterns is replaced")
    p, P0 = zi(A.pattern), A.P0
    ex.prove("C12.pattern-exists-and-none-beyond", g.len_term() == z3.If(p >= P0, p + 1, P0), A.info)
    # the cell
    nm = "C12.note-is-stored-in-its-cell"
    el = g.sx_getitem(A.pattern)
    changed = []
    for i, q, old in A.made + [(None, x, False) for x in g.tail]:
        for c, t in enumerate(q.tracks):
            d = t.lines
            ent = (d.over if d.over is not None else [[k, v] for k, v in d.conc.items()]) if isinstance(d, SDict) else [[k, v] for k, v in d.items()]
            changed += [(q, c, k, v) for k, v in ent]
        if len(q.tracks) != A.tracks:
            ex.fail(nm, "the tracks of a pattern change", A.info)
            return
    if len(changed) != 1:
        ex.fail(nm, f"{len(changed)} cells are filled", A.info)
        return
    q, c, k, v = changed[0]
    ex.prove(nm, z3.And(z3.BoolVal(q is el), zi(k) == zi(A.line), zi(A.channel) == c), A.info)
    ok = all(isinstance(getattr(v, n, None), SymStr) and getattr(v, n).pieces == w.pieces for n, w in (("note", note), ("instrument", ins), ("pan", pan)))
    ex.prove("C12.line-carries-note-instrument-panning", ok, A.info)
    ex.cover("old" if any(o for _, _, o in A.made) else "new")
    for p_ in ("C12.shared-state-untouched", "C19.shared-state-untouched"):
        frame(ex, p_, glob, None, A.info)


def add_replay(m, info):
    A = info["A"]
    p, ln, c = (model_int(m, x) for x in (A.pattern, A.line, A.channel))
    p0 = min(model_int(m, A.P0), 6)
    out = []
    for tgt in (min(p, 7), p0, max(0, p0 - 1)):
        h = []
        t = 0
        for s in ([64 * 10 * (p0 - 1)] if p0 else []) + [640 * tgt + 10 * ln]:
            if s >= t:
                h += [["b", s - t], ["w", 8, 0x78 | c], ["w", 8, c]]
                t = s
        out.append({"history": h, "ticks": 10})
    return out


_a = Unit("extract_tracks_to_xrns", run, FUNCS, replay, cover=["started", "empty", "on", "off"],
          assumptions=["the song given to the writer is what is exported (C13)", "Note.xrns_note is the note name (C14)",
                       "numbers of instruments from 256 on have three hex digits"])
_b = Unit("PatternPool.add_note", add_unit, ["xrns.parts.pattern:PatternPool.add_note", "xrns.parts.pattern:Pattern.__init__",
                                             "xrns.parts.pattern:Pattern.Line.__init__", "xrns.parts.pattern:Pattern.PatternTrack.__init__"],
          add_replay, cover=["old", "new"])
UNITS = {"C12": [_a, _b], "C08": [_a], "C19": [_a, _b]}
