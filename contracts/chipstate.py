"""C05-C09: the chip state under register writes and waits (vgm.ym2151.state, config, note)."""
import z3
from engine import heap
from engine.core import Unsupported, PathCut
from engine.containers import SymSeq, SSet
from engine.symval import SymInt, SymBool, SymEnum, is_intlike, mk_int, zi, zb, Z
from engine.unit import Unit
from spec import chip
from .common import sym_byte, sym_range, model_int, eq, outcome, frame
from . import model
from .model import SymState, as_int

STATE = ["vgm.ym2151.state:State.__init__", "vgm.ym2151.state:State.__getattr__", "vgm.ym2151.state:State.apply"]
COPY = ["vgm.ym2151.config:BaseConfig.__init__", "vgm.ym2151.config:BaseConfig.__deepcopy__", "vgm.ym2151.config:ChannelConfig.__init__",
        "vgm.ym2151.config:ChannelConfig.__deepcopy__", "vgm.ym2151.config:OperatorConfig.__init__", "vgm.ym2151.config:OperatorConfig.__deepcopy__",
        "vgm.ym2151.config:Config.__init__"]
COMPARE = ["vgm.ym2151.config:Config.compare", "vgm.ym2151.config:BaseConfig.__eq__", "vgm.ym2151.config:ChannelConfig.__eq__",
           "vgm.ym2151.config:OperatorConfig.__eq__"]
NOTE = ["vgm.ym2151.note:Note.__init__", "vgm.ym2151.config:NoteConfig.__init__"]


def command(reg, value):
    from vgm.ym2151.config import YM2151Command
    return YM2151Command(0x54, reg, value)


def live_is(ex, name, S, expected, info):
    """the current parameters are `expected` ({logical: value}); the graph is still a private tree"""
    now, out = S.live_now()
    cs, why = [], []
    for lg, want in expected.items():
        v = now[lg]
        if v is want:
            continue
        cs.append(eq_param(v, want))
    ex.prove(name, z3.And(*cs) if cs else True, info)
    return out


def eq_param(a, b):
    return as_int(a) == as_int(b)


def private_tree(ex, name, S, info):
    """no two parameters share an object, and none is shared with classes, defaults or modules"""
    S.live_now()
    if S.now_shared:
        ex.fail(name, f"the state shares objects: {S.now_shared[:2]}", info)
        return
    g = ex.shared.get("globals")
    if g is None or True:
        g = model.global_objects()
    hit = [(p, g[i][1]) for i, (p, o) in S.now_objects.items() if i in g]
    if hit:
        ex.fail(name, f"the state shares an object with {hit[:2]}", info)
        return
    ex.prove(name, True)


def recorded_snapshot(S):
    s = heap.Snapshot()
    s.add(S.st.configs, "configs")
    for c in range(8):
        s.add(S.st.key_presses(c), f"key_presses({c})")
    return s


def recorded_unchanged(ex, names, S, snap, info, but=()):
    """instruments and events are as before (except growth of the sequences in `but`)"""
    ok = S.st.configs is S.configs and all(S.st.key_presses(c) is S.events[c] for c in range(8))
    for nm in names:
        ex.prove(nm, ok, info)
        frame(ex, nm, snap, lambda p, l, o: any(o is b for b in but) and (l == "len" or l.startswith("[")), info)


# ---------------------------------------------------------------- ordinary register writes
def write_unit(lo, hi):
    def run(ex):
        reg = ex.choose([r for r in range(lo, hi) if r != chip.KEY])
        S = SymState(ex)
        value = sym_byte(ex, "value")
        info = {"reg": reg, "value": value, "S": S}
        snap = recorded_snapshot(S)
        clock = S.clock
        glob = heap.Snapshot(heap.global_roots())
        kind, e = outcome(lambda: S.st.apply(command(reg, value)))
        if kind == "exc":
            for p in ("C05.no-exception", "C06.no-exception", "C08.no-exception"):
                ex.fail(p, f"register {reg:#04x}: raises {type(e).__name__}: {e}", info)
            return
        want = dict(S.live)
        for scope, ch, slot, f, v in chip.effects(reg, value):
            lg = (f, ()) if scope == "base" else (f, (ch, slot)) if scope == "op" else (f, (ch,))
            want[lg] = v
        out = live_is(ex, "C05.register-map-and-frame", S, want, info)
        private_tree(ex, "C05.parameters-are-separate-objects", S, info)
        sh = S.shape
        ex.prove("C09.write-keeps-clock", eq(out[sh.clock], clock), info)
        if sh.gate:
            ex.prove("C06.write-keeps-gate", same_gate(out[sh.gate], S.gate if S.started else sh.gate_off), info)
        onsets_are(ex, "C09.write-keeps-onsets", S, out[sh.onsets], None, info)
        recorded_unchanged(ex, ("C06.write-adds-no-event", "C07.write-adds-no-instrument", "C08.write-keeps-recorded"), S, snap, info)
        for p in ("C05.shared-state-untouched", "C08.shared-state-untouched"):
            frame(ex, p, glob, None, info)
        ex.cover("started" if S.started else "not started")
    return run


def same_gate(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    return eq(a, b)


def onsets_are(ex, name, S, now, added, info):
    """the set of onsets is the old one, plus `added`"""
    x = ex.fresh_int("x")
    if isinstance(now, SSet):
        t = now.has_term(x)
    elif isinstance(now, (set, frozenset)) and all(isinstance(v, int) for v in now):
        t = z3.Or(*[x == v for v in now]) if now else z3.BoolVal(False)
    else:
        raise Unsupported("the set of onsets is kept in another form")
    old = S.has(x) if S.has is not None else z3.BoolVal(False)
    ex.prove(name, t == (z3.Or(old, x == zi(added)) if added is not None else old), info)


def history_replay(m, info):
    """a register history that reaches the parameters of the counterexample, then the write"""
    S = info["S"]
    reg, value = info["reg"], model_int(m, info["value"])
    h = []
    lv = {lg: model_int(m, as_int(v)) for lg, v in S.live.items()}
    key = []
    pre = parameter_writes(lv)
    other = [["w", 0x60 | (k % 8), 5] for k in range(8)]
    on = [["w", 8, 0x78 | c] for c in range(8)]
    w = ["w", reg, value]
    outs = []
    for started in (S.started, True, False):
        h = list(pre)
        if started:
            h = [["b", 7], ["w", 8, 0x08], ["b", 3]] + h
        outs.append({"history": h + [w] + [["b", 2]] + on})
        outs.append({"history": h + on + [["b", 4], w, ["b", 2]] + on})
        outs.append({"history": h + [w, ["b", 1], w]})
        outs.append({"history": [["b", 7]] + [x for c in range(8) for x in pre + [["w", 8, 0x78 | c]]] + [["b", 4], w, ["b", 2], w] + on})
        if reg == 8:
            outs.append({"history": h + on + [["w", 0x60, 0x33], ["w", 0x18, 3]] + on + pre + [w]})
    return outs


def parameter_writes(lv):
    """register writes that give every parameter the value lv[logical]"""
    g = lambda f, *i: lv.get((f, i), 0)
    out = [["w", 0x18, g("lfo")], ["w", 0x19, g("amp_md") & 127], ["w", 0x19, 128 | g("phs_md")], ["w", 0x1B, g("waveform") & 3],
           ["w", 0x0F, (g("noise", 7) & 1) << 7 | g("noise_freq", 7)]]
    for c in range(8):
        out += [["w", 0x20 | c, g("right", c) << 7 | g("left", c) << 6 | g("fb", c) << 3 | g("connection", c)],
                ["w", 0x28 | c, g("octave", c) << 4 | g("note", c)], ["w", 0x30 | c, g("key_fraction", c) << 2],
                ["w", 0x38 | c, g("pms", c) << 4 | g("ams", c)]]
        for s in range(4):
            k = c | s << 3
            out += [["w", 0x40 | k, g("first_detune", c, s) << 4 | g("multiply", c, s)], ["w", 0x60 | k, g("total_level", c, s)],
                    ["w", 0x80 | k, g("key_scale", c, s) << 6 | g("attack_rate", c, s)], ["w", 0xA0 | k, g("ase", c, s) << 7 | g("first_decay_rate", c, s)],
                    ["w", 0xC0 | k, g("second_detune", c, s) << 6 | g("second_decay_rate", c, s)],
                    ["w", 0xE0 | k, g("first_decay_level", c, s) << 4 | g("release_rate", c, s)]]
    return [w for w in out if w[2] or w[1] == 0x19]


# ---------------------------------------------------------------- key on / off
def key_unit(started, channels):
    def run(ex):
        S = SymState(ex, started=started)
        sh = S.shape
        ch = ex.choose(list(channels))
        value = sym_byte(ex, "value")
        ex.assume(value.t % 8 == ch)
        info = {"reg": 8, "value": value, "S": S}
        ops = z3.simplify((value.t / 8) % 16)
        snap = recorded_snapshot(S)
        glob = heap.Snapshot(heap.global_roots())
        n_ev = [len_term(S.st.key_presses(c)) for c in range(8)]
        kind, e = outcome(lambda: S.st.apply(command(8, value)))
        if kind == "exc":
            for p in ("C06.no-exception", "C07.no-exception", "C08.no-exception", "C09.no-exception"):
                ex.fail(p, f"key event raises {type(e).__name__}: {e}", info)
            return
        on = ex.branch(ops != 0)
        ex.cover("key-on" if on else "key-off")
        out = live_is(ex, "C05.key-write-keeps-parameters", S, dict(S.live), info)
        private_tree(ex, "C05.parameters-are-separate-objects", S, info)
        ex.prove("C09.write-keeps-clock", eq(out[sh.clock], S.clock), info)
        onsets_are(ex, "C09.onsets-are-key-on-times", S, out[sh.onsets], S.clock if on else None, info)
        if sh.gate:
            g = out[sh.gate]
            if S.started:
                ex.prove("C06.gate-open-after-first-key-on", gate_open(g, sh), info)
            else:
                ex.prove("C06.gate-opens-at-first-key-on", gate_open(g, sh) == on if isinstance(gate_open(g, sh), bool) else gate_open(g, sh), info)
        for p in ("C07.shared-state-untouched", "C08.shared-state-untouched", "C05.shared-state-untouched"):
            frame(ex, p, glob, None, info)
        # --- instruments
        tab = S.st.configs
        if isinstance(tab, SymSeq):
            new_cfg = list(tab.tail)
            if tab is not S.configs:
                raise Unsupported("the instrument table is replaced")
        else:
            if not isinstance(tab, list):
                raise Unsupported("the instrument table is not a list")
            new_cfg = list(tab)
        ev = S.st.key_presses(ch)
        new_ev = list(ev.tail) if isinstance(ev, SymSeq) else list(ev)
        recorded_unchanged(ex, ("C08.key-write-keeps-recorded", "C06.key-write-keeps-other-events", "C07.key-write-keeps-instruments"),
                           S, snap, info, but=(tab, ev))
        # --- events
        expected = 1 if (on or S.started) else 0
        ex.prove("C06.exactly-one-event", len(new_ev) == expected, info)
        if not on:
            ex.prove("C07.off-adds-no-instrument", len(new_cfg) == 0, info)
        if expected == 0 or len(new_ev) != 1:
            if on and not new_ev:
                ex.fail("C07.event-has-instrument", "no event", info)
            return
        n = new_ev[0]
        if set(heap.attrs(n)) != set(sh.elike):
            raise Unsupported("events keep other fields than expected")
        ex.prove("C06.event-time", eq(n.sample, S.clock), info)
        ex.prove("C09.event-time", eq(n.sample, S.clock), info)
        ex.prove("C06.event-note", z3.And(*[eq_param(getattr(n, f), S.live[(f, (ch,))]) for f in chip.NOTE]), info)
        ex.prove("C08.event-holds-plain-values", all(heap.is_atom(v) for v in heap.attrs(n).values()), info)
        if not on:
            ex.prove("C06.off-event", zi(n.config_id) < 0, info)
            ex.prove("C07.off-refers-to-no-instrument", zi(n.config_id) < 0, info)
            return
        ex.prove("C06.on-event", zi(n.config_id) >= 0, info)
        if not new_cfg:
            ex.cover("reused")
            if not S.started:
                ex.fail("C07.event-has-instrument", "key-on without an instrument", info)
                return
            k = zi(n.config_id)
            ex.prove("C07.id-is-a-position", z3.And(k >= 0, k < S.N), info)
            ex.prove("C07.instrument-equals-sound", S.same_sound(k, ch, ops), info)
            return
        ex.cover("added")
        ex.prove("C07.one-entry-added", len(new_cfg) == 1, info)
        ex.prove("C07.id-is-new-position", zi(n.config_id) == S.N, info)
        c = new_cfg[-1]
        view, cout, seen, shared = model.config_view(sh, c)
        cs = []
        for (f, idx), v in view.items():
            lg = (f, ()) if model.FIELDS[f] == "base" else (f, (ch,) + idx)
            cs.append(eq_param(v, S.live[lg]))
        cs.append(as_int(cout[sh.cops]) == ops)
        for p, kd in sh.cother.items():
            if kd == "id":
                cs.append(eq(cout[p], SymInt(S.N)))
        ex.prove("C07.new-entry-is-the-sound", z3.And(*cs), info)
        if S.started:
            j = ex.fresh_int("j")
            ex.prove("C07.new-entry-differs-from-all", z3.Implies(z3.And(j >= 0, j < S.N), z3.Not(S.same_sound(j, ch, ops))), info)
        # --- separation
        bad = list(shared)
        bad += [(p, S.now_objects[i][0]) for i, (p, o) in seen.items() if i in S.now_objects]
        g = model.global_objects()
        bad += [(p, g[i][1]) for i, (p, o) in seen.items() if i in g]
        old = S.configs.cache if isinstance(S.configs, SymSeq) else []
        for _, oc in old:
            _, so, _ = model.leaves(oc)
            bad += [(p, "an earlier instrument") for i, (p, o) in seen.items() if i in so]
        if bad:
            ex.fail("C08.instrument-shares-nothing", f"the new instrument shares {bad[:2]}", info)
        else:
            ex.prove("C08.instrument-shares-nothing", True)
    return run


def gate_open(g, sh):
    if g is None or g is False:
        return False
    if g is True:
        return True
    if sh.gate_kind == "int" and is_intlike(g):
        return True
    raise Unsupported("the key-off gate is kept in another form")


def len_term(x):
    return x.len_term() if isinstance(x, SymSeq) else Z(len(x))


# ---------------------------------------------------------------- construction, waits, onset list
def init_unit(ex):
    from vgm.ym2151.state import State
    glob = heap.Snapshot(heap.global_roots())
    st = State()
    sh = model.shape(ex)
    info = {}
    out, seen, shared = model.leaves(st, [st.configs] + [st.key_presses(c) for c in range(8)])
    ex.prove("C05.reset-parameters-are-zero", z3.And(*[as_int(out[p]) == 0 for p in sh.live.values()]))
    for pr in ("C05.parameters-are-separate-objects", "C08.parameters-are-separate-objects"):
        if shared:
            ex.fail(pr, f"a fresh state shares objects: {shared[:2]}")
        else:
            ex.prove(pr, True)
    lists = [st.configs] + [st.key_presses(c) for c in range(8)]
    sep = len({id(x) for x in lists}) == 9
    for pr in ("C06.fresh-state-has-no-events", "C07.fresh-state-has-no-instruments", "C08.event-lists-are-separate", "C09.fresh-state-has-no-onsets"):
        ex.prove(pr, sep and all(len(x) == 0 for x in lists) and len(out[sh.onsets]) == 0 and out[sh.clock] == 0)
    g = model.global_objects()
    hit = [(p, g[i][1]) for i, (p, o) in seen.items() if i in g] + [("list", g[id(x)][1]) for x in lists if id(x) in g]
    for pr in ("C05.fresh-state-is-private", "C08.fresh-state-is-private"):
        if hit:
            ex.fail(pr, f"a fresh state shares {hit[:2]}")
        else:
            ex.prove(pr, True)
    frame(ex, "C05.shared-state-untouched", glob)


def beat_unit(ex):
    S = SymState(ex)
    sh = S.shape
    n = sym_range(ex, "samples", 0, None)
    info = {"S": S, "n": n}
    snap = recorded_snapshot(S)
    glob = heap.Snapshot(heap.global_roots())
    kind, e = outcome(lambda: S.st.beat(n))
    if kind == "exc":
        ex.fail("C09.wait-advances-clock", f"raises {type(e).__name__}", info)
        return
    out = live_is(ex, "C09.wait-keeps-parameters", S, dict(S.live), info)
    ex.prove("C05.wait-keeps-parameters", True)
    ex.prove("C09.wait-advances-clock", eq(out[sh.clock], SymInt(S.clock.t + n.t)), info)
    onsets_are(ex, "C09.wait-keeps-onsets", S, out[sh.onsets], None, info)
    if sh.gate:
        ex.prove("C06.wait-keeps-gate", same_gate(out[sh.gate], S.gate if S.started else sh.gate_off), info)
    recorded_unchanged(ex, ("C06.wait-adds-no-event", "C07.wait-adds-no-instrument", "C08.wait-keeps-recorded", "C09.wait-changes-only-clock"), S, snap, info)
    frame(ex, "C09.shared-state-untouched", glob, None, info)
    ex.cover("started" if S.started else "not started")


def beat_replay(m, info):
    n = model_int(m, info["n"])
    n = min(n, 1 << 20)
    return [{"history": [["w", 8, 0x78], ["b", n], ["w", 8, 0], ["b", n], ["w", 8, 0x79]]},
            {"history": [["b", n], ["b", 3], ["w", 8, 0x78], ["b", 0], ["b", n], ["w", 8, 0x7A]]}]


def ticks_unit(ex):
    S = SymState(ex, symbolic_live=False)
    info = {}
    snap = recorded_snapshot(S)
    sh = S.shape
    kind, r = outcome(lambda: S.st.ticks())
    if kind == "exc":
        ex.fail("C09.onset-list", f"raises {type(r).__name__}", info)
        return
    _, out = S.live_now()
    onsets_are(ex, "C09.onset-list-keeps-onsets", S, out[sh.onsets], None, info)
    ex.prove("C09.onset-list-keeps-clock", eq(out[sh.clock], S.clock), info)
    recorded_unchanged(ex, ("C08.ticks-keeps-recorded", "C09.ticks-keeps-recorded"), S, snap, info)
    if not S.started:
        ex.cover("empty")
        if isinstance(r, SymSeq):
            ex.prove("C09.onset-list", r.len_term() == 0, info)
        else:
            ex.prove("C09.onset-list", isinstance(r, (list, tuple)) and len(r) == 0, info)
        return
    ex.cover("started")
    if not isinstance(r, SymSeq) or r.tail:
        raise Unsupported("the onset list is built in another form")
    n = r.len_term()
    i, j, x = ex.fresh_int("i"), ex.fresh_int("j"), ex.fresh_int("x")
    at = lambda k: zi(r.base_at(k))
    ri, rj = at(i), at(j)
    ex.prove("C09.onset-list-increasing", z3.Implies(z3.And(0 <= i, i < j, j < n), ri < rj), info)
    ex.prove("C09.onset-list-only-onsets", z3.Implies(z3.And(0 <= i, i < n), S.has(ri)), info)
    rank = getattr(r, "rank", None)
    if rank is None:
        raise Unsupported("the onset list is built in another form")
    k = rank(x)
    ex.prove("C09.onset-list-all-onsets", z3.Implies(S.has(x), z3.And(k >= 0, k < n, at(k) == x)), info)


def ticks_replay(m, info):
    return [{"history": [["w", 8, 0x78], ["b", 90], ["w", 8, 0x79], ["b", 10], ["w", 8, 1], ["b", 0], ["w", 8, 0x7A], ["w", 8, 0x7B]]},
            {"history": []}]


def views_unit(ex):
    """what the state and the instruments show under the names of the parameters"""
    from vgm.ym2151.config import create
    S = SymState(ex)
    info = {"S": S}
    snap = heap.Snapshot([("state", S.st)])
    glob = heap.Snapshot(heap.global_roots())

    def shows(name, o, want, what):
        """want: {attribute: expected value}"""
        for f, w in want.items():
            kind, v = outcome(lambda: getattr(o, f))
            if kind == "exc":
                ex.fail(name, f"{what}.{f} raises {type(v).__name__}", info)
                continue
            if isinstance(v, (tuple, list)) or v is None or isinstance(v, str):
                ex.fail(name, f"{what}.{f} is {v!r}"[:200], info)
                continue
            ex.prove(name, eq_param(v, w), info)

    kind, v = outcome(lambda: views(S, shows))
    if kind == "exc":
        for nm in ("C05.state-shows-its-parameters", "C07.instrument-shows-its-parameters"):
            ex.fail(nm, f"reading a parameter raises {type(v).__name__}: {v}", info)
        return
    r, d = sym_byte(ex, "reg"), sym_byte(ex, "value")
    c = create(r, d)
    ex.prove("C05.a-write-made-by-hand-is-that-write", z3.And(zi(c.reg) == r.t, zi(c.value) == d.t), info)
    frame(ex, "C05.reading-changes-nothing", snap, None, info)
    frame(ex, "C07.reading-changes-nothing", snap, None, info)
    frame(ex, "C05.shared-state-untouched", glob, None, info)
    ex.cover("started" if S.started else "not started")


def views_replay(m, info):
    """histories after which every parameter differs from its neighbours"""
    h = []
    for reg in list(range(0x18, 0x1C)) + [0x0F] + list(range(0x20, 0x100)):
        h.append(["w", reg, (reg * 37 + 11) % 256])
    return [{"history": h}, {"history": h + [["w", 8, 0x40 | c] for c in range(8)] + [["w", 8, 0x28 | c] for c in range(8)]}]


def views(S, shows):
    st, ex, nm = S.st, S.ex, "C05.state-shows-its-parameters"
    shows(nm, st, {f: S.live[(f, ())] for f in chip.BASE}, "state")
    for c in range(8):
        cc = st.channel_config(c)
        shows(nm, cc, {f: S.live[(f, (c,))] for f in chip.CHAN}, f"channel {c}")
        ops = list(cc.operators)
        ex.prove(nm, len(ops) == 4, {"S": S})
        for s, o in enumerate(ops[:4]):
            shows(nm, o, {f: S.live[(f, (c, s))] for f in chip.OPER}, f"channel {c} operator {s}")
        if S.started:
            ex.prove("C06.events-are-listed-per-channel", st.key_presses(c) is S.events[c])
    if not S.started:
        return
    nm = "C07.instrument-shows-its-parameters"
    k = ex.fresh_int("k")
    ex.assume(z3.And(k >= 0, k < S.N))
    e = st.configs[mk_int(k, 0)]
    val = lambda f, *i: mk_int(z3.If(S.F[(f, i)](k), Z(1), Z(0)) if z3.is_bool(S.F[(f, i)](k)) else S.F[(f, i)](k))
    shows(nm, e, {f: val(f) for f in chip.BASE + chip.CHAN}, "instrument")
    shows(nm, e, {"enabled_operators": mk_int(S.OPS(k))}, "instrument")
    ops = list(e.operators)
    ex.prove(nm, len(ops) == 4, {"S": S})
    for s, o in enumerate(ops[:4]):
        shows(nm, o, {f: val(f, s) for f in chip.OPER}, f"instrument operator {s}")


def lemma_unit(ex):
    """the per-operation contracts give the history properties (induction steps as lemmas)"""
    # C06/C09: an event appended with the current clock keeps every event list ordered in time,
    # because recorded times never exceed the clock and the clock never decreases
    t, last, clock, d = z3.Ints("t last clock d")
    ex.prove("C06.lemma-time-order", z3.Implies(z3.And(last <= clock, d >= 0, t == clock), z3.And(last <= t, t <= clock + d)))
    # C07: a table that grows only by an entry different from all old ones stays duplicate free, and
    # two key-ons get the same id iff their parameters are equal
    P = z3.Function("P", z3.IntSort(), z3.IntSort())
    N, i, j = z3.Ints("N i j")
    inv = lambda n: z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), P(i) != P(j)))
    a, b = z3.Ints("a b")
    s = z3.And(inv(N), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), P(i) != P(N))), N >= 0)
    ex.prove("C07.lemma-duplicate-free", z3.Implies(z3.And(s, 0 <= a, a < b, b < N + 1), P(a) != P(b)))
    ex.prove("C07.lemma-same-id-iff-equal", z3.Implies(z3.And(inv(N), 0 <= a, a < N, 0 <= b, b < N), (a == b) == (P(a) == P(b))))


SYS = ["objects of the state are reached only through the state (no aliases kept by callers)"]
writes = [Unit(f"State.apply, registers {lo:#04x}..{hi - 1:#04x}", write_unit(lo, hi), STATE, replay=history_replay, cover=["started", "not started"], assumptions=SYS)
          for lo, hi in ((0, 0x20), (0x20, 0x40), (0x40, 0x80), (0x80, 0xC0), (0xC0, 0x100))]
keys = [Unit(f"State.apply, key register, after the first key-on, channels {a}..{b - 1}", key_unit(True, range(a, b)), STATE + COPY + COMPARE + NOTE,
             replay=history_replay, cover=["key-on", "key-off", "reused", "added"], assumptions=SYS) for a, b in ((0, 2), (2, 4), (4, 6), (6, 8))]
keys.append(Unit("State.apply, key register, before the first key-on", key_unit(False, range(8)), STATE + COPY + COMPARE + NOTE, replay=history_replay,
                 cover=["key-on", "key-off", "added"], assumptions=SYS))
init = Unit("State() ", init_unit, ["vgm.ym2151.state:State.__init__"] + COPY)
beat = Unit("State.beat", beat_unit, ["vgm.ym2151.state:State.beat"], replay=beat_replay, cover=["started", "not started"], assumptions=["waits are not negative (C02)"])
ticks = Unit("State.ticks", ticks_unit, ["vgm.ym2151.state:State.ticks"], replay=ticks_replay, cover=["started", "empty"],
             assumptions=["list(set) enumerates a set without repetition and sorted() orders it (Python library)"])
lemmas = Unit("history lemmas", lemma_unit, [])
shown = Unit("parameters by name", views_unit, ["vgm.ym2151.config:Config.__getattr__", "vgm.ym2151.config:create", "vgm.ym2151.state:State.__getattr__",
                                                "vgm.ym2151.state:State.channel_config", "vgm.ym2151.state:State.key_presses"], replay=views_replay, cover=["started", "not started"])
UNITS = {p: [init] + writes + keys + [beat, ticks, lemmas] for p in ("C05", "C06", "C07", "C08", "C09")}
UNITS["C05"] = [init] + writes + keys + [shown]
UNITS["C06"] = [init] + writes + keys + [beat, lemmas]
UNITS["C07"] = [init] + writes + keys + [beat, lemmas, shown]
