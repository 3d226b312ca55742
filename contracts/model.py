"""Symbolic pre-states built on the real object graph of the code under test.

The abstraction function reads the parameters of the chip by their public names wherever the real
objects keep them; anything it does not recognise leaves the unit undecided."""
import enum
import types
import z3
from engine import heap
from engine.core import Unsupported
from engine.containers import SymSeq, SSet, SDict, Poison
from engine.symval import SymInt, SymBool, SymEnum, is_sym, is_intlike, mk_int, zi, zb, Z
from spec import chip
from .common import eq, sym_byte

FIELDS = {f: "base" for f in chip.BASE} | {f: "ch" for f in chip.CHAN} | {f: "op" for f in chip.OPER} | {f: "note" for f in chip.NOTE}
ARITY = {"base": 0, "ch": 1, "op": 2, "note": 1}


# ---------------------------------------------------------------- object graphs as trees of named leaves
def steps(o):
    if isinstance(o, list):
        return [(("i", i), x) for i, x in enumerate(o)]
    if isinstance(o, tuple):
        return [(("t", i), x) for i, x in enumerate(o)]
    if isinstance(o, (dict,)):
        return [(("k", k), x) for k, x in o.items()]
    if isinstance(o, SDict):
        if o.base_has is not None or o.over is not None:
            raise Unsupported("symbolic dictionary in the chip state")
        return [(("k", k), x) for k, x in o.conc.items()]
    if isinstance(o, (SymSeq, SSet, type, types.ModuleType, types.FunctionType, types.MethodType)):
        return None
    d = heap.attrs(o)
    return None if d is None else [(("a", k), x) for k, x in d.items()]


def leaves(o, skip=(), path=(), out=None, seen=None, shared=None):
    """{path: value} and the list of inner objects; shared collects objects met twice"""
    if out is None:
        out, seen, shared = {}, {}, []
    if heap.is_atom(o) or isinstance(o, (SymSeq, SSet, set, frozenset)):
        out[path] = o
        return out, seen, shared
    if id(o) in seen:
        shared.append((path, seen[id(o)][0]))
        return out, seen, shared
    seen[id(o)] = (path, o)
    st = steps(o)
    if st is None:
        raise Unsupported(f"object of type {type(o).__name__} in the chip state")
    if not st:
        out[path] = o
    for s, x in st:
        if any(x is k for k in skip):
            continue
        leaves(x, skip, path + (s,), out, seen, shared)
    return out, seen, shared


def get_path(o, path):
    for kind, k in path:
        o = heap.attrs(o)[k] if kind == "a" else o[k] if not isinstance(o, SDict) else o.conc[k]
    return o


def set_path(o, path, v):
    o = get_path(o, path[:-1])
    kind, k = path[-1]
    if kind == "a":
        heap.put(o, k, v)
    elif kind == "t":
        raise Unsupported("tuple in the chip state")
    elif isinstance(o, SDict):
        o.conc[k] = v
    else:
        o[k] = v


def logical(path):
    """(field, indices) of a parameter leaf, or None"""
    kind, k = path[-1]
    if not isinstance(k, str) or k not in FIELDS:
        return None
    idx = tuple(s[1] for s in path[:-1] if s[0] in "it" or s[0] == "k" and isinstance(s[1], int))
    if len(idx) != ARITY[FIELDS[k]]:
        return None
    return (k, idx)


def logical_config(path):
    """parameter leaf within one recorded instrument: operators carry one index, the rest none"""
    kind, k = path[-1]
    if not isinstance(k, str) or k not in FIELDS:
        return None
    idx = tuple(s[1] for s in path[:-1] if s[0] in "it" or s[0] == "k" and isinstance(s[1], int))
    if len(idx) != (1 if FIELDS[k] == "op" else 0):
        return None
    return (k, idx)


ALL_LIVE = {(f, ()) for f in chip.BASE} | {(f, (c,)) for f in chip.CHAN + chip.NOTE for c in range(8)} | {
    (f, (c, s)) for f in chip.OPER for c in range(8) for s in range(4)}
ALL_CONFIG = {(f, ()) for f in chip.BASE + chip.CHAN} | {(f, (s,)) for f in chip.OPER for s in range(4)}


def sym_leaf(ex, field, like, term):
    """a value of the parameter's domain, of the representation the code uses"""
    n = chip.DOMAIN[field]
    if isinstance(like, enum.Enum):
        return SymEnum(type(like), term)
    if field in chip.BOOLS and isinstance(like, bool):
        return SymBool(term)
    return SymInt(term, 0, n - 1)


def is_bool_leaf(field, like):
    return field in chip.BOOLS and isinstance(like, bool)


def as_int(v):
    """integer term of a parameter value"""
    if isinstance(v, SymEnum):
        return v._t
    if isinstance(v, enum.Enum):
        return Z(v.value)
    return zi(v)


# ---------------------------------------------------------------- shape of the state, found by probing
class Shape:
    """Where the code keeps clock, gate, onsets, instruments and events (found on concrete runs)."""

    def __init__(self):
        from vgm.ym2151.state import State
        from vgm.ym2151.config import YM2151Command
        cmd = lambda r, v: YM2151Command(0x54, r, v)
        s = State()
        self.fresh_ok = True
        skip = [s.configs] + [s.key_presses(c) for c in range(8)]
        a, _, self.shared = leaves(s, skip)
        self.paths = set(a)
        live, other = {}, {}
        for p, v in a.items():
            lg = logical(p)
            if lg is not None:
                if lg in live:
                    raise Unsupported(f"two places for {lg}")
                live[lg] = p
            else:
                other[p] = v
        if set(live) != ALL_LIVE:
            raise Unsupported(f"the state keeps other parameters than expected: {sorted(set(live) ^ ALL_LIVE)[:3]}")
        self.live = live
        self.like = {lg: a[p] for lg, p in live.items()}
        s.beat(5)
        b = {p: get_path(s, p) for p in other}
        clk = [p for p in other if is_intlike(other[p]) and not isinstance(other[p], bool) and b[p] != other[p]]
        if len(clk) != 1 or b[clk[0]] != 5 or other[clk[0]] != 0:
            raise Unsupported("cannot locate the sample clock")
        self.clock = clk[0]
        s.apply(cmd(8, 0x78))
        c = {p: get_path(s, p) for p in other}
        sets = [p for p in other if isinstance(other[p], (set, SSet))]
        if len(sets) != 1:
            raise Unsupported("cannot locate the set of onsets")
        self.onsets = sets[0]
        rest = [p for p in other if p not in (self.clock, self.onsets)]
        gate = [p for p in rest if not heap.same(b[p], c[p])]
        if len(gate) > 1:
            raise Unsupported("unknown mutable fields in the state")
        self.gate = gate[0] if gate else None
        self.gate_kind = None
        if self.gate:
            x, y = b[self.gate], c[self.gate]
            if x is None and is_intlike(y) and not isinstance(y, bool):
                self.gate_kind = "int"
            elif isinstance(x, bool) and isinstance(y, bool):
                self.gate_kind = "bool"
            else:
                raise Unsupported("unknown mutable fields in the state")
            self.gate_off, self.gate_on = x, y
        self.const = [p for p in rest if p != self.gate]
        for p in self.const:
            if not (heap.is_atom(other[p]) and not is_sym(other[p])):
                raise Unsupported(f"unknown field {p[-1]} in the state")
        # instruments: three different ones
        s.apply(cmd(0x20, 1))
        s.apply(cmd(8, 0x78))
        s.apply(cmd(0x20, 2))
        s.apply(cmd(8, 0x08))
        cf = list(s.configs)
        if len(cf) != 3:
            raise Unsupported("probe run recorded an unexpected number of instruments")
        ls = [leaves(x)[0] for x in cf]
        self.config_obj = cf[0]
        self.cfield, self.cother, self.cops = {}, {}, None
        for p, v in ls[0].items():
            lg = logical_config(p)
            if lg is not None:
                if lg in self.cfield:
                    raise Unsupported(f"two places for {lg} in an instrument")
                self.cfield[lg] = p
            elif isinstance(v, enum.Flag):
                if self.cops is not None:
                    raise Unsupported("two operator sets in an instrument")
                self.cops = p
            elif [x.get(p) for x in ls] == [0, 1, 2]:
                self.cother[p] = "id"
            elif all(heap.is_atom(x.get(p)) and x.get(p) == v for x in ls):
                self.cother[p] = ("const", v)
            else:
                raise Unsupported(f"unknown field {p[-1]} in an instrument")
        if set(self.cfield) != ALL_CONFIG or self.cops is None:
            raise Unsupported("instruments keep other parameters than expected")
        self.clike = {lg: ls[0][p] for lg, p in self.cfield.items()}
        self.cops_cls = type(ls[0][self.cops])
        # events
        ev = list(s.key_presses(0))
        if len(ev) != 3:
            raise Unsupported("probe run recorded an unexpected number of events")
        self.event_obj = ev[0]
        d = heap.attrs(ev[0])
        want = set(chip.NOTE) | {"config_id", "sample"}
        if set(d) != want or not all(heap.is_atom(v) for v in d.values()):
            raise Unsupported(f"events keep other fields than expected: {sorted(set(d) ^ want)}")
        self.elike = dict(d)


def shape(ex):
    s = ex.shared.get("shape")
    if s is None:
        s = ex.shared["shape"] = Shape()
    return s


def clone(o):
    if heap.is_atom(o):
        return o
    if isinstance(o, list):
        return [clone(x) for x in o]
    if isinstance(o, dict):
        return {k: clone(v) for k, v in o.items()}
    if isinstance(o, SDict):
        return SDict([(k, clone(v)) for k, v in o.conc.items()])
    n = object.__new__(type(o))
    for k, v in heap.attrs(o).items():
        heap.put(n, k, clone(v))
    return n


class SymState:
    """A State object in an arbitrary reachable state.

    Representation invariant (proved for the fresh state and preserved by apply and beat):
      - the object graph has the shape of a fresh State, is a tree, and shares nothing with recorded data;
      - before the first key-on: no instruments, events or onsets, gate closed;
      - afterwards: at least one instrument, entry i has id i and at least one operator enabled,
        entries are pairwise different, parameters are within their register widths."""

    def __init__(self, ex, started=None, symbolic_live=True):
        from vgm.ym2151.state import State
        self.ex = ex
        sh = self.shape = shape(ex)
        st = self.st = State()
        self.started = ex.choose([True, False]) if started is None else started
        dom = []
        self.live = {}
        for lg, p in sh.live.items():
            if not symbolic_live:
                self.live[lg] = get_path(st, p)
                continue
            nm = lg[0] + "".join(f"_{i}" for i in lg[1])
            if is_bool_leaf(lg[0], sh.like[lg]):
                v = SymBool(z3.Bool(nm))
            else:
                t = z3.Int(nm)
                dom.append(z3.And(t >= 0, t < chip.DOMAIN[lg[0]]))
                v = sym_leaf(ex, lg[0], sh.like[lg], t)
            self.live[lg] = v
            set_path(st, p, v)
        self.clock = SymInt(ex.fresh_int("clock"), 0)
        dom.append(self.clock.t >= 0)
        set_path(st, sh.clock, self.clock)
        self.N = Z(0)
        self.has = None
        self.gate = None
        if self.started:
            self.F = {lg: z3.Function("cfg_" + lg[0] + "".join(f"_{i}" for i in lg[1]), z3.IntSort(),
                                      z3.BoolSort() if is_bool_leaf(lg[0], sh.clike[lg]) else z3.IntSort()) for lg in sh.cfield}
            self.OPS = z3.Function("cfg_ops", z3.IntSort(), z3.IntSort())
            self.N = ex.fresh_int("N")
            dom.append(self.N >= 1)
            self.configs = SymSeq(self.N, self.config_at, tag="configs")
            st.configs = self.configs
            self.evlen = [ex.fresh_int(f"events{c}_len") for c in range(8)]
            dom += [n >= 0 for n in self.evlen]
            self.E = {(c, f): z3.Function(f"ev{c}_{f}", z3.IntSort(), z3.BoolSort() if isinstance(sh.elike[f], bool) else z3.IntSort())
                      for c in range(8) for f in sh.elike}
            self.events = [SymSeq(self.evlen[c], (lambda i, c=c: self.event_at(c, i)), tag=("key_presses", c)) for c in range(8)]
            place_events(st, self.events)
            H = z3.Function("onset", z3.IntSort(), z3.BoolSort())
            self.has = H
            s = SSet(base_has=lambda t: H(t), tag="onsets")
            set_path(st, sh.onsets, s)
            self.first = ex.fresh_int("first")
            dom += [self.first >= 0, self.first <= self.clock.t, H(self.first)]
            x = z3.Int("x")
            dom.append(z3.ForAll([x], z3.Implies(H(x), z3.And(x >= self.first, x <= self.clock.t)), patterns=[H(x)]))
            if sh.gate:
                self.gate = SymInt(self.first, 0) if sh.gate_kind == "int" else sh.gate_on
                set_path(st, sh.gate, self.gate)
        else:
            self.events = [st.key_presses(c) for c in range(8)]
            self.configs = st.configs
            self.evlen = [Z(0)] * 8
        ex.assume(z3.And(*dom))

    def config_at(self, i):
        ex, sh = self.ex, self.shape
        c = clone(sh.config_obj)
        dom = [i >= 0]
        for lg, p in sh.cfield.items():
            t = self.F[lg](i)
            if not is_bool_leaf(lg[0], sh.clike[lg]):
                dom.append(z3.And(t >= 0, t < chip.DOMAIN[lg[0]]))
            set_path(c, p, sym_leaf(ex, lg[0], sh.clike[lg], t))
        o = self.OPS(i)
        dom.append(z3.And(o >= 1, o <= 15))
        set_path(c, sh.cops, SymEnum(sh.cops_cls, o))
        for p, k in sh.cother.items():
            if k == "id":
                set_path(c, p, mk_int(i, 0))
        ex.assume(z3.And(*dom))
        return c

    def event_at(self, c, i):
        ex, sh = self.ex, self.shape
        n = clone(sh.event_obj)
        dom = [i >= 0]
        for f, like in sh.elike.items():
            t = self.E[(c, f)](i)
            if isinstance(like, bool):
                heap.put(n, f, SymBool(t))
                continue
            if f == "config_id":
                dom += [t >= -1, t < self.N]
                heap.put(n, f, SymInt(t, -1))
            elif f == "sample":
                dom += [t >= 0, t <= self.clock.t]
                heap.put(n, f, SymInt(t, 0))
            else:
                dom += [t >= 0, t < chip.DOMAIN[f]]
                heap.put(n, f, SymInt(t, 0, chip.DOMAIN[f] - 1))
        ex.assume(z3.And(*dom))
        return n

    # -- views after an operation
    def live_now(self):
        """{logical: value} of the current parameters, read from the object graph"""
        sh, st = self.shape, self.st
        out, seen, shared = leaves(st, [st.configs] + [st.key_presses(c) for c in range(8)])
        self.now_objects, self.now_shared = seen, shared
        extra = set(out) ^ sh.paths
        if extra:
            raise Unsupported(f"the shape of the state changes: {sorted(map(str, extra))[:3]}")
        return {lg: out[p] for lg, p in sh.live.items()}, out

    def same_sound(self, i, ch, ops):
        """instrument i has the current parameters of channel ch and the operator set ops (z3 Bool)"""
        cs = [self.OPS(i) == zi(ops)]
        for (f, idx), fn in self.F.items():
            lg = (f, ()) if FIELDS[f] == "base" else (f, (ch,) + idx)
            v = self.live[lg]
            cs.append(fn(i) == (zb(v) if isinstance(v, SymBool) else as_int(v)))
        return z3.And(*cs)


def place_events(st, seqs):
    """replaces the eight event lists"""
    olds = [st.key_presses(c) for c in range(8)]
    for c in range(8):
        for d in range(c):
            if olds[c] is olds[d]:
                raise Unsupported("two channels share one event list")
    done = 0
    work, seen = [st], set()
    while work:
        o = work.pop()
        if id(o) in seen or heap.is_atom(o):
            continue
        seen.add(id(o))
        for s, x in steps(o) or []:
            k = next((i for i, l in enumerate(olds) if l is x), None)
            if k is None:
                work.append(x)
                continue
            set_path(o, (s,), seqs[k])
            done += 1
    if done != 8 or any(st.key_presses(c) is not seqs[c] for c in range(8)):
        raise Unsupported("cannot place the event lists")


def global_objects():
    """ids of mutable objects reachable from modules and classes of the code under test"""
    s = heap.Snapshot(heap.global_roots())
    return {i: (o, p) for i, (o, p, st) in s.objs.items() if st is not None}


def config_view(sh, c):
    out, seen, shared = leaves(c)
    if set(out) != set(leaves(sh.config_obj)[0]):
        raise Unsupported("an instrument of another shape")
    return {lg: out[p] for lg, p in sh.cfield.items()}, out, seen, shared
