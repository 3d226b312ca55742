"""C10: main.process_vgm_file is the fold of the command stream up to the end marker."""
import z3
from engine import heap
from engine.core import Unsupported, PathCut
from engine.loops import LoopSpec, Source, SymIter, _symbols
from engine.symval import SymInt, mk_int, zi, Z
from engine.unit import Unit
from spec import vgm as vspec
from .common import model_int, outcome, frame
from harness_enc import enc

OTHER, WRITE, WAIT, EOS = 0, 1, 2, 3
WAITS = [o for o in range(256) if vspec.is_wait(o)]
OTHERS = [o for o in range(256) if o not in WAITS + [0x54, 0x66]]


def stream_class():
    import vgm.core

    class Stream(vgm.core.Vgm):
        """an opened VGM file as its iteration contract (C01-C03) describes it: n commands, command k
        having opcode OP(k) and operands A(k), B(k); then the data ends"""

        def __init__(self, ex):
            self.ex = ex
            self.n = ex.fresh_int("n_commands")
            i = z3.IntSort()
            self.OP, self.A, self.B = (ex.fresh_fn(x, i, i) for x in ("opcode", "operand", "operand2"))
            self.pos = Z(0)
            self.file = None
            self.version = SymInt(ex.fresh_int("version"), 0)
            self.eof_offset = SymInt(ex.fresh_int("eof"), 0)
            self.clocks = {"ym2413": SymInt(ex.fresh_int("clk1"), 0), "ym2151": SymInt(ex.fresh_int("clk2"), 0)}
            ex.assume(z3.And(self.n >= 0, *[v.t >= 0 for v in (self.version, self.eof_offset, *self.clocks.values())]))
            self.made = {}

        def kind_is(self, k, kind):
            o = self.OP(k)
            return {WRITE: o == 0x54, EOS: o == 0x66, WAIT: z3.Or(z3.And(o >= 0x61, o <= 0x63), z3.And(o >= 0x70, o <= 0x8F)),
                    OTHER: z3.Not(z3.Or(o == 0x54, o == 0x66, z3.And(o >= 0x61, o <= 0x63), z3.And(o >= 0x70, o <= 0x8F)))}[kind]

        def at(self, k):
            """the k-th command, of the class its opcode has"""
            from vgm.command import VgmCommand, WaitCommand, EOSCommand
            from vgm.ym2151.config import YM2151Command
            ex = self.ex
            key = k.hash()
            if key in self.made:
                return self.made[key][0]
            op = self.OP(k)
            ex.assume(z3.And(op >= 0, op <= 255))
            kind = WRITE if ex.branch(op == 0x54) else EOS if ex.branch(op == 0x66) else WAIT if ex.branch(self.kind_is(k, WAIT)) else OTHER
            a, b = SymInt(self.A(k), 0), SymInt(self.B(k), 0)
            ex.assume(z3.And(a.t >= 0, b.t >= 0))
            if kind == WRITE:
                ex.assume(z3.And(a.t <= 255, b.t <= 255))
                c = YM2151Command(0x54, a, b)
            elif kind == EOS:
                c = EOSCommand(0x66)
            elif kind == WAIT:
                c = WaitCommand(0x61, a)
                c.command_id = SymInt(op, 0, 255)
                c.samples = a
                ex.assume(z3.And(a.t <= 65535, z3.Implies(op == 0x62, a.t == 735), z3.Implies(op == 0x63, a.t == 882),
                                 z3.Implies(z3.And(op >= 0x70, op <= 0x7F), a.t == op - 0x6F), z3.Implies(op >= 0x80, a.t == op - 0x80)))
            else:
                c = VgmCommand(SymInt(op, 0, 255))
                c.payload = ex.choose([None, b"\x54\x08\x78"])
            self.made[key] = (c, k, kind, a, b)
            return c

        def sx_source(self):
            if not (z3.is_int_value(self.pos) and self.pos.as_long() == 0):
                raise Unsupported("the stream is read from the middle")
            return Source(self.n, self.at, "commands")

        def __next__(self):
            k = self.pos
            self.reads = getattr(self, "reads", 0) + 1
            if self.reads > 30:
                raise Unsupported("the commands are read one by one outside a verified loop")
            if self.ex.branch(k < self.n):
                self.pos = z3.simplify(k + 1)
                return self.at(k)
            raise StopIteration

        def _sx_heap(self):
            return [("pos", mk_int(self.pos, 0))]
    Stream.__module__ = "builtins"
    return Stream


class Fold:
    """ghost value: the effects of the first k commands, in order (k: z3 term)"""

    def __init__(self, k):
        self.k = k


class Recorder:
    """State.apply and State.beat under their contracts: they only append to a ghost trace"""

    def __init__(self, ex):
        from vgm.ym2151.state import State
        self.ex, self.cls = ex, State
        self.trace = [Fold(Z(0))]
        self.states = []
        rec = self

        def apply(st, cmd, *a, **k):
            if a or k:
                raise TypeError("apply takes one command")
            rec.note(st, "write", cmd)

        def beat(st, samples, *a, **k):
            if a or k:
                raise TypeError("beat takes one number")
            rec.note(st, "wait", samples)
        State.apply, State.beat = apply, beat

    def note(self, st, what, x):
        if what == "wait" and isinstance(x, SymInt):
            self.ex.loop_table.setdefault("fed to beat", set()).update(
                n.split("!")[0][len("weak_"):] for n in _symbols(x.t) if n.startswith("weak_"))
        if not any(st is s for s in self.states):
            self.states.append(st)
        self.trace.append((what, x))


class FoldSpec(LoopSpec):
    """invariant: the trace is the fold of the first k commands and none of them is an end marker"""

    def __init__(self, W, site):
        self.W, self.site = W, site
        self.held = None

    def entry(self, ex, env):
        W = self.W
        # a local that starts at 0 may hold back the waiting time not handed to beat() yet; proved at the back edge
        # (only one whose value beat() is given in the learning pass: another may count something)
        self.zero = [nm for nm in self.site.names if type(env.get(nm)) is int and env[nm] == 0]
        if len(W.rec.trace) != 1 or not z3.is_int_value(W.rec.trace[0].k):
            raise Unsupported("effects before the loop over the commands")

    def havoc(self, ex, env, k):
        W = self.W
        W.begun = True
        self.pending = None
        fed = W.ex.loop_table.setdefault("fed to beat", set())
        held = [nm for nm in self.zero if nm in fed]
        self.held = held[0] if len(held) == 1 and not self.learning else None
        out = {}
        if k is None:
            its = [v for v in env.values() if isinstance(v, SymIter) and v.seq is W.stream] or [v for v in env.values() if v is W.stream]
            if len({id(v) for v in its}) != 1:
                raise Unsupported("cannot find the iterator of the commands")
            W.iter = its[0]
            p0 = z3.simplify(W.iter.pos)
            if not z3.is_int_value(p0) or p0.as_long() > 1:
                raise Unsupported("several commands are taken before the loop")
            k = ex.fresh_int("k")
            ex.assume(z3.And(k >= 0, k <= W.stream.n))
            if p0.as_long() == 0:
                W.iter.pos = k
            else:
                # one command is read ahead
                first = W.stream.at(Z(0))
                names = [nm for nm, v in env.items() if v is first]
                if len(names) != 1:
                    raise Unsupported("cannot find the command read ahead")
                self.pending = names[0]
        else:
            W.iter = None
        W.k = k
        W.rec.trace[:] = [Fold(k)]
        W.owed = Z(0)
        if self.held:
            W.owed = ex.fresh_int("held_back")
            ex.assume(W.owed >= 0)
            out[self.held] = SymInt(W.owed, 0)
        j = z3.Int("j")
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), W.stream.OP(j) != 0x66), patterns=[W.stream.OP(j)]))
        if self.pending:
            if ex.branch(k < W.stream.n):
                W.iter.pos = z3.simplify(k + 1)
                out[self.pending] = W.stream.at(k)
            else:
                W.iter.pos = W.stream.n
                out[self.pending] = None
        return out

    def back(self, ex, env, k):
        W = self.W
        k = W.k if k is None else k
        if W.iter is not None:
            p = W.iter.pos
            must = lambda c: ex._check(z3.Not(c)) == z3.unsat
            if self.pending:
                v = env.get(self.pending)
                nxt = W.stream.made.get(z3.simplify(k + 1).hash())
                if not ((v is None and must(z3.And(p == W.stream.n, k + 1 == W.stream.n))) or (
                        v is not None and nxt is not None and nxt[0] is v and must(p == k + 2))):
                    raise Unsupported("the loop takes several commands per turn")
            elif not must(p == k + 1):
                raise Unsupported("the loop does not take one command per turn")
        left = Z(0)
        if self.held:
            v = env.get(self.held)
            if not isinstance(v, (int, SymInt)) or isinstance(v, bool):
                raise Unsupported(f"the use of the local {self.held} is not understood")
            left = zi(v)
        W.step(ex, k, left, self.held)
        ex.prove("C10.stops-at-the-end-marker", W.stream.OP(k) != 0x66, W.info)

    def allowed(self, path, label, obj):
        return obj is self.W.stream or obj is self.W.iter


class World:
    def __init__(self, ex):
        self.ex = ex
        self.rec = Recorder(ex)
        self.stream = stream_class()(ex)
        self.begun = False
        self.k = None
        self.owed = Z(0)                # waiting time of the commands so far that beat() was not told yet
        self.info = {"W": self}
        ex.loop_specs = self.find

    def find(self, site, kind, it, src):
        if self.begun:
            return None
        if kind == "for":
            return FoldSpec(self, site) if src is not None and tag_of(src.tag) == "commands" else None
        if self.ex._check(self.stream.n != 0) == z3.unsat:
            self.begun, self.k = True, Z(0)
            return None                         # no command at all: the loop runs as it is
        return FoldSpec(self, site)

    def step(self, ex, k, left, held):
        """the trace is Fold(k), less a final wait of self.owed samples, followed by exactly what was owed and what command k
        asks for, less a final wait of left samples (waiting 0 samples is no effect)"""
        tr, info = self.rec.trace, self.info
        nm = "C10.each-command-once"
        if held:
            info = dict(info, over=True)        # the local may be used in another way
        if not (tr and isinstance(tr[0], Fold) and tr[0].k.eq(k)):
            raise Unsupported("ghost trace lost")
        made = self.stream.made.get(k.hash())
        if made is None:
            self.stream.at(k)
            made = self.stream.made[k.hash()]
        c, _, kind, a, b = made
        waits = [x for w, x in tr[1:] if w == "wait"]
        writes = [x for w, x in tr[1:] if w == "write"]
        bad = [x for x in waits if not isinstance(x, (int, SymInt))]
        if bad:
            ex.fail(nm, f"beat() is given {bad[0]!r}", info)
            return
        total = z3.Sum([zi(x) for x in waits] + [left])
        ex.prove(nm if kind == WAIT else "C10.other-commands-have-no-influence", total == self.owed + (a.t if kind == WAIT else 0), info)
        if held:
            ex.prove(nm, left >= 0, info)
            if kind == WRITE:
                ex.prove(nm, left == 0, info)
                i = 1 + [w for w, _ in tr[1:]].index("write") if writes else 0
                ex.prove(nm, z3.And(*[zi(x) == 0 for w, x in tr[i + 1:] if w == "wait"]), info)
        if len(writes) != (1 if kind == WRITE else 0):
            ex.fail(nm if kind == WRITE else "C10.other-commands-have-no-influence",
                    f"{'a register write' if kind == WRITE else 'another command'} causes {len(writes)} register writes", info)
        elif kind == WRITE:
            k_, r = outcome(lambda: (zi(writes[0].reg), zi(writes[0].value)))
            if k_ == "exc":
                ex.fail(nm, "apply() is given something else than the command", info)
            else:
                ex.prove(nm, z3.And(r[0] == a.t, r[1] == b.t), info)


def tag_of(t):
    while isinstance(t, tuple):
        t = t[1]
    return t


def fresh_state():
    from vgm.ym2151.state import State
    return State()


def run(ex):
    import main
    glob = heap.Snapshot(heap.global_roots())
    W = World(ex)
    kind, st = outcome(lambda: main.process_vgm_file(W.stream))
    ex.loop_specs = lambda *a: None
    if kind == "exc":
        ex.fail("C10.no-exception", f"raises {type(st).__name__}: {st}", W.info)
        return
    tr, n = W.rec.trace, W.stream.n
    if not isinstance(st, W.rec.cls):
        ex.fail("C10.returns-the-state", f"returns {type(st).__name__}", W.info)
        return
    ex.prove("C10.returns-the-state", not W.rec.states or (len(W.rec.states) == 1 and W.rec.states[0] is st), W.info)
    if not W.begun:
        raise Unsupported("no loop over the commands was found")
    from . import model
    a, b = model.leaves(st)[0], model.leaves(fresh_state())[0]
    for p in b:
        if p not in a or not heap.same(a[p], b[p]):
            if heap.is_atom(b[p]) or len(a.get(p, ())) != len(b[p]):
                raise Unsupported("process_vgm_file changes the state directly")
    # all commands before the exit were performed; the exit is at the end of the data or at a marker
    k = W.k
    rest = [x for w, x in tr[1:] if w == "wait"]
    writes = any(w == "write" for w, _ in tr[1:])
    total = z3.Sum([zi(x) for x in rest]) if rest else Z(0)
    at_end = tr[0].k.eq(n) or ex._check(k < n) == z3.unsat
    if at_end:
        ex.cover("end of data")
    else:
        # left inside the loop, at command k
        ex.prove("C10.ends-only-at-marker-or-end", z3.And(k < n, W.stream.OP(k) == 0x66), W.info)
        ex.cover("end marker")
    if not z3.is_int_value(W.owed):
        W.info = dict(W.info, over=True)    # a local that holds back waiting time: rests on the invariant, which is one way of doing it
    ex.prove("C10.all-commands-performed" if at_end else "C10.other-commands-have-no-influence",
             z3.And(z3.BoolVal(not writes), total == W.owed), W.info)
    frame(ex, "C10.shared-state-untouched", glob, lambda p, l, o: l in ("apply", "beat"), W.info)


def replay(m, info):
    W = info["W"]
    y = lambda reg, v: bytes([0x54, reg, v])
    song = y(0x20, 0xC7) + y(0x28, 0x4A) + y(8, 0x78) + b"\x62" + y(8, 0) + b"\x61\x10\x27" + y(8, 0x78) + b"\x75\x85"
    k = W.k if W.k is not None else Z(0)
    op = model_int(m, W.stream.OP(k)) % 256
    a, b = model_int(m, W.stream.A(k)), model_int(m, W.stream.B(k))
    ops = bytes([a % 256, b % 256]) if op == 0x54 else (a % 65536).to_bytes(2, "little") if op == 0x61 else bytes(6) if op == 0x67 else bytes(
        vspec.fixed_len(op))
    c = bytes([op]) + ops
    return [{"data": enc(d)} for d in (song[:9] + c + song[9:] + b"\x66" + song, c + song, song + c, song + b"\x66" + c + song, c, c + b"\x66" + song)]


UNITS = {"C10": [Unit("process_vgm_file", run, ["main:process_vgm_file"], replay, cover=["end of data", "end marker"],
                      assumptions=["State.apply and State.beat behave as their contracts say (C05-C09)", "the command stream behaves as the contract of its iterator says (C01-C03)"])]}
