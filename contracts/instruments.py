"""C15: extractors.extract_instruments writes one JSON object per instrument, with every parameter in it."""
import json
import z3
from engine import heap
from engine.core import Unsupported, PathCut
from engine.containers import SymSeq, SDict, SymBytes, Poison
from engine.symval import SymInt, SymBool, SymReal, SymStr, SymEnum, is_intlike, mk_int, zi, zb, Z, ordinary_names
from engine.unit import Unit
from spec import chip
from .common import model_int, outcome, frame, OutFile, written_text
from .model import SymState, FIELDS
from .chipstate import parameter_writes, recorded_snapshot

FUNCS = ["extractors:extract_instruments", "vgm.ym2151.config:ConfigEncoder.default", "vgm.ym2151.config:Config.repr_json",
         "vgm.ym2151.config:BaseConfig.repr_json", "vgm.ym2151.config:ChannelConfig.repr_json", "vgm.ym2151.config:OperatorConfig.repr_json",
         "vgm.ym2151.config:Operators.repr_json", "vgm.ym2151.config:Waveform.repr_json", "tools:smart_open"]
WAVES = ("SAW", "SQUARE", "TRIANGLE", "NOISE")
KEYS = dict(total_level="tl", attack_rate="ar", first_decay_rate="d1r", first_decay_level="d1l", second_decay_rate="d2r", release_rate="rr",
            key_scale="ks", multiply="mul", first_detune="dt1", second_detune="dt2", ase="ase")
CHKEYS = dict(fb="feedback", connection="connection", ams="ams", pms="pms", noise="noise", noise_freq="noise_freq")


class NotJson(Exception):
    pass


class JArray:
    """an array: its length, and the value v at the arbitrary place k"""

    def __init__(self, n, k, v):
        self.n, self.k, self.v = n, k, v


def jsonify(o, enc, W, depth=0):
    """the JSON value (dict, JArray, text, number, truth value, None) that the encoder gives for o"""
    if depth > 40:
        raise NotJson("circular")
    if o is None or isinstance(o, (bool, SymBool, SymStr, float)):
        return o
    if type(o) is SymEnum:
        o = o.concrete()
    if isinstance(o, str):
        return str(o)
    if isinstance(o, SymInt):
        return o
    if isinstance(o, int):
        return int(o)
    if isinstance(o, SymReal):
        return o
    if isinstance(o, Poison):
        raise Unsupported("an unknown value in the JSON document")
    if isinstance(o, SymSeq):
        if depth:
            raise Unsupported("a list of unknown length inside the JSON document")
        return generic_array(o, enc, W)
    if isinstance(o, (list, tuple)):
        xs = [jsonify(x, enc, W, depth + 1) for x in o]
        return JArray(Z(len(xs)), None, xs)
    if isinstance(o, (dict, SDict)):
        if isinstance(o, SDict) and (o.base_has is not None or o.over is not None):
            raise Unsupported("symbolic dictionary in the JSON document")
        out = {}
        for k, v in (o.conc if isinstance(o, SDict) else o).items():
            if isinstance(k, bool) or k is None or isinstance(k, (int, float)):
                k = json.dumps(k)
            if not isinstance(k, str):
                if enc.skipkeys:
                    continue
                raise NotJson(f"key of type {type(k).__name__}")
            out[str(k)] = jsonify(v, enc, W, depth + 1)
        return out
    return jsonify(enc.default(o), enc, W, depth + 1)


def generic_array(o, enc, W):
    """the array of a list of any length: every element is encoded like the arbitrary element k"""
    ex = W.ex
    n = o.len_term()
    k = ex.fresh_int("k")
    W.info = {"W": W, "k": k}
    ex.assume(z3.And(k >= 0, k < n))
    if not ex.feasible():
        return JArray(n, None, None)
    e = o.sx_getitem(mk_int(k, 0))
    snap = heap.Snapshot([("instrument", e), ("encoder", enc), ("instruments", W.S.st)] + heap.global_roots())
    try:
        v = jsonify(e, enc, W, 1)
    except NotJson as x:
        ex.fail("C15.parameters-can-be-read-back", f"{x}", W.info)
        raise PathCut()
    for p, l, a, b, obj in snap.diff(lambda c: ex._check(z3.Not(c)) == z3.unsat):
        if obj is enc:
            raise Unsupported("the encoder keeps data between objects")
        for nm in ("C15.export-keeps-the-instruments", "C08.export-keeps-recorded", "C19.shared-state-untouched"):
            ex.fail(nm, f"encoding an instrument changes {p}{l}", W.info)
        raise PathCut()
    return JArray(n, k, v)


class World:
    def __init__(self, ex, started=None):
        self.ex = ex
        self.S = SymState(ex, started, symbolic_live=False)
        self.name = SymStr.token(ex.fresh_int("instr_filename"))
        self.files, self.docs = [], []
        ordinary_names(ex)
        ex.open_hook = self.open
        ex.json_hook = self.encode
        self.info = {"W": self, "k": Z(0)}

    def open(self, name, mode="r", *a, **k):
        f = OutFile(name, mode)
        self.files.append(f)
        return f

    def encode(self, o, enc):
        if enc.item_separator.strip() != "," or enc.key_separator.strip() != ":" or not isinstance(enc.indent, (str, int, type(None))) or (
                isinstance(enc.indent, str) and enc.indent.strip()):
            raise Unsupported("JSON with other separators")
        t = SymStr.token(self.ex.fresh_int("json"))
        self.docs.append((t, jsonify(o, enc, self)))
        return t


def run(ex):
    import extractors
    glob = heap.Snapshot(heap.global_roots())
    W = World(ex)
    S = W.S
    snap = recorded_snapshot(S)
    live = heap.Snapshot([("state", S.st)])
    kind, r = outcome(lambda: extractors.extract_instruments(W.name, S.st))
    info = W.info
    if kind == "exc":
        for p in ("C15.no-exception", "C08.no-exception"):
            ex.fail(p, f"raises {type(r).__name__}: {r}", info)
        return
    for p in ("C08.export-keeps-recorded", "C15.export-keeps-the-instruments"):
        frame(ex, p, snap, None, info)
        frame(ex, p, live, None, info)
    frame(ex, "C19.shared-state-untouched", glob, None, info)
    ex.cover("started" if S.started else "empty")
    if len(W.files) != 1 or len(W.docs) != 1:
        raise Unsupported("the instruments are not written as one document to one file")
    f = W.files[0]
    ex.prove("C15.goes-to-the-named-file", bool(f.mode in ("w", "wt", "tw", "w+") and f.closed >= 1 and not f.late
             and (f.name is W.name or isinstance(f.name, SymStr) and f.name.pieces == W.name.pieces)), info)
    ps = written_text(f)
    tok, doc = W.docs[0]
    if any(p is not tok.pieces[0] and p != tok.pieces[0] and not (isinstance(p, str) and not p.strip()) for p in ps) or sum(p == tok.pieces[0] for p in ps) != 1:
        ex.fail("C15.the-file-is-one-json-document", f"the file consists of {ps!r}"[:200], info)
        return
    ex.prove("C15.the-file-is-one-json-document", True)
    if not isinstance(doc, JArray):
        ex.fail("C15.the-document-is-an-array", f"{type(doc).__name__}", info)
        return
    ex.prove("C15.one-object-per-instrument", doc.n == S.N, info)
    if not S.started:
        return
    if doc.k is None:
        raise Unsupported("the array has a fixed length")
    k, o, info = doc.k, doc.v, W.info
    nm = "C15.parameters-can-be-read-back"
    try:
        ex.prove("C15.objects-are-in-table-order", number(o["id"]) == k, info)
        for f in chip.BASE:
            v = o["base"][f]
            if f == "waveform" and isinstance(v, str):
                if v not in WAVES:
                    raise NotJson(f"waveform {v!r}")
                v = WAVES.index(v)
            agree(ex, nm, S, f, (), k, v, info)
        for f, key in CHKEYS.items():
            agree(ex, nm, S, f, (), k, o["channel"][key], info)
        for s, m in enumerate(chip.OP_NAMES):
            for f, key in KEYS.items():
                agree(ex, nm, S, f, (s,), k, o["channel"][m][key], info)
        names = o["operators"]
        if isinstance(names, SymStr):
            raise Unsupported("the operator names are not plain text")
        parts = names.split("|") if names else []
        if len(set(parts)) != len(parts) or any(p not in chip.OP_BITS for p in parts):
            raise NotJson(f"operators {names!r}")
        ex.prove("C15.enabled-operators-by-name", S.OPS(k) == sum(chip.OP_BITS[p] for p in parts), info)
        ex.cover("entry")
    except (NotJson, KeyError, TypeError, AttributeError, IndexError) as e:
        ex.fail(nm, f"{type(e).__name__}: {e}", info)


def number(v):
    if isinstance(v, (SymBool, bool)):
        return z3.If(zb(v), Z(1), Z(0))
    if is_intlike(v):
        return zi(v)
    raise NotJson(f"{v!r} is no number"[:120])


def agree(ex, nm, S, f, idx, k, v, info):
    t = S.F[(f, idx)](k)
    if z3.is_bool(t):
        t = z3.If(t, Z(1), Z(0))
    ex.prove(nm, number(v) == t, dict(info, field=(f, idx)))


def replay(m, info):
    """histories that record an instrument like the one of the counterexample, alone and after others"""
    W = info["W"]
    S = W.S
    if not S.started:
        return [{"history": []}]
    out = []
    for k in {0: info["k"], 1: Z(0)}.values():
        lv = {}
        for (f, idx), fn in S.F.items():
            t = fn(k)
            v = (1 if z3.is_true(m.eval(t, model_completion=True)) else 0) if z3.is_bool(t) else model_int(m, t)
            lv[(f, idx) if FIELDS[f] == "base" else (f, (7,) + idx)] = v % chip.DOMAIN[f]
        ops = model_int(m, S.OPS(k), 15) % 16 or 15
        h = parameter_writes(lv) + [["w", 8, ops << 3 | 7]]
        first = [["w", 0x20, 1], ["w", 8, 0x78], ["w", 0x20, 2], ["w", 8, 0x08]]
        out += [{"history": h}, {"history": first + h}, {"history": h + first}]
    return out


_u = Unit("extract_instruments", run, FUNCS, replay, cover=["started", "empty", "entry"],
          assumptions=["json renders dictionaries, lists, text, numbers and truth values faithfully and hands other objects to the encoder's default()",
                       "smart_open with a file name opens and closes that file (C18; its real code runs here, open() is stubbed)"])
UNITS = {"C15": [_u], "C08": [_u], "C19": [_u]}
