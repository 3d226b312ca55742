"""C17: parameter sets compare by value and copy by value (vgm.ym2151.config)."""
import copy
import z3
from engine import heap
from engine.core import Unsupported
from engine.symval import SymInt, SymBool, SymEnum, zi, zb, Z
from engine.unit import Unit
from spec import chip
from .common import model_int, outcome, eq
from . import model
from .model import as_int

KINDS = ("BaseConfig", "ChannelConfig", "OperatorConfig", "NoteConfig")


def fields(kind):
    if kind == "BaseConfig":
        return [(f,) for f in chip.BASE]
    if kind == "NoteConfig":
        return [(f,) for f in chip.NOTE]
    if kind == "OperatorConfig":
        return [(f,) for f in chip.OPER]
    return [(f,) for f in chip.CHAN] + [(s, f) for s in range(4) for f in chip.OPER]


def holder(o, f):
    return o.operators[f[0]] if len(f) == 2 else o


def get(o, kind):
    return {f: getattr(holder(o, f), f[-1]) for f in fields(kind)}


def put(o, f, v):
    setattr(holder(o, f), f[-1], v)


def sym_value(ex, f, like, name):
    nm = name + "_" + "_".join(map(str, f))
    if model.is_bool_leaf(f[-1], like):
        return SymBool(ex.fresh_bool(nm))
    t = ex.fresh_int(nm)
    ex.assume(z3.And(t >= 0, t < chip.DOMAIN[f[-1]]))
    return model.sym_leaf(ex, f[-1], like, t)


def make(ex, kind, name):
    """a parameter set with arbitrary parameters"""
    from vgm.ym2151 import config
    o = getattr(config, kind)()
    vals = {}
    for f, like in get(o, kind).items():
        vals[f] = sym_value(ex, f, like, name)
        put(o, f, vals[f])
    return o, vals


def truth(r):
    return zb(r) if isinstance(r, SymBool) else z3.BoolVal(bool(r))


def same(a, b):
    return z3.And(*[as_int(a[f]) == as_int(b[f]) for f in a])


def replay(kind):
    def go(m, info):
        a = {repr(f): model_int(m, as_int(v)) for f, v in info["a"].items()}
        b = {repr(f): model_int(m, as_int(v)) for f, v in info.get("b", info["a"]).items()}
        return {"kind": kind, "a": a, "b": b}
    return go


class Other:
    """a value of another type that looks the same"""


def equality(kind):
    def run(ex):
        what = ex.choose(["same kind", "self", "other kinds"])
        a, av = make(ex, kind, "a")
        glob = heap.Snapshot(heap.global_roots())
        info = {"a": av}
        if what == "same kind":
            b, bv = make(ex, kind, "b")
            info["b"] = bv
            want = same(av, bv)
            for nm, op, neg in (("C17.equal-iff-all-parameters-equal", lambda: a == b, False), ("C17.equality-is-symmetric", lambda: b == a, False),
                                ("C17.unequal-iff-a-parameter-differs", lambda: a != b, True)):
                k, r = outcome(op)
                if k == "exc":
                    ex.fail(nm, f"raises {type(r).__name__}: {r}", info)
                    continue
                ex.prove(nm, truth(r) == (z3.Not(want) if neg else want), info)
            for o, v in ((a, av), (b, bv)):
                now = get(o, kind)
                ex.prove("C17.comparison-changes-nothing", z3.And(*[as_int(now[f]) == as_int(v[f]) for f in v]), info)
            ex.cover("compared")
        elif what == "self":
            k, r = outcome(lambda: (a == a, a != a))
            if k == "exc":
                ex.fail("C17.equals-itself", f"raises {r!r}", info)
            else:
                ex.prove("C17.equals-itself", z3.And(truth(r[0]), z3.Not(truth(r[1]))), info)
        else:
            d = Other()
            for f in {f[0] if len(f) == 1 else "operators" for f in fields(kind)}:
                setattr(d, f, getattr(a, f))
            others = [d, None, 0, 1, 1.5, "x", b"", [], (), {}, object()] + [make(ex, k, "o" + k)[0] for k in KINDS if k != kind]
            for o in others:
                for op in (lambda: (a == o, a != o), lambda: (o == a, o != a)):
                    k, r = outcome(op)
                    nm = "C17.never-equals-another-type"
                    if k == "exc":
                        ex.fail(nm, f"comparison with {type(o).__name__} raises {type(r).__name__}: {r}", info)
                    else:
                        ex.prove(nm, z3.And(z3.Not(truth(r[0])), truth(r[1])), info)
        if what == "same kind":
            from .common import frame
            frame(ex, "C17.shared-state-untouched", glob, None, info)
    return Unit(f"{kind}.__eq__", run, [f"vgm.ym2151.config:{kind}.__eq__", f"vgm.ym2151.config:{kind}.__init__"], replay(kind), cover=["compared"])


def mutable_objects(o):
    out, seen, shared = model.leaves(o)
    return {i: (p, x) for i, (p, x) in seen.items() if not isinstance(x, tuple)}, shared


def copying(kind):
    def run(ex):
        how = ex.choose(["deepcopy", "copy construction", "deepcopy in a list", "copy of a copy"])
        side = ex.choose(["original", "copy"])
        a, av = make(ex, kind, "a")
        info = {"a": av}
        glob = heap.Snapshot(heap.global_roots())
        fn = {"deepcopy": copy.deepcopy, "copy construction": lambda x: type(x)(x), "deepcopy in a list": lambda x: copy.deepcopy([x])[0],
              "copy of a copy": lambda x: copy.deepcopy(type(x)(x))}[how]
        k, c = outcome(lambda: fn(a))
        if k == "exc":
            ex.fail("C17.copy-equals-original", f"{how} raises {type(c).__name__}: {c}", info)
            return
        if c is a or type(c) is not type(a):
            ex.fail("C17.copy-is-a-new-set", f"{how} gives {'the same object' if c is a else type(c).__name__}", info)
            return
        ex.prove("C17.copy-is-a-new-set", True)
        k, cv = outcome(lambda: get(c, kind))
        if k == "exc":
            ex.fail("C17.copy-equals-original", f"{how} loses a parameter: {cv!r}", info)
            return
        if kind == "ChannelConfig" and len(c.operators) != 4:
            ex.fail("C17.copy-equals-original", f"{how} has {len(c.operators)} operators", info)
            return
        ex.prove("C17.copy-equals-original", same(av, cv), info)
        ex.prove("C17.copying-keeps-original", same(av, get(a, kind)), info)
        k, r = outcome(lambda: a == c)
        ex.prove("C17.copy-compares-equal", truth(r) if k == "val" else False, info)
        am, sh = mutable_objects(a)
        cm, sh2 = mutable_objects(c)
        both = set(am) & set(cm)
        if both or sh2:
            ex.fail("C17.copy-shares-nothing", f"{how} and original share {[am[i][0] for i in both][:2] or sh2[:2]}", info)
        else:
            ex.prove("C17.copy-shares-nothing", True)
        g = model.global_objects()
        hit = [p for i, (p, x) in cm.items() if i in g]
        if hit:
            ex.fail("C17.copy-shares-nothing", f"{how} shares {hit[:2]} with {g[next(i for i in cm if i in g)][1]}", info)
        from .common import frame
        frame(ex, "C17.shared-state-untouched", glob, None, info)
        # later changes
        x, y, xv = (a, c, cv) if side == "original" else (c, a, av)
        for f in fields(kind):
            put(x, f, sym_value(ex, f, getattr(holder(x, f), f[-1]), "later"))
        ex.prove("C17.later-changes-stay-apart", same(xv, get(y, kind)), info)
        if kind == "ChannelConfig" and isinstance(x.operators, list):
            x.operators.append(None)
            ex.prove("C17.later-changes-stay-apart", len(y.operators) == 4, info)
        ex.cover("copied")
    fs = [f"vgm.ym2151.config:{kind}.__deepcopy__", f"vgm.ym2151.config:{kind}.__init__"]
    if kind == "ChannelConfig":
        fs += ["vgm.ym2151.config:OperatorConfig.__deepcopy__", "vgm.ym2151.config:OperatorConfig.__init__"]
    return Unit(f"copies of {kind}", run, fs, replay(kind), cover=["copied"],
                assumptions=["a parameter is changed by assigning its attribute or by changing the operator list"])


def fresh_defaults(ex):
    """a new set is private: two new sets share nothing"""
    from vgm.ym2151 import config
    kind = ex.choose(list(KINDS))
    cls = getattr(config, kind)
    a, b = cls(), cls()
    am, bm = mutable_objects(a)[0], mutable_objects(b)[0]
    g = model.global_objects()
    if set(am) & set(bm) or set(am) & set(g):
        ex.fail("C17.new-sets-share-nothing", f"two new {kind} share an object", {"a": {}})
    else:
        ex.prove("C17.new-sets-share-nothing", True)


UNITS = {"C17": [equality(k) for k in KINDS] + [copying(k) for k in KINDS] +
         [Unit("constructors", fresh_defaults, [f"vgm.ym2151.config:{k}.__init__" for k in KINDS])]}
