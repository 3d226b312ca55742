"""C20: main.main() and the command line of main.py."""
import ast
import inspect
import sys
import z3
from engine import heap
from engine.core import Unsupported
from engine.symval import SymInt, SymStr, is_intlike, zi, ordinary_names
from engine.unit import Unit
from .common import sym_range, model_int, eq, outcome, frame


class Handle:
    def __init__(self, name, mode):
        self.name, self.mode, self.closed, self.touched = name, mode, 0, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed += 1

    def close(self):
        self.closed += 1

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"file method {n} in main")


class NotReadable(Exception):
    pass


def bind(fn, want, a, k):
    sig = inspect.signature(fn)
    if set(sig.parameters) != set(want):
        raise Unsupported(f"{fn.__name__} takes other arguments")
    b = sig.bind(*a, **k)
    b.apply_defaults()
    return b.arguments


class World:
    def __init__(self, ex):
        import main
        import extractors
        import vgm.core
        from vgm.ym2151.state import State
        self.ex = ex
        W = self
        self.tok = {n: SymStr.token(ex.fresh_int(n)) for n in ("vgm", "instr", "track")}
        ordinary_names(ex)
        self.instr = ex.choose([None, "", self.tok["instr"]])
        self.track = ex.choose([None, "", self.tok["track"]])
        self.ticks = ex.choose([None, sym_range(ex, "ticks", 1, None)])
        self.kind = ex.choose(["vgm", "not vgm", "cut"])
        self.estimate = sym_range(ex, "estimate", 1000, 7999)
        self.files, self.calls, self.states, self.reads, self.folds, self.given = [], [], [], [], [], []
        self.stream = type("Commands", (), {})()
        self.info = {"W": self}
        o_reader, o_proc = vgm.core.reader, main.process_vgm_file
        o_instr, o_track = extractors.extract_instruments, extractors.extract_tracks_to_xrns

        def reader(*a, **k):
            if len(a) != 1 or k:
                raise Unsupported("the reader is called differently")
            W.reads.append(a[0])
            if W.kind == "cut":
                raise NotReadable("the header is cut short")
            return W.stream if W.kind == "vgm" else None

        def process(*a, **k):
            b = bind(o_proc, ["cmds"], a, k)
            if b["cmds"] is None:
                return o_proc(None)
            st = State()
            W.folds.append((b["cmds"], st))
            W.states.append(st)
            return st

        def instruments(*a, **k):
            W.calls.append(("instr", dict(bind(o_instr, ["instr_filename", "s"], a, k))))

        def tracks(*a, **k):
            W.calls.append(("track", dict(bind(o_track, ["s", "track_filename", "ticks_per_note"], a, k))))

        def ticks_per_note(st, *a, **k):
            if not any(st is s for s in W.states):
                raise Unsupported("the tempo of another state is estimated")
            return W.estimate
        swap = [(o_reader, reader), (o_proc, process), (o_instr, instruments), (o_track, tracks)]
        done = set()
        for m in (main, extractors, vgm.core):
            for n, v in list(vars(m).items()):
                for o, s in swap:
                    if v is o:
                        setattr(m, n, s)
                        done.add(id(o))
        if len(done) != 4:
            raise Unsupported("main is organised differently")
        State.ticks_per_note = ticks_per_note

        def open_(name, mode="r", *a, **k):
            f = Handle(name, mode)
            W.files.append(f)
            return f
        ex.open_hook = open_

    def is_tok(self, x, n):
        return isinstance(x, SymStr) and x.pieces == self.tok[n].pieces


def run(ex):
    import main
    glob = heap.Snapshot(heap.global_roots())
    W = World(ex)
    kind, r = outcome(lambda: main.main(W.tok["vgm"], W.instr, W.track, W.ticks))
    info = W.info
    ins, trk = [c for n, c in W.calls if n == "instr"], [c for n, c in W.calls if n == "track"]
    ex.cover(W.kind)
    others = [f for f in W.files if not W.is_tok(f.name, "vgm") or set(f.mode) - set("rb")]
    ex.prove("C20.main-writes-no-other-file", not others, info)
    if W.kind != "vgm":
        ex.prove("C20.no-output-for-other-input", not W.calls and not others, info)
        return
    if kind == "exc":
        ex.fail("C20.no-exception", f"raises {type(r).__name__}: {r}", info)
        return
    ex.prove("C20.reads-the-named-file", len(W.files) >= 1 and len(W.reads) == 1 and any(W.reads[0] is f for f in W.files)
             and all("b" in f.mode for f in W.files), info)
    ex.prove("C20.analyses-that-file", len(W.folds) == 1 and W.folds[0][0] is W.stream, info)
    if len(W.folds) != 1:
        return
    st = W.folds[0][1]
    ex.prove("C20.instruments-iff-requested", len(ins) == (1 if W.instr else 0), info)
    ex.prove("C20.song-iff-requested", len(trk) == (1 if W.track else 0), info)
    for c in ins:
        ex.prove("C20.instruments-of-that-analysis", c["s"] is st and W.is_tok(c["instr_filename"], "instr"), info)
    for c in trk:
        ex.prove("C20.song-of-that-analysis", c["s"] is st and W.is_tok(c["track_filename"], "track"), info)
        t = c["ticks_per_note"]
        want = W.ticks if W.ticks is not None else W.estimate
        if is_intlike(t):
            ex.prove("C20.given-or-estimated-ticks", zi(t) == zi(want), info)
        else:
            ex.fail("C20.given-or-estimated-ticks", f"{t!r}", info)
    frame(ex, "C20.shared-state-untouched", glob, lambda p, l, o: True if l in ("reader", "process_vgm_file", "extract_instruments", "extract_tracks_to_xrns",
          "ticks_per_note") else False, info)
    frame(ex, "C19.shared-state-untouched", glob, lambda p, l, o: True if l in ("reader", "process_vgm_file", "extract_instruments", "extract_tracks_to_xrns",
          "ticks_per_note") else False, info)


def replay(m, info):
    W = info["W"]
    kind = {"vgm": "vgm", "not vgm": "junk", "cut": "empty"}[W.kind]
    nm = lambda x, f: f if isinstance(x, SymStr) else x
    out = []
    for t in {None if W.ticks is None else max(1, model_int(m, W.ticks)), None if W.ticks is None else 1500, None if W.ticks is None else 9000}:
        out.append({"instr": nm(W.instr, "out.json"), "track": nm(W.track, "out.xrns"), "ticks": t, "how": "call", "seed": 5, "kind": kind})
    return out


# ---------------------------------------------------------------- the block that runs when main.py is the script
def script_block():
    from engine import unit
    import os
    src = open(os.path.join(unit.REPO_SRC, "main.py")).read()
    tree = ast.parse(src)
    for n in tree.body:
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test) and "__main__" in ast.unparse(n.test):
            return n.body
    raise Unsupported("main.py has no script part")


def cli(ex):
    import main
    body = script_block()
    code = compile(ast.Module(body=body, type_ignores=[]), "main.py", "exec")
    io, to, no = ("-i", "--instrument"), ("-t", "--track"), ("-tn", "--ticks-per-note")
    how = ex.choose(["separate", "joined", "options first"])
    i, t, n = ex.choose([None, 0, 1]), ex.choose([None, 0, 1]), ex.choose([None, 0, 1])
    names = {"f": "the input.vgm", "i": "instruments of it.json", "t": "tracks -of it.xrns", "n": "1234"}
    opts = []
    for sel, forms, key in ((i, io, "i"), (t, to, "t"), (n, no, "n")):
        if sel is None:
            continue
        if how == "joined" and sel == 1:
            opts.append(f"{forms[sel]}={names[key]}")
        else:
            opts += [forms[sel], names[key]]
    argv = ["main.py"] + (opts + [names["f"]] if how == "options first" else [names["f"]] + opts)
    info = {"argv": argv}
    got = []
    sig = inspect.signature(main.main)

    def rec(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        got.append(dict(b.arguments))
    ns = {k: v for k, v in vars(main).items() if not k.startswith("__")}
    ns.update({"__name__": "__main__", "__builtins__": __builtins__, "main": rec})
    save = sys.argv
    sys.argv = list(argv)
    try:
        try:
            exec(code, ns)
        finally:
            sys.argv = save
    except SystemExit as e:
        ex.fail("C20.command-line-is-understood", f"{argv}: exit {e.code}", info)
        return
    except Exception as e:
        ex.fail("C20.command-line-is-understood", f"{argv}: {type(e).__name__}: {e}", info)
        return
    want = ["the input.vgm", None if i is None else names["i"], None if t is None else names["t"], None if n is None else 1234]
    if len(got) != 1:
        raise Unsupported("the script part does not call main() once")
    g = list(got[0].values())
    ok = len(g) == 4 and g[0] == want[0] and [x or None for x in g[1:]] == want[1:] and all(type(x) is type(y) for x, y in zip(g, want) if y is not None)
    if ok:
        ex.prove("C20.command-line-is-passed-on", True)
    else:
        ex.fail("C20.command-line-is-passed-on", f"{argv}: main{tuple(g)}", info)


def cli_replay(m, info):
    a = info["argv"]
    return [{"instr": "out.json" if any(x.startswith(("-i", "--i")) for x in a) else None, "track": "out.xrns" if any(x.startswith(("--tr",)) or x == "-t" for x in a) else None,
             "ticks": 1500 if any(x.startswith(("-tn", "--ticks")) for x in a) else None, "how": "cli", "seed": s, "kind": "vgm"} for s in (5, 6, 7, 8)]


_m = Unit("main", run, ["main:main", "tools:smart_open"], replay, cover=["vgm", "not vgm", "cut"],
          assumptions=["vgm.core.reader, process_vgm_file, extract_instruments, extract_tracks_to_xrns and ticks_per_note behave as their contracts say (C01-C16)",
                       "the input is named by a file name, not by the empty name or '-'"])
_c = Unit("command line", cli, ["main:<script>"], cli_replay,
          assumptions=["argparse passes option values on unchanged, whatever they are; the combinations and spellings of the options are enumerated"])
UNITS = {"C20": [_m, _c], "C19": [_m]}
