"""C18: tools.smart_open."""
import builtins
import io
import os
import sys
import z3
from engine import heap
from engine.core import Budget, PathCut, Unsupported
from engine.symval import SymStr
from engine.unit import Unit
from .common import outcome, frame, engine_trouble

FUNCS = ["tools:smart_open"]
READ = ("r", "rb", "rt", "r+", "rb+", "r+b", "rt+", "r+t")
WRITE = ("w", "wb", "wt", "w+", "wb+", "w+b", "wt+", "w+t")
REFUSED = ("a", "ab", "at", "a+", "ab+", "x", "xb", "xt", "x+", "", "b", "t", "+", "U", "q", " r", "R", "W", "ar", "xw")


class Stub:
    """a stream that only counts how often it is closed"""

    def __init__(self, what):
        self.what, self.closes, self.bad = what, 0, []

    def close(self):
        self.closes += 1

    def detach(self):
        self.bad.append("detach")
        return self

    def flush(self):
        pass

    def write(self, *a):
        self.bad.append("write")

    def read(self, *a):
        self.bad.append("read")

    @property
    def closed(self):
        return self.closes > 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"stream attribute {n}")


class Std(Stub):
    def __init__(self, what):
        Stub.__init__(self, what)
        self.buffer = Stub(what + ".buffer")


class World:
    """standard streams, open() and the file name, all stubbed"""

    def __init__(self, ex, fail=False):
        self.ex, self.fail = ex, fail
        self.opened = []
        self.names = {}
        ex.open_hook = self.open
        ex.token_eq = self.token_eq
        ex.token_nonempty = lambda t: z3.Not(self.token_eq(t, ""))
        self.error = FileNotFoundError("stub")

    def token_eq(self, t, s):
        b = self.names.get((str(t), s))
        if b is None:
            b = self.names[(str(t), s)] = z3.Bool(f"{t}_is_{s!r}")
            for (n, o), c in list(self.names.items()):
                if n == str(t) and o != s:
                    self.ex.assume(z3.Not(z3.And(b, c)))
        return b

    def name(self, nm):
        t = self.ex.fresh_int(nm)
        self.ex.assume(z3.Not(self.token_eq(t, "")))
        self.ex.assume(z3.Not(self.token_eq(t, "-")))
        return SymStr.token(t)

    def open(self, *a, **k):
        h = Stub("file")
        args = dict(zip(("file", "mode", "buffering", "encoding", "errors", "newline"), a))
        args.update(k)
        if isinstance(args.get("file"), os.PathLike):
            args["file"] = os.fspath(args["file"])
            if args.get("encoding") == "locale":
                args["encoding"] = None
        self.opened.append((args, h))
        if self.fail:
            raise self.error
        return h

    def __enter__(self):
        self.saved = (sys.stdin, sys.stdout, sys.__stdin__, sys.__stdout__, builtins.open, io.open)
        self.stdin, self.stdout = Std("stdin"), Std("stdout")
        sys.stdin, sys.stdout, sys.__stdin__, sys.__stdout__ = self.stdin, self.stdout, self.stdin, self.stdout
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        sys.stdin, sys.stdout, sys.__stdin__, sys.__stdout__, builtins.open, io.open = self.saved

    def std(self):
        return (self.stdin, self.stdin.buffer, self.stdout, self.stdout.buffer)


class Boom(Exception):
    pass


class Bolt(BaseException):
    pass


def _built(c):
    """an exception of class c (None if it cannot be made)"""
    for args in (("x",), (), ("ascii", b"x", 0, 1, "r"), ("ascii", "x", 0, 1, "r"), ("x", 0, 1, "r"), ("x", [ValueError("v")]), ("x", [KeyboardInterrupt()])):
        try:
            return c(*args)
        except TypeError:
            pass
    return None


def _classes(c=BaseException):
    out = [c]
    for d in c.__subclasses__():
        if d.__module__ == "builtins":
            out += [x for x in _classes(d) if x not in out]
    return out


KINDS = {c.__name__: c for c in _classes()}
CORE = ("normal", "Boom", "Bolt", "KeyboardInterrupt", "SystemExit", "OSError", "StopIteration", "GeneratorExit", "ValueError")


def excs():
    """every way out of the block: normally, by any built-in exception, by exceptions nobody knows, by errors with a number"""
    import errno
    import os
    out = {"normal": None, "Boom": Boom("b"), "Bolt": Bolt("b"), "chained": Boom("c")}
    out["chained"].__cause__ = ValueError("cause")
    for n, c in KINDS.items():
        e = _built(c)
        if e is not None:
            out[n] = e
    out["SystemExit"] = SystemExit(3)
    out["SystemExit 0"], out["SystemExit None"] = SystemExit(0), SystemExit()
    out["ValueError"] = ValueError("I/O operation on closed file")
    out["StopIteration"] = StopIteration(1)
    for n in sorted(errno.errorcode):
        out[f"errno {n}"] = OSError(n, os.strerror(n))
    return out


NEUTRAL = {"encoding": (None, "utf-8", "utf8", "UTF-8"), "errors": (None, "strict"), "newline": (None,), "buffering": (-1,), "closefd": (True,), "opener": (None,)}


def use(W, name, mode, exc, body=None):
    """with smart_open(name, mode): raise exc -> (handle, exception)"""
    import tools
    h = raised = None
    try:
        with tools.smart_open(name, mode) as h:
            if body is not None:
                body(h)
            if exc is not None:
                raise exc
    except (PathCut, Unsupported, Budget):
        raise
    except BaseException as e:
        raised = e
    if raised is not None and raised is not exc:
        engine_trouble(raised)
    return h, raised


def same_name(got, want):
    return isinstance(got, SymStr) and got.pieces == want.pieces or got is want or isinstance(got, str) and isinstance(want, str) and os.path.abspath(got) == os.path.abspath(want)


def std_untouched(ex, name, W, info):
    bad = [s.what for s in W.std() if s.closes or s.bad]
    if bad:
        ex.fail(name, f"{bad} closed or used", info)
    else:
        ex.prove(name, True)


def propagated(ex, raised, exc, info):
    nm = "C18.exceptions-propagate-unchanged"
    if raised is exc:
        ex.prove(nm, True)
    else:
        ex.fail(nm, f"{exc!r} of the block became {raised!r}", info)


def odd_names(ex):
    """concrete names that look special: none of them is the empty name or '-'"""
    named(ex, ex.choose(["-x", "--", "x-", "./-", " ", " -", "0", "None", "stdout", "<stdin>", "/dev/null", "a.wb"]),
          ["r", "w", "rb", "wb", "a"], ["normal", "Boom"])


def named(ex, given=None, modes=None, exits=None):
    mode = ex.choose(modes or list(READ + WRITE + ("a", "ab", "x", "xb", "a+")))
    how = ex.choose(exits or (list(excs()) if mode in ("r", "rb", "w", "wb") else list(CORE)) + ["missing"])
    exc = excs().get(how)
    info = {"name": given or "file.txt", "mode": mode, "exit": how if how != "missing" else "missing"}
    glob = heap.Snapshot(heap.global_roots())
    with World(ex, fail=how == "missing") as W:
        name = given or W.name("filename")
        seen = []
        h, raised = use(W, name, mode, exc, lambda h: seen.append(W.opened and W.opened[-1][1].closes))
        if how == "missing":
            if raised is W.error and h is None:
                ex.prove("C18.open-errors-propagate", True)
            else:
                ex.fail("C18.open-errors-propagate", f"open() failed but the result is {raised!r}", dict(info, mode="r", name="missing"))
            std_untouched(ex, "C18.standard-streams-left-alone", W, info)
            return
        if len(W.opened) == 1 and same_name(W.opened[0][0].get("file"), name) and W.opened[0][0].get("mode", "r") == mode:
            ex.prove("C18.opens-exactly-that-file", True)
        else:
            ex.fail("C18.opens-exactly-that-file", f"open() calls: {[o[0] for o in W.opened]} for mode {mode!r}", info)
            return
        f = W.opened[0][1]
        odd = {k: v for k, v in W.opened[0][0].items() if k not in ("file", "mode") and v not in NEUTRAL.get(k, ())}
        if odd:
            raise Unsupported(f"open() with {odd}")
        if h is not f:
            if isinstance(h, Stub) or h is None:
                ex.fail("C18.yields-that-file", f"yields {getattr(h, 'what', h)!r}", info)
                return
            raise Unsupported("the block gets a wrapper around the file")
        ex.prove("C18.yields-that-file", True)
        ex.prove("C18.open-inside-the-block", seen == [0], info)
        ex.prove("C18.closed-exactly-once", f.closes == 1, info)
        ex.prove("C18.does-not-touch-the-data", not f.bad, info)
        propagated(ex, raised, exc, info)
        std_untouched(ex, "C18.standard-streams-left-alone", W, info)
        ex.cover("named")
    frame(ex, "C18.shared-state-untouched", glob, None, info)


def standard(ex):
    name = ex.choose(["-", "", None])
    mode = ex.choose(list(READ + WRITE))
    how = ex.choose(list(excs()) if mode in ("r", "rb", "w", "wb") else list(CORE))
    exc = excs()[how]
    info = {"name": name, "mode": mode, "exit": how}
    glob = heap.Snapshot(heap.global_roots())
    with World(ex) as W:
        h, raised = use(W, name, mode, exc)
        s = W.stdin if mode[0] == "r" else W.stdout
        want = s.buffer if "b" in mode else s
        if h is want:
            ex.prove("C18.no-name-means-standard-stream", True)
        elif isinstance(h, Stub) or h is None:
            ex.fail("C18.no-name-means-standard-stream", f"name {name!r} mode {mode!r} gives {getattr(h, 'what', h)!r} ({raised!r})", info)
            return
        else:
            raise Unsupported("the block gets a wrapper around a standard stream")
        ex.prove("C18.no-file-opened", not W.opened, info)
        std_untouched(ex, "C18.standard-streams-left-open", W, info)
        propagated(ex, raised, exc, info)
        ex.cover("standard")
    frame(ex, "C18.shared-state-untouched", glob, None, info)


def refused(ex):
    name = ex.choose(["-", "", None])
    mode = ex.choose(list(REFUSED))
    info = {"name": name, "mode": mode, "exit": "bad"}
    with World(ex) as W:
        entered = []
        h, raised = use(W, name, mode, None, entered.append)
        if entered or not isinstance(raised, Exception):
            ex.fail("C18.other-modes-refused", f"name {name!r} mode {mode!r} gives {getattr(h, 'what', h)!r}", info)
        else:
            ex.prove("C18.other-modes-refused", True)
        ex.prove("C18.no-file-opened", not W.opened, info)
        std_untouched(ex, "C18.standard-streams-left-open", W, info)


def nested(ex):
    """several blocks at once: each file is closed exactly when its own block ends"""
    import tools
    order = ex.choose(["inner raises", "normal", "standard inside", "standard outside", "one after another"])
    info = {"name": "file.txt", "mode": "r", "exit": "normal"}
    with World(ex) as W:
        a, b = W.name("name_a"), W.name("name_b")
        log = []
        try:
            if order == "one after another":
                for nm in (a, b, a):
                    with tools.smart_open(nm, "r"):
                        log.append([f.closes for _, f in W.opened])
                want = [[0], [1, 0], [1, 1, 0]]
            elif order == "standard inside":
                with tools.smart_open(a, "rb"):
                    with tools.smart_open("-", "wb"):
                        log.append([f.closes for _, f in W.opened])
                    log.append([f.closes for _, f in W.opened])
                want = [[0], [0]]
            elif order == "standard outside":
                with tools.smart_open("", "w"):
                    with tools.smart_open(a, "rb"):
                        log.append([f.closes for _, f in W.opened])
                    log.append([f.closes for _, f in W.opened])
                want = [[0], [1]]
            else:
                with tools.smart_open(a, "rb"):
                    try:
                        with tools.smart_open(b, "w"):
                            log.append([f.closes for _, f in W.opened])
                            if order == "inner raises":
                                raise Boom("inner")
                    except Boom:
                        pass
                    log.append([f.closes for _, f in W.opened])
                want = [[0, 0], [0, 1]]
        except Exception as e:
            engine_trouble(e)
            ex.fail("C18.blocks-do-not-interfere", f"{order}: raises {e!r}", dict(info, over=True))
            return
        if log == want and all(f.closes == 1 for _, f in W.opened):
            ex.prove("C18.blocks-do-not-interfere", True)
        else:
            ex.fail("C18.blocks-do-not-interfere", f"{order}: closes {log}, at the end {[f.closes for _, f in W.opened]}", info)
        std_untouched(ex, "C18.standard-streams-left-open", W, info)


def rebinding(ex):
    """a block that points the standard streams elsewhere: what smart_open opened is closed, the standard streams are not"""
    which = ex.choose(["named", "-", "", None])
    mode = ex.choose(["r", "rb", "w", "wb"])
    target = ex.choose(["handle", "other stream", "None"])
    how = ex.choose(["normal", "Boom", "KeyboardInterrupt"])
    exc = excs()[how]
    info = {"name": which if which != "named" else "file.txt", "mode": mode, "exit": how, "rebind": target}
    with World(ex) as W:
        name = W.name("filename") if which == "named" else which
        other = Std("another stream")

        def body(h):
            sys.stdout = sys.stdin = {"handle": h, "other stream": other, "None": None}[target]
        h, raised = use(W, name, mode, exc, body)
        if which == "named":
            ok = len(W.opened) == 1 and h is W.opened[0][1]
            if not ok:
                return                # decided by the other units
            ex.prove("C18.closed-exactly-once", h.closes == 1, info)
        else:
            ex.prove("C18.no-file-opened", not W.opened, info)
        propagated(ex, raised, exc, info)
        std_untouched(ex, "C18.standard-streams-left-open", W, info)
        if other.closes or other.buffer.closes:
            ex.fail("C18.standard-streams-left-open", "a stream the block installed as standard stream is closed", info)


def replay(m, info):
    return {k: info[k] for k in ("name", "mode", "exit", "rebind") if k in info}


UNITS = {"C18": [Unit("smart_open with a file name", named, FUNCS, replay, cover=["named"], assumptions=["open() is stubbed: it records its arguments and returns a stream that counts close()"]),
                 Unit("smart_open with names that look special", odd_names, FUNCS, replay, cover=["named"]),
                 Unit("smart_open without a name", standard, FUNCS, replay, cover=["standard"]),
                 Unit("smart_open, refused modes", refused, FUNCS, replay),
                 Unit("smart_open, several blocks", nested, FUNCS, replay),
                 Unit("smart_open, a block that rebinds the standard streams", rebinding, FUNCS, replay)]}
