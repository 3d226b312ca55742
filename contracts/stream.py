"""C01-C04: command framing, waits, cuts and headers (vgm.core, vgm.command)."""
import z3
from engine import heap
from engine.core import Unsupported, PathCut
from engine.containers import SymFile
from engine.symval import SymInt, mk_int, zi, Z
from engine.unit import Unit
from spec import vgm as vspec
from .common import (sym_file, model_bytes, model_int, eq, outcome, frame, bytes_are)

CORE = ["vgm.core:Vgm.__next__", "vgm.core:Vgm.__iter__", "vgm.core:command", "vgm.core:_read8", "vgm.core:_read16", "vgm.core:_read32",
        "vgm.command:VgmCommand.__init__", "vgm.command:WaitCommand.__init__", "vgm.ym2151.config:YM2151Command.__init__"]
HEAD = ["vgm.core:reader", "vgm.core:Vgm.__init__", "vgm.core:_read32", "vgm.core:_read_bcd", "vgm.core:Vgm.size", "vgm.core:Vgm.clock",
        "vgm.core:Vgm.supports", "vgm.core:Vgm.__iter__"]
KNOWN68 = "C01.known-finding-0x68"


def good_header(ex, name):
    """an opened stream of arbitrary content behind an arbitrary valid header"""
    import vgm.core
    f = sym_file(ex, name, 0x38)
    for i, b in enumerate(b"Vgm "):
        ex.assume(f.content(Z(i)) == b)
    kind, v = outcome(lambda: vgm.core.reader(f))
    if kind == "exc" or v is None:
        raise PathCut       # whether headers are accepted: property C04
    return f, v


def kind_of(ex, c):
    from vgm.command import VgmCommandType as T
    t = c.command_type
    return {T.YM2151: "ym2151", T.WAIT: "wait", T.EOS: "eos", None: "other"}.get(t, "?")


def step_unit(ex):
    """One next() at an arbitrary position P of an arbitrary stream."""
    from engine import heap
    f, v = good_header(ex, "f")
    it = iter(v)
    if it is not v:
        raise Unsupported("the iterator is not the reader itself")
    P = ex.fresh_int("P")
    n = f.length
    # the state of the reader between two commands is its position only: everything else is as
    # after construction, and the frame obligation below shows that next() keeps it so
    ex.assume(z3.And(P >= 0, P <= n))
    f.pos = mk_int(P, 0)
    if ex.choose([False, True]):        # a loop over a stream that has been read from goes on where it is
        it = iter(v)
        ex.prove("C01.iterating-goes-on", z3.And(zi(f.pos) == P, z3.BoolVal(it is v)), {"f": f, "P": P, "over": it is not v})
    byte = lambda i: f.content(z3.simplify(P + i))
    snap = heap.Snapshot([("v", v)] + heap.global_roots())
    info = {"f": f, "P": P}
    kind, c = outcome(lambda: next(it))
    end = zi(f.pos)
    rem = z3.simplify(n - P - 1)
    if ex.branch(P == n):
        ex.cover("end")
        ok = kind == "exc" and isinstance(c, StopIteration)
        ex.prove("C03.end-between-commands", True if ok else False, info)
        ex.prove("C01.until-data-ends", True if ok else False, info)
        frame(ex, "C01.reader-state-is-position", snap, lambda p, l, o: o is f, info)
        return
    op_t = byte(0)
    ex.assume(z3.And(op_t >= 0, op_t <= 255))
    op = SymInt(op_t, 0, 255)
    frame(ex, "C01.reader-state-is-position", snap, lambda p, l, o: o is f, info)
    interpreted = {0x54: 2, 0x61: 2, 0x67: 6, 0x68: 11}
    for o, k in interpreted.items():
        if ex.branch(op_t == o):
            if ex.branch(rem < k):
                ex.cover(f"cut-{o:#x}")
                raises = kind == "exc" and not isinstance(c, StopIteration)
                ex.prove("C03.cut-raises", True if raises else False, info)
                return
            break
    if kind == "exc":
        for pr in ("C01.yields", "C03.uncut-yields"):
            ex.fail(pr, f"raises {type(c).__name__}", info)
        return
    ex.prove("C01.command-id", eq(c.command_id, op), info)
    got = kind_of(ex, c)
    if ex.branch(op_t == 0x54):
        ex.cover("ym2151")
        ok = got == "ym2151"
        ex.prove("C01.kind", ok, info)
        ex.prove("C03.uncut-yields", ok, info)
        if ok:
            good = z3.And(eq(c.reg, SymInt(byte(1))), eq(c.value, SymInt(byte(2))))
            ex.prove("C01.register-operands", good, info)
            ex.prove("C03.operands-not-invented", good, info)
        ex.prove("C01.consumes", end == P + 3, info)
        return
    if vspec.is_wait(op):
        ok = got == "wait"
        ex.cover("wait")
        ex.prove("C01.kind", ok, info)
        ex.prove("C02.is-wait", ok, info)
        k = 2 if op == 0x61 else 0
        ex.prove("C01.consumes", end == P + 1 + k, info)
        if ok:
            operand = SymInt(z3.simplify(byte(1) + 256 * byte(2)), 0, 65535) if k else None
            w = vspec.wait_samples(op, operand)
            good = eq(c.samples, w)
            ex.prove("C02.samples", good, info)
            if k:
                ex.prove("C03.operands-not-invented", good, info)
        return
    ex.prove("C02.only-waits-wait", got != "wait", info)
    if ex.branch(op_t == 0x66):
        ex.cover("eos")
        ex.prove("C01.kind", got == "eos", info)
        ex.prove("C01.consumes", end == P + 1, info)
        return
    ex.prove("C01.kind", got == "other", info)
    if ex.branch(op_t == 0x67):
        ex.cover("block")
        u32 = SymInt(byte(3) + 256 * byte(4) + 65536 * byte(5) + 16777216 * byte(6), 0, (1 << 32) - 1)
        size = zi(vspec.block_size(u32))
        have = z3.simplify(rem - 6)
        ln = z3.If(size <= have, size, have)
        bytes_are(ex, "C01.payload", c.payload, f.content, P + 7, ln, info)
        bytes_are(ex, "C03.cut-payload", c.payload, f.content, P + 7, ln, info)
        ex.prove("C01.consumes", end == P + 7 + ln, info)
        return
    if ex.branch(op_t == 0x68):
        # Known finding: the format defines 11 operand bytes and no data behind them; the code also
        # consumes as many bytes as the command's size field.  Exactly these two are accepted.
        ex.cover("pcm-ram")
        ss = byte(9) + 256 * byte(10) + 65536 * byte(11)
        have = z3.simplify(rem - 11)
        ln = z3.If(ss <= have, ss, have)
        ex.prove("C01.pcm-ram-write", z3.Or(end == P + 12, end == P + 12 + ln), info)
        if ex._check(end != P + 12) != z3.unsat:
            ex.cover(KNOWN68)
        return
    k = vspec.fixed_len(op)
    ex.cover(f"fixed-{k}")
    ln = z3.If(rem >= k, Z(k), rem) if k else Z(0)
    bytes_are(ex, "C01.payload", c.payload, f.content, P + 1, ln, info)
    bytes_are(ex, "C03.cut-payload", c.payload, f.content, P + 1, ln, info)
    ex.prove("C01.consumes", end == P + 1 + ln, info)


def step_replay(m, info):
    f, P = info["f"], model_int(m, info["P"])
    n = model_int(m, f.length)
    data = bytes(model_int(m, f.content(Z(P + i))) % 256 for i in range(max(0, min(n - P, 300))))
    from base64 import b64encode
    e = lambda b: b64encode(b).decode()
    out = [{"data": e(data)}]
    out.append({"data": e(data + bytes([0x54, 0x11, 0x22, 0x62]))})
    out.append({"data": e(b"\x54\x20\xC0" + data)})
    return out


STEP_COVER = ["end", "ym2151", "wait", "eos", "block", "pcm-ram", "fixed-0", "fixed-1", "fixed-2", "fixed-3", "fixed-4", "fixed-5", "fixed-10",
              "cut-0x54", "cut-0x61", "cut-0x67", "cut-0x68"]


def u32_at(f, o):
    b = [f.content(Z(o + i)) for i in range(4)]
    return b


def header_unit(gz):
    def run(ex):
        import vgm.core
        f = sym_file(ex, "f", 0)
        snap = heap.Snapshot(heap.global_roots())
        src = f
        info = {"f": f, "gz": gz}
        c0 = [f.content(Z(i)) for i in range(2)]
        is_gz = z3.And(f.length >= 2, c0[0] == 0x1F, c0[1] == 0x8B)
        if gz:
            ex.assume(is_gz)
            inner = sym_file(ex, "inner", 0)
            opened = []

            def hook(fobj, mode):
                if fobj is not f:
                    raise Unsupported("gzip.open of another object")
                ex.prove("C04.gzip-from-start", zi(f.pos) == 0, info)
                ex.prove("C04.gzip-mode", mode in ("rb", "r"), info)
                opened.append(1)
                return inner
            ex.gzip_hook = hook
            src = inner
            info["inner"] = inner
        else:
            ex.assume(z3.Not(is_gz))

            def hook(fobj, mode):
                ex.fail("C04.no-gzip", "plain content is passed to gzip", info)
                raise PathCut
            ex.gzip_hook = hook
        n = src.length
        kind, v = outcome(lambda: vgm.core.reader(f))
        magic = b"Vgm "
        good = z3.And(n >= 4, *[src.content(Z(i)) == magic[i] for i in range(4)])
        if not ex.branch(good):
            ex.cover("rejected")
            ex.prove("C04.rejects", kind == "val" and v is None, info)
            return
        W = {o: [src.content(Z(o + i)) for i in range(4)] for o in (4, 8, 0x0C, 0x10, 0x30, 0x34)}
        for bs in W.values():
            for b in bs:
                ex.assume(z3.And(b >= 0, b <= 255))
        u = lambda o: z3.simplify(W[o][0] + 256 * W[o][1] + 65536 * W[o][2] + 16777216 * W[o][3])
        ver = z3.IntVal(0)
        for b in (W[8][3], W[8][2], W[8][1], W[8][0]):
            ver = ver * 100 + (b / 16) * 10 + b % 16
        ver = z3.simplify(ver)
        need = z3.If(ver >= 150, Z(0x38), Z(0x34))
        if ex.branch(n < need):
            ex.cover("cut")
            ex.prove("C04.cut-header-raises", kind == "exc", info)
            return
        if kind == "exc":
            ex.fail("C04.accepts", f"raises {type(v).__name__}: {v}", info)
            return
        if v is None:
            ex.fail("C04.accepts", "rejected", info)
            return
        ex.prove("C04.accepts", True)
        old = ex.branch(ver < 110)
        new = ex.branch(ver >= 150)
        ex.cover("old" if old else "new" if new else "middle")
        ex.prove("C04.size", eq(v.size(), SymInt(u(4) + 4)), info)
        ex.prove("C04.version", eq(v.version, SymInt(ver)), info)
        clock = u(0x10) if old else u(0x30)
        ex.prove("C04.clock", z3.And(eq(v.clock("ym2151"), SymInt(clock)), eq(v.clock("ym2413"), SymInt(u(0x10)))), info)
        ex.prove("C04.supports", z3.And(truth(ex, v.supports("ym2151")) == (clock > 0), truth(ex, v.supports("ym2413")) == (u(0x10) > 0),
                                        z3.Not(truth(ex, v.supports("ym2612")))), info)
        start = 0x34 + u(0x34) if new else Z(0x40)
        ex.prove("C04.data-start", eq(v.data_start, SymInt(start)), info)
        iter(v)
        ex.prove("C04.iteration-starts-at-data", zi(src.pos) == start, info)
        frame(ex, "C04.shared-state-untouched", snap, None, info)
        # an independent second reader does not change what this one reports
        before = heap.Snapshot([("v", v)])
        second(ex)
        frame(ex, "C04.unaffected-by-another", before, lambda p, l, o: o is src or o is f, info)
    return run


def second(ex):
    """opens another file with arbitrary header"""
    import vgm.core
    g = sym_file(ex, "g", 0x40)
    for i, b in enumerate(b"Vgm "):
        ex.assume(g.content(Z(i)) == b)
    outcome(lambda: vgm.core.reader(g))


def truth(ex, r):
    from engine.symval import zb
    return zb(r)


def header_replay(m, info):
    f = info["f"]
    src = info.get("inner") or f
    raw = model_bytes(m, src, 0x50)
    return {"raw": __import__("base64").b64encode(raw).decode(), "gz": bool(info["gz"])}


step = Unit("Vgm.__next__ at an arbitrary position", step_unit, CORE, replay=step_replay, cover=STEP_COVER,
            assumptions=["file.read(n) returns the next min(n, rest) bytes (io dependency)", "struct native byte order is little-endian (x86-64 host)"])
plain = Unit("reader on plain content", header_unit(False), HEAD, replay=header_replay, cover=["rejected", "cut", "old", "new", "middle"],
             assumptions=["file.read(n) returns the next min(n, rest) bytes (io dependency)"])
zipped = Unit("reader on gzip content", header_unit(True), HEAD, replay=header_replay, cover=["rejected", "cut", "old", "new", "middle"],
              assumptions=["gzip.open yields the decompressed content as a seekable file (gzip dependency)"])
UNITS = {"C01": [step], "C02": [step], "C03": [step], "C04": [plain, zipped]}
