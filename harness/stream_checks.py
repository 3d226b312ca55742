"""Run-time contracts for the VGM reader: C01..C04, C10."""
import base64
import gzip
import io

from .common import *
from .common import chip, vspec


def enc(b):
    return base64.b64encode(bytes(b)).decode()


def dec(s):
    return base64.b64decode(s)


def rnd_command(r, ops=None, big=False):
    op = r.choice(ops) if ops else r.randrange(256)
    if r.random() < 0.25:
        op = r.choice([0x54, 0x61, 0x66, 0x67, 0x68, 0x62, 0x63, 0x30, 0x4F, 0x50, 0x51, 0x80, 0x95, 0xA0])
    pick = lambda: r.choice([0x54, 0x66, 0x67, 0x61, 0, 1, 0xFF, r.randrange(256)])
    if op == 0x67:
        n = r.choice([0, 1, 2, 5, 66, 300 if big else 7])
        size = n | (0x80000000 if r.random() < 0.4 else 0)
        return bytes([op, 0x66, pick()]) + u32(size) + bytes(pick() for _ in range(n))
    if op == 0x68:
        return bytes([op, 0x66, pick()] + [pick() for _ in range(6)]) + int(r.choice([0, 1, 3, 9])).to_bytes(3, "little")
    return bytes([op] + [pick() for _ in range(vspec.fixed_len(op))])


NO68 = [x for x in range(256) if x != 0x68]


def describe(cmd):
    from vgm.command import WaitCommand, EOSCommand
    from vgm.ym2151.config import YM2151Command
    if isinstance(cmd, YM2151Command):
        return ("ym2151", cmd.command_id, {"reg": cmd.reg, "value": cmd.value})
    if isinstance(cmd, WaitCommand):
        return ("wait", cmd.command_id, {"samples": cmd.samples})
    if isinstance(cmd, EOSCommand):
        return ("eos", cmd.command_id, {})
    return ("other", cmd.command_id, {"payload": b"" if cmd.payload is None else bytes(cmd.payload)})


def iterate(v, limit=400000):
    """[(description, position after)] , 'end' | 'error', position at the end"""
    out = []
    it = iter(v)
    for _ in range(limit):
        try:
            c = next(it)
        except StopIteration:
            return out, "end", None
        except Exception as e:
            return out, "error", e
        out.append(describe(c))
    raise Violation(f"no end after {limit} commands")


KNOWN68 = True      # known finding: the implementation also consumes the data length of opcode 0x68


class StreamCheck:
    def shrink(self, inp):
        d = dec(inp["data"])
        cmds, _ = vspec.parse(d, KNOWN68)
        spans = [(c[3], c[4]) for c in cmds]
        n = len(spans)
        for size in (n // 2, n // 4, 1):
            if size < 1:
                continue
            for i in range(0, n, size):
                a, b = spans[i][0], spans[min(n, i + size) - 1][1]
                yield dict(inp, data=enc(d[:a] + d[b:]))

    def open(self, d, inp):
        v = open_stream(d, **inp.get("hdr", {}))
        expect(v is not None, "a VGM file is rejected")
        return v

    def compare(self, got, want, kinds=("ym2151", "wait", "eos", "other"), d=b""):
        for i, (g, w) in enumerate(zip(got, want)):
            gk, wk = g[0], w[0]
            if g[1] != w[1] or (gk != wk and (gk in kinds or wk in kinds)):
                raise Violation(f"command {i} is {g[0]} {g[1]:#x}, should be {w[0]} {w[1]:#x} (file offset {w[3]})")
            if gk != wk:
                continue
            if wk in kinds:
                wf = dict(w[2])
                gf = {k: v for k, v in g[2].items() if k in wf}
                if wk == "other" and "payload" not in wf:
                    expect(not g[2].get("payload") or w[1] == 0x68, f"command {i} {w[1]:#x} should have no operand bytes but has {g[2]['payload']!r}")
                expect(gf == wf, f"command {i} {w[1]:#x} carries {gf}, should carry {wf}")


def long_stream(n):
    """one-byte waits with another command every now and then"""
    out = bytearray()
    for i in range(n):
        if i % 1000 == 7:
            op = (i // 1000) % 256
            if op in (0x66, 0x67, 0x68):
                op = 0x54
            out += bytes([op] + [i % 256] * vspec.fixed_len(op))
        else:
            out.append(0x70 + i % 32)
    return bytes(out)


def dense_stream(r, n):
    """n commands of several bytes each: some of them lie across any boundary a buffer may have"""
    out = []
    while len(out) < n:
        c = rnd_command(r, ops=[x for x in NO68 if x != 0x66])
        if c[0] not in (0x66, 0x68):
            out.append(c)
    return b"".join(out)


class C01(StreamCheck):
    def known(self):
        """findings listed in /verif/known-findings.txt that the code under test shows"""
        d = bytes([0x68, 0x66] + [0] * 7) + (2).to_bytes(3, "little") + b"\x62\x63\x66"
        try:
            got, _, _ = iterate(self.open(d, {}))
        except Exception:
            return []
        return ["pcm-ram-0x68"] if [g[1] for g in got] == [0x68, 0x66] else []

    def inputs(self, r):
        tail = bytes([0x54, 0x12, 0x34, 0x62, 0x66, 0x54, 1, 2])
        for op in range(256):
            for fill in (0x00, 0x54, 0xFF, 0x66, 0x01):
                if op == 0x67:
                    for n in (0, 1, 3, 0x54, 256, 70000):
                        for hi in (0, 0x80000000):
                            yield {"data": enc(bytes([op, 0x66, fill]) + u32(n | hi) + bytes([fill]) * n + tail)}
                elif op == 0x68:
                    for n in (0, 1, 0x54, 300, 70000):
                        yield {"data": enc(bytes([op, 0x66] + [fill] * 7) + n.to_bytes(3, "little") + (bytes([fill]) * n if KNOWN68 else b"") + tail)}
                else:
                    k = vspec.fixed_len(op)
                    yield {"data": enc(bytes([op] + [(fill + i) % 256 if fill not in (0x54, 0xFF) else fill for i in range(k)]) + tail)}
        yield {"data": enc(long_stream(270000) + tail), "limit": 90}
        for n in (6000, 60000):
            yield {"data": enc(dense_stream(r, n)), "limit": 90}
        for n in (65535, 65536, 65537, 131073, 300000, (1 << 20) + 3):
            yield {"data": enc(bytes([0x67, 0x66, 0]) + u32(n) + bytes(i * 7 % 251 for i in range(n)) + tail)}
        while True:
            cmds = [rnd_command(r, big=True) for _ in range(r.choice([1, 3, 10, 40]))]
            out = []
            for c in cmds:
                if c[0] == 0x68 and KNOWN68:
                    c = c + bytes(r.randrange(256) for _ in range(int.from_bytes(c[9:12], "little")))
                out.append(c)
            yield {"data": enc(b"".join(out))}

    def run(self, inp):
        d = dec(inp["data"])
        want, end = vspec.parse(d, KNOWN68)
        if end == "error":
            return          # cut inside a command: property C03
        v = self.open(d, inp)
        got, gend, exc = iterate(v)
        self.compare(got, want)
        if 1 < len(want) < 60:          # a loop over a stream that has been read from goes on where it is
            v = self.open(d, inp)
            first = describe(next(iter(v)))
            rest = iterate(v)[0]
            expect([first] + rest == got, f"after one command, iterating again yields {len(rest)} commands instead of {len(got) - 1}")
        expect(gend == end, f"iteration ends with {gend} ({exc!r}) after {len(got)} of {len(want)} commands")
        expect(len(got) == len(want), f"{len(got)} commands, should be {len(want)}")


class C02(StreamCheck):
    def inputs(self, r):
        for op in list(range(0x60, 0x90)):
            if op in (0x67, 0x68):
                continue
            for a in range(0, 256, 17):
                k = vspec.fixed_len(op)
                yield {"data": enc(bytes([op] + [a, 255 - a][:k]) + b"\x62")}
        for v in [0, 1, 255, 256, 257, 0x7FFF, 0x8000, 0xFF00, 0xFFFF, 735, 44100]:
            yield {"data": enc(b"\x61" + v.to_bytes(2, "little"))}
        yield {"data": enc(long_stream(270000) + b"\x66"), "limit": 90}
        yield {"data": enc(dense_stream(r, 30000)), "limit": 90}
        while True:
            yield {"data": enc(b"".join(rnd_command(r, ops=[x for x in NO68 if x != 0x67]) if r.random() < .3 else
                                       bytes([0x61, r.randrange(256), r.randrange(256)]) if r.random() < .5 else bytes([r.randrange(0x70, 0x90)])
                                       for _ in range(20)).replace(b"\x68", b"\x62"))}

    def run(self, inp):
        d = dec(inp["data"])
        want, end = vspec.parse(d, KNOWN68)
        got, gend, exc = iterate(self.open(d, inp))
        for i, (g, w) in enumerate(zip(got, want)):
            if g[1] != w[1]:
                return      # framing: property C01
            if g[0] == "wait" or w[0] == "wait":
                expect(g[0] == w[0], f"command {i} {w[1]:#x} is {g[0]}, should be {w[0]}")
                expect(g[2]["samples"] == w[2]["samples"], f"wait {w[1]:#x} lasts {g[2]['samples']} samples, should last {w[2]['samples']}")


class C03(StreamCheck):
    def inputs(self, r):
        for op in range(256):
            for extra in (0, 1):
                if op == 0x67:
                    c = bytes([op, 0x66, 0]) + u32(4) + b"\x54\x01\x02\x62"
                elif op == 0x68:
                    c = bytes([op, 0x66, 0] + [0] * 6) + (3).to_bytes(3, "little") + (b"abc" if KNOWN68 else b"")
                else:
                    c = bytes([op] + [0x54 if extra else 0x62] * vspec.fixed_len(op))
                for cut in range(len(c) + 1):
                    yield {"data": enc(b"\x54\x20\xC7\x62" + c[:cut])}
        yield {"data": enc(long_stream(270000) + b"\x61\x10"), "limit": 90}
        yield {"data": enc(long_stream(270000) + b"\x54"), "limit": 90}
        for n in (2000, 30000):
            for cut in (0, 1, 2):
                d = dense_stream(r, n)
                yield {"data": enc(d[:len(d) - cut]), "limit": 90}
        while True:
            d = b"".join(rnd_command(r, ops=NO68) for _ in range(r.choice([1, 2, 6])))
            yield {"data": enc(d[:r.randrange(len(d) + 1)])}

    def run(self, inp):
        d = dec(inp["data"])
        want, end = vspec.parse(d, KNOWN68)
        got, gend, exc = iterate(self.open(d, inp))
        for i, (g, w) in enumerate(zip(got, want)):
            expect(g[1] == w[1] and g[0] == w[0], f"command {i} is {g[0]} {g[1]:#x}, should be {w[0]} {w[1]:#x}")
            wf = dict(w[2])
            if w[0] == "other" and "payload" in wf or w[0] != "other":
                expect({k: v for k, v in g[2].items() if k in wf} == wf, f"command {i} {w[1]:#x} carries {g[2]}, should carry {wf}")
        expect(len(got) <= len(want), f"a command {got[len(want):][:1]} is invented behind the cut")
        expect(len(got) == len(want), f"{len(got)} commands before the cut, should be {len(want)}")
        expect(gend == end, f"iteration of a stream cut at byte {len(d)} ends with {gend}, should be {end}")


class C04(StreamCheck):
    def inputs(self, r):
        vers = [0x100, 0x101, 0x109, 0x110, 0x111, 0x149, 0x150, 0x151, 0x161, 0x171, 0x172, 0x99, 0x200, 0x10000150, 0x12345678, 0]
        for gz in (False, True):
            for v in vers:
                for off in (0x0C, 0x4C, 0xCC, 0x14):
                    for c13, c51 in ((0, 0), (3579545, 0), (0, 4000000), (3579545, 4000000), (0x80000001, 0xFFFFFFFF)):
                        yield {"hdr": dict(version=v, data_off=off, ym2413=c13, ym2151=c51, eof=r.randrange(1 << 32)), "gz": gz, "data": enc(b"\x62\x54\x20\xC0\x66")}
            for cut in list(range(0, 70)):
                for v in (0x101, 0x151):
                    yield {"hdr": dict(version=v), "gz": gz, "cut": cut, "data": enc(b"\x62")}
            for magic in (b"", b"V", b"Vgm", b"VGM ", b"vgm ", b"Vgm\x00", b"Vgm!", b"MThd", b"\x1f\x8b", b"PK\x03\x04", b" Vgm", b"\x00\x00\x00\x00", b"Xgm "):
                yield {"raw": enc(magic + bytes(80)), "gz": gz}
                yield {"raw": enc(magic), "gz": gz}
        while True:
            yield {"hdr": dict(version=int(str(r.randrange(90, 200)), 16), data_off=r.randrange(0x0C, 0x90), ym2413=r.choice([0, r.randrange(1 << 32)]),
                               ym2151=r.choice([0, r.randrange(1 << 32)]), eof=r.randrange(1 << 32), length=r.choice([0x40, 0x80, 0x100]), fill=0x63),
                   "gz": r.random() < .5, "data": enc(bytes([0x62] * r.randrange(4)))}

    def shrink(self, inp):
        return []

    def run(self, inp):
        import vgm.core
        if "raw" in inp:
            d = dec(inp["raw"])
        else:
            d = vgm_file(dec(inp["data"]), **inp["hdr"])
            if "cut" in inp:
                d = d[:inp["cut"]]
        if not inp.get("gz") and d[:2] == b"\x1f\x8b":
            return
        raw = gzip.compress(d) if inp.get("gz") else d
        try:
            want = vspec.header(d)
        except EOFError:
            want = "error"
        # another file is opened before and after
        other = vgm.core.reader(io.BytesIO(vgm_file(b"", version=0x171, ym2151=111, ym2413=222)))
        try:
            v = vgm.core.reader(io.BytesIO(raw))
        except Exception as e:
            expect(want == "error", f"header raises {type(e).__name__}: {e}")
            return
        expect(want != "error", "a header cut short is accepted without error" if v is not None else "a header cut short is rejected without error")
        if want is None:
            expect(v is None, f"content starting {d[:4]!r} is accepted")
            return
        expect(v is not None, "a file with VGM magic is rejected")
        vgm.core.reader(io.BytesIO(vgm_file(b"", version=0x171, ym2151=333, ym2413=444)))
        got = {"size": v.size(), "version": v.version, "ym2413": v.clock("ym2413"), "ym2151": v.clock("ym2151"), "data_start": v.data_start}
        expect(got == want, f"header reports {got}, should be {want}")
        for chipname in ("ym2413", "ym2151"):
            expect(bool(v.supports(chipname)) == (want[chipname] > 0), f"supports({chipname}) is {v.supports(chipname)} for clock {want[chipname]}")
        expect(not v.supports("nosuchchip"), "an unknown chip is supported")
        expect(other.clock("ym2151") == 111 and other.clock("ym2413") == 222 and other.version == 171, "another open file reports changed values")
        body = d[want["data_start"]:]
        wantc, end = vspec.parse(body, KNOWN68)
        got, gend, exc = iterate(v)
        expect([g[1] for g in got] == [w[1] for w in wantc] and gend == end, "iteration does not start at the data start")


class C10(StreamCheck):
    def inputs(self, r):
        y = lambda reg, v: bytes([0x54, reg, v])
        song = y(0x20, 0xC7) + y(0x28, 0x4A) + y(8, 0x78) + b"\x62" + y(8, 0) + b"\x61\x10\x27" + y(8, 0x78) + b"\x75\x85"
        for op in range(256):
            c = bytes([op]) + bytes(vspec.fixed_len(op))
            for eos in (b"", b"\x66"):
                yield {"data": enc(song[:9] + c + song[9:] + eos + song)}
            yield {"data": enc(c + song + b"\x66" + c + y(8, 0x79) + b"\x63")}
            if op == 100:
                ym = b"".join(y(r.choice([8, 8, 0x20, 0x28, 0x60, 0x67]), r.randrange(256)) + r.choice([b"", b"\x62", b"\x61\x05\x00"]) for _ in range(20000))
                yield {"data": enc(ym), "limit": 90}
                yield {"data": enc(song + b"\x71" * 270000 + (y(8, 0x78) + b"\x72" + y(8, 0)) * 3000 + song + b"\x66"), "limit": 90}
        while True:
            out = b""
            for _ in range(r.choice([5, 20, 60])):
                k = r.random()
                if k < 0.45:
                    h = rnd_history(r, n=1)[0]
                    out += y(h[1], h[2]) if h[0] == "w" else b"\x61" + (h[1] % 65536).to_bytes(2, "little")
                elif k < 0.6:
                    out += bytes([r.choice([0x62, 0x63, 0x70 + r.randrange(16), 0x80 + r.randrange(16)])])
                elif k < 0.64:
                    out += b"\x66"
                else:
                    out += rnd_command(r, ops=[x for x in NO68 if x != 0x66])
            yield {"data": enc(out)}

    def run(self, inp):
        import main
        d = dec(inp["data"])
        want, end = vspec.parse(d, KNOWN68)
        m = chip.Chip()
        for kind, op, f, _, _ in want:
            if kind == "eos":
                end = "end"
                break
            if kind == "ym2151":
                m.write(f["reg"], f["value"])
            elif kind == "wait":
                m.wait(f["samples"])
        if end == "error":
            return
        st = main.process_vgm_file(self.open(d, inp))
        dl = diff_live(dump_live(st), model_live(m))
        expect(not dl, "state differs from the fold of the stream: " + "; ".join(dl[:5]))
        rec = dump_recorded(st)
        for c in range(8):
            expect(rec["events"][c] == m.events[c], f"events of channel {c}: {rec['events'][c][:4]} (of {len(rec['events'][c])}) should be {m.events[c][:4]} (of {len(m.events[c])})")
        expect(rec["configs"] == m.configs, f"{len(rec['configs'])} instruments, should be {len(m.configs)} (or their parameters differ)")
        expect(list(st.ticks()) == sorted(m.onsets), f"onsets {list(st.ticks())[:8]} should be {sorted(m.onsets)[:8]}")
        # the clock: one more wait-free key event shows it
        apply_step(st, ["w", 8, 0x78])
        m.write(8, 0x78)
        expect(dump_event(st.key_presses(0)[-1])[1] == m.sample, f"clock is {dump_event(st.key_presses(0)[-1])[1]}, should be {m.sample}")


CHECKS = {c.__name__: c for c in (C01, C02, C03, C04, C10)}
