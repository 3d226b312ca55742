"""Run-time contracts for the chip analysis: C05..C09, C14, C15, C17."""
import copy
import io
import json
import os

from .common import *
from .common import chip


class HistoryCheck:
    def inputs(self, r):
        for h in systematic_histories():
            yield {"history": h}
        while True:
            yield {"history": rnd_history(r)}

    def shrink(self, inp):
        h = inp["history"]
        n = len(h)
        for size in (n // 2, n // 4, n // 8, 1):
            if size < 1:
                continue
            for i in range(0, n, size):
                yield dict(inp, history=h[:i] + h[i + size:])


class C05(HistoryCheck):
    def inputs(self, r):
        for h in systematic_histories():
            yield {"history": [x for x in h if x[0] == "w"]}
        for reg in range(256):
            for v in range(0, 256, 5):
                yield {"history": [["w", reg, 0xFF ^ v], ["w", (reg + 32 * r.randrange(8)) % 256, r.randrange(256)], ["w", reg, v]]}
        while True:
            yield {"history": [["w", r.randrange(256), r.randrange(256)] for _ in range(40)]}

    def run(self, inp):
        from vgm.ym2151.state import State
        st, m = State(), chip.Chip()
        for i, h in enumerate(inp["history"]):
            apply_step(st, h)
            m.run([h])
            d = diff_live(dump_live(st), model_live(m))
            expect(not d, f"after step {i} {h}: " + "; ".join(d[:6]))
        # note registers are visible through the events they produce
        for ch in range(8):
            st2 = run_history(inp["history"] + [["w", 8, 0x78 | ch]])
            e = dump_event(st2.key_presses(ch)[-1])
            want = tuple(m.note[ch][f] for f in chip.NOTE)
            expect(e[2:] == want, f"note registers of channel {ch}: {dict(zip(chip.NOTE, e[2:]))} should be {dict(zip(chip.NOTE, want))}")


class C06(HistoryCheck):
    def inputs(self, r):
        for k, i in enumerate(super().inputs(r)):
            if k == 300:
                yield {"history": crowded(9000), "only_end": True}
            yield i

    def run(self, inp):
        from vgm.ym2151.state import State
        st, m = State(), chip.Chip()
        for i, h in enumerate(inp["history"]):
            apply_step(st, h)
            m.run([h])
            if inp.get("only_end") and i < len(inp["history"]) - 1:
                continue
            for c in range(8):
                got = [(n.config_id < 0, n.sample) + tuple(num(getattr(n, f)) for f in chip.NOTE) for n in st.key_presses(c)]
                want = [(e[0] < 0,) + e[1:] for e in m.events[c]]
                expect(got == want, f"after step {i} {h}: events of channel {c} are {got[-3:]} (of {len(got)}), should be {want[-3:]} (of {len(want)})")


class C07(HistoryCheck):
    def inputs(self, r):
        for h in systematic_histories():
            yield {"history": h}
        for h in long_tables():
            yield {"history": h, "only_end": True}
        yield {"history": crowded(9000), "only_end": True}
        for h in confusable_histories(r):
            yield {"history": h, "only_end": True}
        while True:
            yield {"history": rnd_history(r)}

    def run(self, inp):
        from vgm.ym2151.state import State
        st, m = State(), chip.Chip()
        for i, h in enumerate(inp["history"]):
            apply_step(st, h)
            m.run([h])
            if inp.get("only_end") and i < len(inp["history"]) - 1:
                continue
            got = [dump_config(c) for c in st.configs]
            if got != m.configs:
                k = next((j for j, (a, b) in enumerate(zip(got, m.configs)) if a != b), min(len(got), len(m.configs)))
                raise Violation(f"after step {i} {h}: instrument table of {len(got)} entries should have {len(m.configs)}; first difference at {k}: "
                                f"{got[k] if k < len(got) else None} should be {m.configs[k] if k < len(m.configs) else None}")
            for c in range(8):
                gi = [n.config_id for n in st.key_presses(c)]
                wi = [e[0] for e in m.events[c]]
                gi = [-1 if x < 0 else x for x in gi]
                expect(gi == wi, f"after step {i} {h}: instrument ids on channel {c} are {gi}, should be {wi}")


class C08(HistoryCheck):
    def inputs(self, r):
        k = 0
        for kf in (1, 3, 63):
            for pan in range(4):
                h = []
                for code in range(16):
                    h += [["w", 0x21, pan << 6], ["w", 0x29, (code % 8) << 4 | code], ["w", 0x31, kf << 2], ["w", 8, 0x79], ["b", 900], ["w", 8, 1], ["b", 20000]]
                yield {"history": h, "export": True}
        for h in systematic_histories():
            k += 1
            yield {"history": h, "export": k % 97 == 0, "estimate": k % 499 == 0}
            if k in (300, 600):
                yield {"history": many_instruments(150 * k // 300), "sparse": True}
        yield {"history": many_instruments(600), "sparse": True}
        yield {"history": crowded(9000), "sparse": True}
        while True:
            k += 1
            yield {"history": rnd_history(r, key_p=0.3, wait_p=0.1), "export": k % 11 == 0, "estimate": k % 60 == 0}

    def run(self, inp):
        from vgm.ym2151.state import State
        st = State()
        before = dump_recorded(st)

        def check(what):
            nonlocal before
            now = dump_recorded(st)
            expect(now["configs"][:len(before["configs"])] == before["configs"], f"{what} changed recorded instruments")
            for c in range(8):
                expect(now["events"][c][:len(before["events"][c])] == before["events"][c], f"{what} changed recorded events of channel {c}")
            before = now
            return now
        for i, h in enumerate(inp["history"]):
            apply_step(st, h)
            if not inp.get("sparse") or i % (97 + len(inp["history"]) // 20) == 0:
                check(f"step {i} {h}")
        n = dump_recorded(st)
        if inp.get("estimate"):
            st.ticks_per_note(show_progress=False)
            expect(check("tempo estimation") == n, "tempo estimation changed the recorded data")
        st.ticks()
        expect(check("ticks()") == n, "ticks() changed the recorded data")
        if inp.get("export"):
            import extractors
            extractors.extract_instruments("x.json", st)
            expect(check("instrument export") == n, "the instrument export changed the recorded data")
            extractors.extract_tracks(st, "x.csv", 20000)
            expect(check("track export") == n, "the track export changed the recorded data")
            extractors.extract_tracks_to_xrns(st, "x.xrns", 20000)
            expect(check("song export") == n, "the song export changed the recorded data")
        # everything that can be written afterwards
        for reg in (0x18, 0x19, 0x1B, 0x0F, 0x20, 0x28, 0x30, 0x38, 0x40, 0x60, 0x80, 0xA0, 0xC0, 0xE0):
            for v in (0xFF, 0x00, 0x80 | 0x2A):
                for c in ((0, 7) if reg >= 0x20 else (0,)):
                    for slot in ((0, 8, 16, 24) if reg >= 0x40 else (0,)):
                        a = reg + c + slot
                        apply_step(st, ["w", a, v])
        expect(check("later register writes") == n, "later register writes changed the recorded data")


def many_instruments(n):
    """n instruments, each played twice; between the two and afterwards their registers are written"""
    h = []
    for i in range(n):
        h += [["w", 0x18, i & 0xFF], ["w", 0x67, i >> 8], ["w", 8, 0x7F], ["b", 3], ["w", 8, 0x07], ["b", 2], ["w", 8, 0x7F], ["b", 7]]
    return h + [["w", 0x67, 0x55], ["w", 0x18, 0xEE], ["w", 0x27, 0x33]]


class C09(HistoryCheck):
    def inputs(self, r):
        for k, i in enumerate(super().inputs(r)):
            if k in (300, 600, 900):
                yield {"history": many_instruments(50 * k // 300), "sparse": True}
            if k == 450:
                yield {"history": crowded(9000), "sparse": True}
            yield i

    def run(self, inp):
        from vgm.ym2151.state import State
        st, m = State(), chip.Chip()
        live = dump_live(st)
        for i, h in enumerate(inp["history"]):
            if inp.get("sparse") and i < len(inp["history"]) - 1 and i % (61 + len(inp["history"]) // 20):
                apply_step(st, h)
                m.run([h])
                continue
            rec = dump_recorded(st) if h[0] == "b" else None
            live = dump_live(st) if h[0] == "b" else None
            apply_step(st, h)
            m.run([h])
            if h[0] == "b":
                expect(dump_recorded(st) == rec, f"step {i}: a wait changed the recorded data")
                expect(dump_live(st) == live, f"step {i}: a wait changed chip parameters")
            t = list(st.ticks())
            want = sorted(m.onsets)
            expect(t == want, f"after step {i} {h}: onset list {t[:12]} should be {want[:12]}")
            for c in range(8):
                got = [n.sample for n in st.key_presses(c)]
                w = [e[1] for e in m.events[c]]
                expect(got == w, f"after step {i} {h}: event times on channel {c} {got[-6:]} should be {w[-6:]}")


# ---------------------------------------------------------------- notes
class C14:
    def inputs(self, r):
        for octave in range(8):
            for code in range(16):
                for kf in (0, 1, 2, 5, 6, 31, 62, 63) if octave in (0, 4) else (0, 3):
                    for right, left in ((True, True), (True, False), (False, True), (False, False)):
                        yield {"id": r.choice([0, 1, 9, 10, 16, 255, 300]), "octave": octave, "code": code, "kf": kf, "right": right, "left": left}
        for octave in range(8):
            for code in range(16):
                yield {"id": -1, "octave": octave, "code": code, "kf": 3, "right": True, "left": False}
        while True:
            yield {"id": r.randrange(-1, 400), "octave": r.randrange(8), "code": r.randrange(16), "kf": r.randrange(64),
                   "right": r.random() < .5, "left": r.random() < .5}

    def shrink(self, inp):
        return []

    def note(self, inp):
        from vgm.ym2151.config import NoteConfig
        from vgm.ym2151.note import Note
        nc = NoteConfig()
        nc.right, nc.left, nc.octave, nc.note, nc.key_fraction = inp["right"], inp["left"], inp["octave"], inp["code"], inp["kf"]
        return Note(inp["id"], nc, 1234)

    def run(self, inp):
        n = self.note(inp)
        x = n.xrns_note()
        if inp["id"] < 0:
            expect(x == "Off", f"off event exported as {x!r}")
            return
        code, octave = inp["code"], inp["octave"]
        if code in chip.CODE_SEMITONE:
            want = chip.name_of_pitch(chip.pitch(octave, code))
            expect(x == want, f"octave {octave} code {code} exported as {x!r}, should be {want!r}")
        else:
            expect(len(x) >= 3 and x[:2].replace("-", "") in chip.NAMES and (x[1] in "-#") and x[2:].isdigit(), f"octave {octave} code {code} exported as {x!r}: not a note name")
        s = str(n)
        letter = chip.NAMES[(chip.pitch(0, code)) % 12] if code in chip.CODE_SEMITONE else None
        if letter is not None:
            expect(s[:2].strip() == letter, f"text {s!r}: note letter should be {letter!r}")
        else:
            expect(s[:1] == x[:1], f"text {s!r} and exported name {x!r} show different note letters")
        head, _, rest = s.partition("[")
        expect(head[2:].startswith(f"-{octave}"), f"text {s!r}: chip octave {octave} missing")
        det = head[2 + len(f"-{octave}"):].strip()
        if inp["kf"] <= 1:
            expect(det == "", f"text {s!r}: unexpected detune for key fraction {inp['kf']}")
        else:
            cents = inp["kf"] * 1.6
            expect(det.startswith("-") and det[1:].isdigit() and len(det) >= 3 and abs(int(det[1:]) - cents) <= 0.5 + 1e-9,
                   f"text {s!r}: detune should be {cents:.1f} cents")
        ident, _, pan = rest.partition("]")
        expect(ident == str(inp["id"]), f"text {s!r}: instrument id should be {inp['id']}")
        want = "" if inp["right"] and inp["left"] else ("Pan R" if inp["right"] else "Pan L")
        expect(pan.strip() == want, f"text {s!r}: panning should be {want!r}")


# ---------------------------------------------------------------- instrument JSON
class C15(HistoryCheck):
    def inputs(self, r):
        for k, i in enumerate(super().inputs(r)):
            if k == 2000:
                for h in long_tables():
                    yield {"history": h}
            yield i

    def run(self, inp):
        import extractors
        st = run_history(inp["history"])
        before = dump_recorded(st)
        p = "instr.json"
        if os.path.exists(p):
            os.remove(p)
        extractors.extract_instruments(p, st)
        expect(dump_recorded(st) == before, "the export altered the instruments")
        with open(p) as f:
            text = f.read()
        try:
            js = json.loads(text)
        except ValueError as e:
            raise Violation(f"not JSON: {e}")
        expect(isinstance(js, list) and len(js) == len(before["configs"]), f"{len(js)} objects for {len(before['configs'])} instruments")
        for i, (o, want) in enumerate(zip(js, before["configs"])):
            expect(o["id"] == i, f"object {i} has id {o['id']}")
            b, c = o["base"], o["channel"]
            wave = ("SAW", "SQUARE", "TRIANGLE", "NOISE")
            got_base = (b["lfo"], b["phs_md"], b["amp_md"], wave.index(b["waveform"]) if b["waveform"] in wave else b["waveform"])
            expect(got_base == want[0], f"instrument {i}: base {got_base} should be {want[0]}")
            got_ch = (c["feedback"], c["connection"], c["ams"], c["pms"], num(c["noise"]), c["noise_freq"])
            expect(got_ch == want[1], f"instrument {i}: channel {got_ch} should be {want[1]}")
            keys = dict(total_level="tl", attack_rate="ar", first_decay_rate="d1r", first_decay_level="d1l", second_decay_rate="d2r",
                        release_rate="rr", key_scale="ks", multiply="mul", first_detune="dt1", second_detune="dt2", ase="ase")
            for s, nm in enumerate(chip.OP_NAMES):
                got = tuple(num(c[nm][keys[f]]) for f in chip.OPER)
                expect(got == want[2][s], f"instrument {i}: operator {nm} {got} should be {want[2][s]}")
            mask = sum(chip.OP_BITS[x] for x in o["operators"].split("|") if x)
            expect(mask == want[3] and len(set(o["operators"].split("|"))) == len(o["operators"].split("|")),
                   f"instrument {i}: operators {o['operators']!r} should denote {want[3]}")


# ---------------------------------------------------------------- value semantics
class Lookalike:
    """an object of another type with the same attributes"""

    def __init__(self, o):
        self.__dict__.update(o.__dict__)


class Lookalike2(Lookalike):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return 0


class C17:
    KINDS = ("BaseConfig", "NoteConfig", "OperatorConfig", "ChannelConfig")

    def fields(self, kind):
        if kind == "BaseConfig":
            return [(f,) for f in chip.BASE]
        if kind == "NoteConfig":
            return [(f,) for f in chip.NOTE]
        if kind == "OperatorConfig":
            return [(f,) for f in chip.OPER]
        return [(f,) for f in chip.CHAN] + [(s, f) for s in range(4) for f in chip.OPER]

    def inputs(self, r):
        for kind in self.KINDS:
            fs = self.fields(kind)
            for bg in (0, 1):
                base = {repr(f): (chip.DOMAIN[f[-1]] - 1) * bg for f in fs}
                yield {"kind": kind, "a": base, "b": dict(base)}
                for f in fs:
                    for v in {1, chip.DOMAIN[f[-1]] - 1, chip.DOMAIN[f[-1]] // 2, 0}:
                        yield {"kind": kind, "a": base, "b": dict(base, **{repr(f): v})}
        tight, free = self.pairs(r), self.random(r)
        for x in tight:
            yield x
            yield next(free)
        yield from free

    def pairs(self, r):
        for kind in self.KINDS:
            fs = self.fields(kind)
            pairs = [(p, q) for i, p in enumerate(fs) for q in fs[i + 1:]]
            r.shuffle(pairs)
            for p, q in pairs[:300]:
                zero = {repr(f): 0 for f in fs}
                vs = confusable_pairs(chip.DOMAIN[p[-1]], chip.DOMAIN[q[-1]])
                for i, v in enumerate(vs):
                    for w in vs[i + 1:]:
                        yield {"kind": kind, "a": dict(zero, **{repr(p): v[0], repr(q): v[1]}), "b": dict(zero, **{repr(p): w[0], repr(q): w[1]}), "only_eq": True}

    def random(self, r):
        while True:
            kind = r.choice(self.KINDS)
            fs = self.fields(kind)
            dense = r.choice((1, 1, .5, .2))
            a = {repr(f): r.randrange(chip.DOMAIN[f[-1]]) if r.random() < dense else 0 for f in fs}
            b = dict(a)
            for f in r.sample(fs, r.choice([0, 1, 2])):
                b[repr(f)] = r.randrange(chip.DOMAIN[f[-1]])
            yield {"kind": kind, "a": a, "b": b}

    def shrink(self, inp):
        for k in inp["b"]:
            if inp["a"][k] == inp["b"][k] and inp["a"][k] != 0:
                yield dict(inp, a=dict(inp["a"], **{k: 0}), b=dict(inp["b"], **{k: 0}))

    def make(self, kind, vals):
        from vgm.ym2151 import config
        o = getattr(config, kind)()
        for k, v in vals.items():
            self.put(o, eval(k), v)
        return o

    def put(self, o, f, v):
        from vgm.ym2151 import config
        if f[-1] == "waveform":
            v = config.Waveform(v)
        elif f[-1] in chip.BOOLS:
            v = bool(v)
        if len(f) == 2:
            setattr(o.operators[f[0]], f[1], v)
        else:
            setattr(o, f[0], v)

    def get(self, o, kind):
        return {repr(f): num(getattr(o.operators[f[0]], f[1]) if len(f) == 2 else getattr(o, f[0])) for f in self.fields(kind)}

    def run(self, inp):
        from vgm.ym2151 import config
        kind = inp["kind"]
        a, b = self.make(kind, inp["a"]), self.make(kind, inp["b"])
        same = inp["a"] == inp["b"]
        for x, y in ((a, b), (b, a)):
            expect(bool(x == y) == same, f"equality of {kind} is {bool(x == y)}, should be {same}")
            expect(bool(x != y) == (not same), f"inequality of {kind} is wrong")
        if inp.get("only_eq"):
            return
        for other in [None, 0, 1, "x", [], {}, object(), Lookalike(a), Lookalike2(a)] + [getattr(config, k)() for k in self.KINDS if k != kind]:
            expect(not (a == other) and a != other, f"a {kind} equals a {type(other).__name__}")
        for how, f, va in [(h, f, v) for h, f in (("deepcopy", copy.deepcopy), ("copy construction", type(a)))
                           for v in ([inp["a"]] if same else [inp["b"], inp["a"]])]:
            a = self.make(kind, va)
            c = f(a)
            expect(c is not a and type(c) is type(a), f"{how} of {kind} gives {type(c).__name__}")
            expect(c == a and self.get(c, kind) == va, f"{how} of {kind} is not equal to its original")
            for fld in self.fields(kind):
                v0 = va[repr(fld)]
                v1 = (v0 + 1) % chip.DOMAIN[fld[-1]]
                self.put(a, fld, v1)
                expect(self.get(c, kind) == va, f"changing {fld} of the original changes its {how}")
                self.put(a, fld, v0)
                self.put(c, fld, v1)
                expect(self.get(a, kind) == va, f"changing {fld} of a {how} changes the original")
                self.put(c, fld, v0)
        if kind == "ChannelConfig":
            c = copy.deepcopy(a)
            expect(len(c.operators) == 4 and len({id(o) for o in c.operators}) == 4, "operators of a copy are shared")
            c.operators.append(None)
            expect(len(a.operators) == 4, "the operator list is shared with the copy")


CHECKS = {c.__name__: c for c in (C05, C06, C07, C08, C09, C14, C15, C17)}
