"""C14: exported and textual note names (vgm.ym2151.note)."""
import z3
from engine import heap
from engine.core import Unsupported
from engine.symval import SymInt, SymStr, zi
from engine.unit import Unit
from spec import chip
from .common import sym_range, model_int, outcome, frame

FUNCS = ["vgm.ym2151.note:Note.__init__", "vgm.ym2151.note:Note.xrns_note", "vgm.ym2151.note:Note.__str__"]


def note(ident, octave, code, kf, right, left, sample):
    from vgm.ym2151.config import NoteConfig
    from vgm.ym2151.note import Note
    nc = NoteConfig()
    nc.right, nc.left, nc.octave, nc.note, nc.key_fraction = right, left, octave, code, kf
    return Note(ident, nc, sample)


def replay(m, info):
    return {"id": model_int(m, info["id"]), "octave": info["octave"], "code": info["code"], "kf": info["kf"], "right": info["right"], "left": info["left"]}


def pieces(ex, name, s, info):
    """text of a rendering as [str, id marker, str]: the instrument id stays symbolic"""
    if isinstance(s, str):
        return [s]
    if not isinstance(s, SymStr):
        ex.fail(name, f"the result is {type(s).__name__}, not text", info)
        return None
    out = []
    for p in s.pieces:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == "fmt" and p[1] in ("", "d") and p[2] in (None, "s", "r") and isinstance(p[3], SymInt):
            if ex._check(zi(p[3]) != zi(info["id"])) != z3.unsat:
                raise Unsupported("the rendering shows a computed number")
            out.append(None)
        else:
            raise Unsupported(f"rendering of another form: {s!r}"[:200])
    return out


EVENT = ("config_id", "right", "left", "octave", "note", "key_fraction", "sample")


def fields(n):
    return {f: heap.attrs(n).get(f) for f in EVENT}


def kept(ex, n, before, info):
    """rendering an event leaves it as it is"""
    for f, v in before.items():
        w = heap.attrs(n).get(f)
        if w is v or type(w) is type(v) and heap.is_atom(v) and not isinstance(v, SymInt) and w == v:
            continue
        if isinstance(v, SymInt) and isinstance(w, (int, SymInt)):
            ex.prove(f"{ex.pid}.rendering-keeps-the-event", zi(v) == zi(w), info)
        else:
            ex.fail(f"{ex.pid}.rendering-keeps-the-event", f"{f} becomes {w!r}", info)
    ex.prove(f"{ex.pid}.rendering-keeps-the-event", True)


def legal(x):
    return isinstance(x, str) and len(x) >= 3 and x[:2].replace("-", "") in chip.NAMES and x[1] in "-#" and x[2:].isdigit()


def sounding(codes):
    def run(ex):
        code = ex.choose(list(codes))
        octave = ex.choose(list(range(8)))
        right, left = ex.choose([(True, True), (True, False), (False, True), (False, False)])
        ident = sym_range(ex, "id", 0, None)
        sample = sym_range(ex, "sample", 0, None)
        glob = heap.Snapshot(heap.global_roots()) if (right, left) == (True, True) else None
        for kf in range(64):
            info = {"id": ident, "octave": octave, "code": code, "kf": kf, "right": right, "left": left}
            n = note(ident, octave, code, kf, right, left, sample)
            was = fields(n)
            k, x = outcome(n.xrns_note)
            kept(ex, n, was, info)
            if k == "exc":
                ex.fail("C14.exported-name-is-the-pitch", f"raises {type(x).__name__}: {x}", info)
            elif code in chip.CODE_SEMITONE:
                want = chip.name_of_pitch(chip.pitch(octave, code))
                if isinstance(x, SymStr):
                    raise Unsupported("the note name depends on the instrument id")
                if x == want and isinstance(x, str):
                    ex.prove("C14.exported-name-is-the-pitch", True)
                else:
                    ex.fail("C14.exported-name-is-the-pitch", f"octave {octave} code {code}: {x!r} instead of {want!r}", info)
            else:
                if isinstance(x, SymStr):
                    raise Unsupported("the note name depends on the instrument id")
                if legal(x):
                    ex.prove("C14.unused-code-gives-a-legal-name", True)
                else:
                    ex.fail("C14.unused-code-gives-a-legal-name", f"octave {octave} code {code}: {x!r}", info)
            text(ex, n, info, x)
            kept(ex, n, was, info)
        if glob is not None:
            frame(ex, "C14.shared-state-untouched", glob, None, info)
        ex.cover("sounding")
    return run


def one_cell(ex, ps, info):
    """the text of an event fills one cell of a line of comma separated values"""
    shown = "".join("0" if p is None else p for p in ps)
    if shown and not any(x in shown for x in ",\n\r\""):
        ex.prove("C16.text-is-one-cell", True)
    else:
        ex.fail("C16.text-is-one-cell", f"the text is {shown!r}", info)


def text(ex, n, info, exported=None):
    k, s = outcome(lambda: type(n).__str__(n))
    if k == "exc":
        ex.fail("C14.text-shows-the-note", f"raises {type(s).__name__}: {s}", info)
        return
    ps = pieces(ex, "C14.text-shows-the-note", s, info)
    if ps is None:
        return
    one_cell(ex, ps, info)
    octave, code, kf, right, left = (info[x] for x in ("octave", "code", "kf", "right", "left"))

    def check(name, ok, why):
        if ok:
            ex.prove(name, True)
        else:
            ex.fail(name, f"octave {octave} code {code} key fraction {kf}: text {ps}: {why}", info)
    if ps.count(None) != 1:
        check("C14.text-shows-instrument-id", False, "the instrument id is missing or repeated")
        return
    i = ps.index(None)
    before, after = "".join(ps[:i]), "".join(ps[i + 1:])
    head, br, rest = before.rpartition("[")
    check("C14.text-shows-instrument-id", br == "[" and rest == "" and after.startswith("]"), "the instrument id is not shown in brackets")
    letter = chip.NAMES[chip.pitch(0, code) % 12] if code in chip.CODE_SEMITONE else None
    if letter is not None:
        check("C14.text-shows-the-note", head[:2].strip() == letter, f"note letter {letter}")
    elif isinstance(exported, str):
        check("C14.text-shows-the-note", head[:1] == exported[:1], f"note letter of {exported}")
    check("C14.text-shows-chip-octave", head[2:].startswith(f"-{octave}"), f"chip octave {octave}")
    det = head[2 + len(f"-{octave}"):].strip()
    if kf <= 1:
        check("C14.text-shows-detune", det == "", "unexpected detune")
    else:
        check("C14.text-shows-detune", det.startswith("-") and det[1:].isdigit() and len(det) >= 3 and abs(int(det[1:]) - kf * 1.6) <= 0.5 + 1e-9,
              f"detune {kf * 1.6:.1f} cents")
    want = "" if right and left else ("Pan R" if right else "Pan L")
    check("C14.text-shows-panning", after[1:].strip() == want, f"panning {want!r}")


def off(ex):
    code, octave = ex.choose(list(range(16))), ex.choose(list(range(8)))
    right, left = ex.choose([(True, True), (True, False), (False, True), (False, False)])
    kf = sym_range(ex, "kf", 0, 63)
    info = {"id": -1, "octave": octave, "code": code, "kf": kf, "right": right, "left": left,
            "replay": lambda m, i: dict(replay(m, i), kf=model_int(m, kf))}
    n = note(-1, octave, code, kf, right, left, sym_range(ex, "sample", 0, None))
    was = fields(n)
    k, x = outcome(n.xrns_note)
    kept(ex, n, was, info)
    if k == "val" and isinstance(x, str) and x == "Off":
        ex.prove("C14.off-event-gives-off", True)
    else:
        ex.fail("C14.off-event-gives-off", f"{x!r}", info)
    if ex.pid == "C16":
        k, s = outcome(lambda: type(n).__str__(n))
        if k == "exc":
            ex.fail("C16.text-is-one-cell", f"raises {type(s).__name__}: {s}", info)
        elif isinstance(s, (str, SymStr)):
            one_cell(ex, [p if isinstance(p, str) else None for p in ([s] if isinstance(s, str) else s.pieces)], info)
    if ex.pid in ("C08", "C14"):
        outcome(lambda: type(n).__str__(n))
        kept(ex, n, was, info)


def lemma(ex):
    """the name decides the pitch, and higher pitches have higher names"""
    seen = []
    for octave in range(8):
        for code in chip.CODE_SEMITONE:
            seen.append((chip.pitch(octave, code), chip.name_of_pitch(chip.pitch(octave, code))))
    rank = lambda n: int(n[2:]) * 12 + chip.NAMES.index(n[:2].replace("-", ""))
    ex.prove("C14.lemma-names-are-ordered-like-pitches", all(rank(n) == p for p, n in seen) and len({n for _, n in seen}) == 96)


def replay8(m, info):
    r = replay(m, info)
    kf = r["kf"] if isinstance(r["kf"], int) else model_int(m, info["kf"])
    h = [["w", 0x20, r["right"] << 7 | r["left"] << 6], ["w", 0x28, r["octave"] << 4 | r["code"]], ["w", 0x30, kf << 2], ["w", 8, 0x78], ["b", 5], ["w", 8, 0]]
    return {"history": h, "export": True}


def named(rp):
    return [Unit(f"Note names, codes {a}..{a + 1}", sounding((a, a + 1)), FUNCS, rp, cover=["sounding"]) for a in range(0, 16, 2)] + [
        Unit("Note names, off events", off, FUNCS, rp)]


UNITS = {"C14": [*named(replay), Unit("order of names", lemma, [])], "C16": named(None), "C08": named(replay8)}
