"""Run-time contracts for tempo, song, CSV export, streams, isolation, command line: C11..C13, C16, C18..C20."""
import contextlib
import copy
import io
import json
import os
import re
import subprocess
import sys
import traceback
import xml.etree.ElementTree as ET
import zipfile

from .common import *
from .common import chip, vspec
from .stream_checks import enc, dec


def parse_song(blob):
    z = zipfile.ZipFile(io.BytesIO(blob))
    expect(z.namelist() == ["Song.xml"], f"members of the container: {z.namelist()}")
    decl = re.match(rb"<\?xml\s+version=(?:'([^']*)'|\"([^\"]*)\")", z.read("Song.xml"))
    expect(decl is None or (decl[1] or decl[2]) in (b"1.0", b"1.1"), f"Song.xml is declared as XML {decl and decl[0]}")
    try:
        root = ET.fromstring(z.read("Song.xml"))
    except ET.ParseError as e:
        raise Violation(f"Song.xml is not well formed: {e}")
    expect(root.tag == "RenoiseSong" and root.get("doc_version") == "65", f"root element {root.tag} version {root.get('doc_version')}")
    txt = lambda e, n: (e.find(n).text or "") if e is not None and e.find(n) is not None else None
    out = {"globals": {}, "patterns": [], "sequence": [], "tracks": [], "instruments": 0}
    g = root.find("GlobalSongData")
    for c in (g if g is not None else []):
        out["globals"][c.tag] = [x.text for x in c] if len(c) else (c.text or "")
    sh = g.find("ShuffleAmounts") if g is not None else None
    out["globals"]["ShuffleAmounts"] = [x.text for x in sh.findall("ShuffleAmount")] if sh is not None else None
    ins = root.find("Instruments")
    out["instruments"] = len(ins.findall("Instrument")) if ins is not None else 0
    tr = root.find("Tracks")
    for c in (tr if tr is not None else []):
        out["tracks"].append((c.tag, txt(c, "Name"), txt(c, "State"), txt(c, "Soloed")))
        expect(c.get("type") == c.tag, f"track element {c.tag} has type {c.get('type')!r}")
    pp = root.find("PatternPool/Patterns")
    for p in (pp.findall("Pattern") if pp is not None else []):
        pat = {"tracks": [], "master": 0, "send": 0}
        ts = p.find("Tracks")
        for t in (ts if ts is not None else []):
            expect(t.get("type") == t.tag, f"pattern track element {t.tag} has type {t.get('type')!r}")
            if t.tag == "PatternTrack":
                lines = []
                for ln in t.findall("Lines/Line"):
                    cols = ln.findall("NoteColumns/NoteColumn")
                    expect(len(cols) == 1, f"{len(cols)} note columns in a line")
                    lines.append((int(ln.get("index")), txt(cols[0], "Note"), txt(cols[0], "Instrument"), txt(cols[0], "Panning")))
                pat["tracks"].append(lines)
            elif t.tag == "PatternMasterTrack":
                pat["master"] += 1
            elif t.tag == "PatternSendTrack":
                pat["send"] += 1
        out["patterns"].append(pat)
    for e in root.findall("PatternSequence/SequenceEntries/SequenceEntry"):
        out["sequence"].append(int(txt(e, "Pattern")))
    return out


def note_name(e):
    """exported note name of an event tuple (id, sample, right, left, octave, note, kf)"""
    if e[0] < 0:
        return "Off"
    return chip.name_of_pitch(chip.pitch(e[4], e[5])) if e[5] in chip.CODE_SEMITONE else None


# ---------------------------------------------------------------- tempo
def small(r):
    k = r.random()
    if k < .4:
        step = r.randrange(300, 9000)
        xs = [r.randrange(3000) + step * i for i in range(r.randrange(1, 25))] if r.random() < .2 else [step * i + 7 for i in range(r.randrange(1, 25)) if r.random() < .8]
    elif k < .8:
        grid = r.choice([500, 735, 1000, 1500])
        xs = [grid * r.randrange(70) for _ in range(r.randrange(1, 25))]
    else:
        xs = [r.randrange(33000) for _ in range(r.randrange(1, 15))]
    return sorted({x for x in xs if x >= 0})


def aligned(r, n, d):
    """n onsets that fit best when delayed by d"""
    xs = set()
    while len(xs) < n:
        x = r.randrange(32000 - d)
        xs |= {x, x + d}
    return sorted(xs)


def close_race(r, n):
    """n onsets where the best shift is only one better than a smaller shift"""
    for _ in range(60):
        xs = sorted(r.sample(range(32000), n))
        ms = chip.mismatches(xs)
        b = ms.index(min(ms))
        if any(m == ms[b] + 1 for m in ms[:b]):
            break
    return xs


def two_rhythms(r):
    """a late first onset, and another, denser rhythm behind the window"""
    first = r.choice([0, 1, 500, 4000, 20000, 27000])
    step, other = r.sample([1000, 1225, 1500, 2205, 3675, 5000, 7350], 2)
    return sorted(set(range(first, 32000, step)) | set(range(32000 + r.choice([0, 1, 700]), r.choice([33000, 40000, 60000, 70000]), other)))


RIVALS = {"only late": lambda u, v, p, k, n: u, "only early": lambda u, v, p, k, n: v, "1:2": lambda u, v, p, k, n: u + 2 * v, "2:1": lambda u, v, p, k, n: 2 * u + v,
          "pairs cost": lambda u, v, p, k, n: u + v + p, "pairs cost more": lambda u, v, p, k, n: u + v + 2 * p, "pairs pay": lambda u, v, p, k, n: u + v - p,
          "share": lambda u, v, p, k, n: (u + v) / (n + k), "share of early": lambda u, v, p, k, n: (u + v) / (k + 1), "larger": lambda u, v, p, k, n: max(u, v),
          "difference": lambda u, v, p, k, n: abs(u - v), "squares": lambda u, v, p, k, n: u * u + v * v, "all late": lambda u, v, p, k, n: 2 * (n - p)}


def contested(r):
    """onset lists where another way of counting prefers another shift"""
    open_ = {x: 0 for x in RIVALS}
    for k in range(80):
        xs = small(r)
        if r.random() < .6:
            xs = sorted(set(xs) | {r.randrange(32000) for _ in range(r.randrange(1, 9))})
        xs = [x for x in xs if x < 32000]
        if len(xs) < 2:
            continue
        n, last, bits, k = len(xs), xs[-1], sum(1 << x for x in xs), len(xs)
        best = {x: (None, None) for x in RIVALS}
        best[None] = (None, None)
        for d in range(1000, 8000):
            p = (bits & (bits << d)).bit_count()
            while k and xs[k - 1] + d >= last:
                k -= 1
            u, v = n - p, k - p + (1 if last >= d and (bits >> (last - d)) & 1 else 0)
            for x, (m, _) in best.items():
                c = u + v if x is None else RIVALS[x](u, v, p, k, n)
                if m is None or c < m:
                    best[x] = (c, d)
        won = [x for x in RIVALS if best[x][1] != best[None][1] and open_[x] < 2]
        if won:
            for x in won:
                open_[x] += 1
            yield xs
        if all(v >= 2 for v in open_.values()):
            return


class C11:
    def inputs(self, r):
        edge = [[], [0], [5000], [31999], [32000], [0, 31999], [0, 32000], [0, 32001, 33000], [0, 1000], [0, 999], [0, 7999], [0, 8000],
                [0, 1000, 2000, 3000], [0, 1000, 3000], [0, 1500, 4500, 6000], [10, 20, 30, 40, 1010, 1020],
                list(range(0, 31000, 5000)), list(range(100, 32000, 1250)), [0, 1000, 9000], [0, 7999, 15998, 23997, 31996, 39995], [0, 4410, 8820, 13230],
                [0, 7999, 9000], [1, 1001, 8000], [0, 500, 1500], [0, 1, 2, 3, 4, 5], [30000, 31000, 31999, 32000]]
        for e in edge:
            yield {"onsets": e, "progress": False}
        yield {"onsets": edge[12], "progress": True}
        for _ in range(8):
            yield {"onsets": two_rhythms(r), "progress": False}
        # few onsets with the best shift at a given place
        for d in (1000, 1001, 7999, 7998, 4000, 1999, 3999, 7000):
            for n in (1, 2, 5):
                xs = {r.randrange(32000 - d) for _ in range(n)}
                yield {"onsets": sorted(xs | {x + d for x in xs}), "progress": False}
        for xs in contested(r):
            yield {"onsets": xs, "progress": False}
        # and many onsets
        yield {"onsets": aligned(r, 240, 7999), "progress": False}
        yield {"onsets": aligned(r, 450, 7999), "progress": True}
        for k in range(24):
            yield {"onsets": small(r), "progress": r.random() < .3}
        yield {"onsets": close_race(r, 5600), "progress": False, "limit": 90}
        yield {"onsets": aligned(r, 300, 1000), "progress": False}
        yield {"onsets": aligned(r, 5200, 7999), "progress": False, "limit": 90}
        while True:
            yield {"onsets": small(r) if r.random() < .8 else two_rhythms(r), "progress": r.random() < .3}

    def shrink(self, inp):
        xs = inp["onsets"]
        for i in range(len(xs)):
            yield dict(inp, onsets=xs[:i] + xs[i + 1:])

    def run(self, inp):
        from vgm.ym2151.state import State
        st = State()
        t = 0
        for o in inp["onsets"]:
            st.beat(o - t)
            t = o
            apply_step(st, ["w", 8, 0x78])
        if list(st.ticks()) != inp["onsets"]:
            return              # property C09
        rec, live = dump_recorded(st), dump_live(st)
        got = st.ticks_per_note(show_progress=inp["progress"])
        expect(dump_recorded(st) == rec and dump_live(st) == live and list(st.ticks()) == inp["onsets"], "the estimation altered the analysis")
        want = chip.tempo(inp["onsets"])
        if got != want:
            xs = [o for o in inp["onsets"] if o < 32000]
            raise Violation(f"estimate {got} ({chip.mismatch(xs, got) if isinstance(got, int) else '?'} mismatches) should be {want} ({chip.mismatch(xs, want)} mismatches)")


# ---------------------------------------------------------------- song export
class EventsCheck:
    def shrink(self, inp):
        h = inp["history"]
        n = len(h)
        for size in (n // 2, n // 4, 1):
            if size < 1:
                continue
            for i in range(0, n, size):
                yield dict(inp, history=h[:i] + h[i + size:])

    def base_inputs(self, r):
        k = lambda c, on=True: ["w", 8, (0x78 if on else 0) | c]
        for t in (1, 2, 7, 100, 735, 1000, 1500, 3675, 5512, 6300, 7999, 30000, 1000000, 2 ** 54, 2 ** 62):
            for rows in ((0,), (0, 1), (63, 64), (0, 64, 128), (5, 5), (2, 130), (127, 128, 191, 192)):
                h, s = [], 0
                for i, row in enumerate(rows):
                    for off in (0, t - 1):
                        tgt = row * t + off
                        if tgt >= s:
                            h.append(["b", tgt - s])
                            s = tgt
                            h += [["w", 0x20 + i % 8, (0xC0, 0x80, 0x40, 0)[(i + off) % 4] | 7], ["w", 0x28 + i % 8, (row * 7 + off) % 128], k(i % 8, off == 0)]
                yield {"history": h, "ticks": t}
        yield {"history": [], "ticks": 1000}
        yield {"history": [k(c) for c in range(8)] + [["b", 999]] + [k(c, False) for c in range(8)], "ticks": 1000}
        h = []
        for i in range(40):
            h += [["w", 0x60, i], k(0), ["b", 500]]
        yield {"history": h, "ticks": 500}
        for pan in range(4):
            for code in range(16):
                yield {"history": [["w", 0x23, pan << 6], ["w", 0x2B, 0x40 | code], ["b", 3 * code], k(3), ["b", 1], k(3, False)], "ticks": 2}
        while True:
            t = r.choice([1, 3, 100, 735, 1000, 2205, 5512, r.randrange(1, 9000)])
            h = rnd_history(r, key_p=.5, wait_p=.3)
            h = [["b", r.choice([0, 1, t - 1, t, t + 1, r.randrange(t * 40 + 1)])] if x[0] == "b" else x for x in h]
            yield {"history": h, "ticks": t}


def full_pattern():
    """events on every line and track of two patterns"""
    h = []
    for row in range(128):
        for c in range(8):
            h += [["w", 0x28 + c, (row * 5 + c) % 128], ["w", 8, (0 if (row + c) % 3 == 2 else 0x78) | c]]
        h.append(["b", 10])
    return h


def block_edges():
    """songs whose last row is at, before or behind a multiple a writer might work in"""
    for n in (256, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10000, 16384):
        for d in (-1, 0, 1):
            yield {"history": [["w", 0x20, 0xC7], ["w", 0x28, 0x4A], ["w", 8, 0x78], ["b", 7 * (n + d)], ["w", 8, 0x79]], "ticks": 7}


class C12(EventsCheck):
    def inputs(self, r):
        for t in (441, 440, 882, 735, 1000, 1001, 1102, 1103, 1500, 2205, 2940, 3675, 5512, 5513, 6615, 7350, 7999, 661500, 661501, 1):
            yield {"history": [["w", 8, 0x78]], "ticks": t}
        base = self.base_inputs(r)
        for _ in range(40):
            yield next(base)
        yield {"history": full_pattern(), "ticks": 10}
        yield {"history": crowded(5200, late=False), "ticks": 5, "limit": 90}
        yield from block_edges()
        yield {"history": [["w", 8, 0x78], ["b", 64 * 1000 - 1], ["w", 8, 0], ["b", 1], ["w", 8, 0x78], ["b", 64 * 60 + 5], ["w", 8, 0x79]], "ticks": 1}
        yield from base

    def run(self, inp):
        import extractors
        st = run_history(inp["history"])
        t = inp["ticks"]
        rec = dump_recorded(st)
        if any(len(rec["configs"]) > 255 for _ in (0,)):
            return
        p = "song.xrns"
        if os.path.exists(p):
            os.remove(p)
        extractors.extract_tracks_to_xrns(st, p, t)
        with open(p, "rb") as f:
            song = parse_song(f.read())
        cells, last = {}, -1
        for c in range(8):
            for n, e in zip(st.key_presses(c), rec["events"][c]):
                pat, line = chip.cell(e[1], t)
                want = note_name(e)
                cells[(pat, c, line)] = (want if want is not None else n.xrns_note(), None if e[0] < 0 else f"{e[0]:02X}", chip.pan_mark(e[3], e[2]))
                last = max(last, pat)
        expect(len(song["patterns"]) == last + 1, f"{len(song['patterns'])} patterns, should be {last + 1}")
        expect(song["sequence"] == list(range(last + 1)), f"play sequence {song['sequence']} should be 0..{last}")
        expect(len([x for x in song["tracks"] if x[0] == "SequencerTrack"]) == 8, "not 8 tracks")
        expect(song["instruments"] == len(rec["configs"]), f"{song['instruments']} instruments, should be {len(rec['configs'])}")
        g = song["globals"]
        expect(g["BeatsPerMin"] == str(chip.bpm(t)), f"tempo {g['BeatsPerMin']} for {t} ticks per row, should be {chip.bpm(t)}")
        expect(g["LinesPerBeat"] == "4", f"{g['LinesPerBeat']} lines per beat")
        got = {}
        for i, p in enumerate(song["patterns"]):
            expect(len(p["tracks"]) == 8, f"pattern {i} has {len(p['tracks'])} tracks")
            for c, lines in enumerate(p["tracks"]):
                for ln in lines:
                    expect((i, c, ln[0]) not in got, f"line {ln[0]} of pattern {i} track {c} appears twice")
                    got[(i, c, ln[0])] = ln[1:]
        for k in sorted(set(got) | set(cells)):
            expect(got.get(k) == cells.get(k), f"cell (pattern {k[0]}, track {k[1]}, line {k[2]}) is {got.get(k)}, should be {cells.get(k)}")


class C13:
    TXT = ("Untitled", "a<b>&c", "\u00e9\u4e2d", "x y", "'quoted' \"too\"")

    def inputs(self, r):
        yield {"tracks": 8, "instruments": 0, "cells": [], "sequence": [], "globals": {}}
        yield {"tracks": 1, "instruments": 1, "cells": [], "sequence": [0], "globals": {}}
        for i in (1, 2, 3, 9, 12):
            yield {"tracks": i, "instruments": i, "cells": [[2, i - 1, 63, "C-4", "0A", "F0"], [0, 0, 0, "Off", None, None], [0, 0, 7, "C#5", "FF", "00"]],
                   "sequence": [0, 1, 2], "globals": {}}
        for k, v in (("beats_per_min", 441), ("lines_per_beat", 7), ("ticks_per_line", 5), ("signature_numerator", 3), ("signature_denominator", 8),
                     ("metronome_beats_per_bar", 6), ("metronome_lines_per_beat", 2), ("shuffle_is_active", True), ("shuffle_amounts", [1, 2, 3, 4]),
                     ("octave", 6), ("loop_coeff", 2), ("song_name", "a<b>&c"), ("artist", "Zo\u00eb")):
            yield {"tracks": 8, "instruments": 2, "cells": [[0, 0, 0, "C-4", "00", None]], "sequence": [0], "globals": {k: v}}
        hexes = ["%02X" % i for i in range(256)]
        names = [a + str(o) for o in range(10) for a in ("C-", "C#", "D-", "D#", "E-", "F-", "F#", "G-", "G#", "A-", "A#", "B-")] + ["Off", "Cut"]
        yield {"tracks": 1, "instruments": 256, "cells": [[i // 64, 0, i % 64, names[i % len(names)], hexes[i], hexes[-1 - i]] for i in range(256)], "sequence": [3, 2, 1, 0, 3], "globals": {}}
        yield {"tracks": 3, "instruments": 1, "cells": [[i // 64, i % 3, i % 64, "C-4", [None, hexes[i]][i & 1], [None, hexes[i]][i >> 1 & 1]] for i in range(256)],
               "sequence": [0] * 300, "globals": {}}
        yield {"tracks": 2, "instruments": 1, "cells": [[n, n % 2, 5, "C-4", "00", None] for n in (0, 255, 256, 999, 1000, 1003, 1100)] +
               [[1100, 1, ln, "D-4", "00", None] for ln in range(64)], "sequence": list(range(1101)), "globals": {}, "limit": 90}
        for st in ("Active", "Off", "Mute"):
            for solo in (False, True):
                yield {"tracks": 3, "instruments": 0, "cells": [], "sequence": [5, 5, 4], "globals": {"artist": "", "song_name": ""},
                       "names": [[i, nm, st, solo] for i, nm in enumerate(("", "Track", "a & b <c>"))]}
        for v in (0, 1, 255, 10 ** 6):
            yield {"tracks": 1, "instruments": 1, "cells": [[0, 0, 0, "C-4", "00", None]], "sequence": [0, 1], "globals": {
                k: v for k in ("beats_per_min", "lines_per_beat", "ticks_per_line", "signature_numerator", "signature_denominator", "metronome_beats_per_bar",
                               "metronome_lines_per_beat", "octave", "loop_coeff")} | {"shuffle_amounts": [v, 0, 0, v]}}
        for sh in ([], [0], [0, 0, 0, 0], [5, 5, 5, 5], [1, 2, 3, 4, 5]):
            for on in (False, True):
                yield {"tracks": 1, "instruments": 1, "cells": [], "sequence": [], "globals": {"shuffle_amounts": sh, "shuffle_is_active": on}}
        yield {"tracks": 8, "instruments": 300, "cells": [[0, c, ln, "A-3", "01", None] for c in range(8) for ln in range(64)], "sequence": [0, 0, 0], "globals": {}}
        for n, k in ((16, 17), (40, 600), (200, 5000)):
            yield {"tracks": n, "instruments": k, "cells": [[0, n - 1, 9, "C-4", "01", None], [0, 0, 3, "B-3", "02", "00"], [1, n // 2, 3, "D-2", None, "F0"]], "sequence": [1, 0], "globals": {}}
        for nt, ins, pan in ((" C-4 ", " 0A", "F0 "), ("c-4", "0a", "f0"), ("", "", ""), ("x<&>\"'", "\u00e9", "000"), ("C-4\n", "100", "80")):
            yield {"tracks": 2, "instruments": 1, "cells": [[0, 1, 9, nt, ins, pan], [0, 0, 3, "B-3", "02", "00"], [1, 0, 3, nt, None, pan]], "sequence": [1, 0],
                   "globals": {"song_name": nt, "artist": pan}, "names": [[0, nt, ins or "Mute"]]}
        yield {"tracks": 2, "instruments": 1, "cells": [[0, 0, 9, "A-3", "01", None], [0, 0, 3, "B-3", "02", "00"], [0, 0, 9, "C-1", "03", "F0"]], "sequence": [1, 0], "globals": {}}
        while True:
            tr = r.choice([1, 2, 8, 11])
            cells = [[r.randrange(4), r.randrange(tr), r.randrange(64), r.choice(["C-4", "Off", "F#7", "B-0"]), r.choice([None, "00", "1F", "%02X" % r.randrange(256)]),
                      r.choice([None, "00", "F0", "%02X" % r.randrange(256)])]
                     for _ in range(r.randrange(12))]
            yield {"tracks": tr, "instruments": r.randrange(5), "cells": cells, "sequence": [r.randrange(4) for _ in range(r.randrange(6))],
                   "globals": {"beats_per_min": r.randrange(20, 1000), "octave": r.randrange(9), "song_name": r.choice(self.TXT), "artist": r.choice(self.TXT),
                               "shuffle_amounts": [r.randrange(100) for _ in range(4)]}, "names": [[r.randrange(tr), r.choice(self.TXT), r.choice(["Active", "Off", "Mute"])]]}

    def shrink(self, inp):
        for i in range(len(inp["cells"])):
            yield dict(inp, cells=inp["cells"][:i] + inp["cells"][i + 1:])
        for k in inp["globals"]:
            yield dict(inp, globals={a: b for a, b in inp["globals"].items() if a != k})

    TAGS = {"beats_per_min": "BeatsPerMin", "lines_per_beat": "LinesPerBeat", "ticks_per_line": "TicksPerLine", "signature_numerator": "SignatureNumerator",
            "signature_denominator": "SignatureDenominator", "metronome_beats_per_bar": "MetronomeBeatsPerBar",
            "metronome_lines_per_beat": "MetronomeLinesPerBeat", "shuffle_is_active": "ShuffleIsActive", "octave": "Octave",
            "loop_coeff": "LoopCoeff", "song_name": "SongName", "artist": "Artist"}
    DEFAULTS = {"beats_per_min": 120, "lines_per_beat": 4, "ticks_per_line": 12, "signature_numerator": 4, "signature_denominator": 4}

    def run(self, inp):
        from xrns.parts.song import Song
        from xrns.writer import writer
        s = Song(tracks=inp["tracks"], instruments=inp["instruments"])
        cells, npat = {}, 0
        for p, c, ln, note, ins, pan in inp["cells"]:
            s.pattern_pool.add_note(p, c, ln, note, ins, pan)
            cells.setdefault((p, c), {})[ln] = (note, ins, pan)
            npat = max(npat, p + 1)
        for e in inp["sequence"]:
            s.pattern_sequence.add_pattern(e)
        for k, v in inp["globals"].items():
            setattr(s.globals, k, v)
        for i, nm, state, *solo in inp.get("names", []):
            s.tracks.tracks[i].name, s.tracks.tracks[i].state = nm, state
            if solo:
                s.tracks.tracks[i].soloed = solo[0]
        g = s.globals
        want_g = {self.TAGS[k]: getattr(g, k) for k in self.TAGS}
        want_sh = list(g.shuffle_amounts)
        want_tracks = [("SequencerTrack", t.name, t.state, t.soloed) for t in s.tracks.tracks] + \
            [("SequencerMasterTrack", t.name, t.state, t.soloed) for t in s.tracks.master_tracks] + \
            [("SequencerSendTrack", t.name, t.state, t.soloed) for t in s.tracks.send_tracks]
        b = io.BytesIO()
        writer(b, s)
        song = parse_song(b.getvalue())
        for tag, v in want_g.items():
            w = {True: "true", False: "false"}[v] if isinstance(v, bool) else str(v)
            expect(song["globals"].get(tag) == w, f"{tag} is {song['globals'].get(tag)!r}, should be {w!r}")
        expect(song["globals"]["ShuffleAmounts"] == [str(x) for x in want_sh], f"shuffle amounts {song['globals']['ShuffleAmounts']} should be {want_sh}")
        got_t = [(a, n, st, {"true": True, "false": False}.get(so, so)) for a, n, st, so in song["tracks"]]
        expect(got_t == want_tracks, f"tracks {got_t} should be {want_tracks}")
        expect(song["instruments"] == inp["instruments"], f"{song['instruments']} instruments, should be {inp['instruments']}")
        expect(song["sequence"] == inp["sequence"], f"play sequence {song['sequence']} should be {inp['sequence']}")
        expect(len(song["patterns"]) == npat, f"{len(song['patterns'])} patterns, should be {npat}")
        for i, p in enumerate(song["patterns"]):
            expect(len(p["tracks"]) == inp["tracks"], f"pattern {i} has {len(p['tracks'])} tracks, should have {inp['tracks']}")
            expect(p["master"] == 1 and p["send"] == 1, f"pattern {i} has {p['master']} master and {p['send']} send tracks")
            for c, lines in enumerate(p["tracks"]):
                want = [(ln,) + v for ln, v in cells.get((i, c), {}).items()]
                expect(lines == want, f"pattern {i} track {c}: lines {lines[:6]} should be {want[:6]}")


# ---------------------------------------------------------------- CSV
class C16(EventsCheck):
    def inputs(self, r):
        yield {"history": full_pattern(), "ticks": 10}
        yield {"history": crowded(5200, late=False), "ticks": 5, "limit": 90}
        yield from block_edges()
        on = [["w", 0x20, 0xC7], ["w", 0x28, 0x4A], ["w", 8, 0x78]]
        yield {"history": on + [["b", 66000 * 3], ["w", 8, 0x79], ["b", 65200 * 3 + 1], ["w", 8, 0]], "ticks": 3}
        for i in self.base_inputs(r):
            total = sum(h[1] for h in i["history"] if h[0] == "b")
            if total // i["ticks"] < 3000:
                yield i

    def run(self, inp):
        import extractors
        st = run_history(inp["history"])
        t = inp["ticks"]
        p = "tracks.csv"
        if os.path.exists(p):
            os.remove(p)
        extractors.extract_tracks(st, p, t)
        with open(p) as f:
            text = f.read()
        expect(text.endswith("\n"), "the last line is not terminated")
        lines = text[:-1].split("\n")
        head = lines[0].split(",")
        expect(head[1:4] == ["Row", "Pattern", "Total Row"] and len(head) == 13 and all(h.startswith("Channel") for h in head[5:]), f"header {lines[0]!r}")
        cells, last = {}, -1
        for c in range(8):
            for n in st.key_presses(c):
                row = n.sample // t
                cells[(row, c)] = str(n)
                last = max(last, row)
        channels = [re.findall(r"\d+", x) for x in head[5:]]
        expect(channels in ([[str(c + b)] for c in range(8)] for b in (0, 1)), f"the header names the channels {head[5:]}")
        body = [ln.split(",") for ln in lines[1:]]
        expect(len(body) == last + 1, f"{len(body)} lines, should be {last + 1}")
        for i, b in enumerate(body):
            expect(len(b) == 13, f"line {i} has {len(b)} columns")
            expect(b[1:4] == [str(i % 64), str(i // 64), str(i)], f"line {i} has row, pattern, total {b[1:4]}")
            want = [cells.get((i, c), "") for c in range(8)]
            expect(b[5:] == want, f"line {i} has cells {b[5:]}, should be {want}")


# ---------------------------------------------------------------- smart_open
class Boom(Exception):
    pass


class Bolt(BaseException):
    pass


class C18:
    MODES = ("r", "rb", "w", "wb", "rt", "wt", "r+", "rb+", "w+", "wb+")
    BAD = ("a", "ab", "x", "xb", "", "q", "+", "b", "tr", "brw", " w")

    def inputs(self, r):
        for mode in self.MODES:
            for name in ("file.txt", "./-", "-x", "", None, "-", "--", " ", "x-"):
                for exit_ in ("normal", "Boom", "KeyboardInterrupt", "SystemExit", "StopIteration", "OSError", "return", "closed"):
                    yield {"mode": mode, "name": name, "exit": exit_}
        for mode in self.BAD:
            for name in ("", None, "-"):
                yield {"mode": mode, "name": name, "exit": "bad"}
        for mode in ("a", "ab", "x"):
            yield {"mode": mode, "name": "file2.txt", "exit": "Boom"}
        yield {"mode": "r", "name": "missing", "exit": "missing"}
        for mode in ("r", "rb", "w", "wb"):
            for name in ("file.txt", "", None, "-"):
                for rebind in ("handle", "other stream", "None"):
                    yield {"mode": mode, "name": name, "exit": r.choice(["normal", "Boom", "KeyboardInterrupt"]), "rebind": rebind}
            for name in ("~", "~x", " spaced ", "x ", "$HOME", "%41", "a*b", "./a", "stdout", "None", "\u00e9", "a\nb", "file.gz", "a.", "-\n", "- ", "UPPER", "{}"):
                yield {"mode": mode, "name": name, "exit": "normal"}
            for exit_ in ("SystemExit 0", "errno 32", "errno 5", "errno 2", "EOFError", "GeneratorExit", "UnicodeDecodeError", "AssertionError", "Bolt", "BrokenPipeError",
                          "IsADirectoryError", "MemoryError", "RecursionError", "RuntimeError", "KeyError", "StopAsyncIteration", "Warning", "ValueError"):
                for name in ("file.txt", "", "-"):
                    yield {"mode": mode, "name": name, "exit": exit_}
        for _ in range(400):
            yield {"mode": r.choice(self.MODES), "name": r.choice(["file.txt", "", None, "-", "a b", "--"]), "exit": r.choice(["normal", "Boom", "KeyboardInterrupt"])}

    def shrink(self, inp):
        return []

    def run(self, inp):
        import builtins
        import tools
        mode, name, ex = inp["mode"], inp["name"], inp["exit"]
        named = bool(name) and name != "-"
        for f in ("file2.txt", "missing"):
            if os.path.exists(f):
                os.remove(f)
        if named and ex != "missing" and mode not in ("x",):
            with open(name, "wb") as f:
                f.write(b"ab\r\ncd\n")
        opened = []
        real_open = builtins.open

        class Rec:
            def __init__(self, fh):
                self.__dict__.update(fh=fh, closes=0)

            def __getattr__(self, n):
                return getattr(self.__dict__["fh"], n)

            def close(self):
                self.__dict__["closes"] += 1
                self.__dict__["fh"].close()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __iter__(self):
                return iter(self.fh)

        def rec_open(*a, **k):
            fh = Rec(real_open(*a, **k))
            opened.append((a, k, fh))
            return fh
        so, si = sys.stdout, sys.stdin
        fo = io.TextIOWrapper(io.BytesIO(), write_through=True)
        fi = io.TextIOWrapper(io.BytesIO(b"stdin text\n"))
        other, text = io.TextIOWrapper(io.BytesIO(b"other\n")), None
        excs = {"Boom": Boom("b"), "KeyboardInterrupt": KeyboardInterrupt(), "SystemExit": SystemExit(3), "StopIteration": StopIteration(1), "OSError": OSError("x"),
                "SystemExit 0": SystemExit(0), "SystemExit None": SystemExit(), "UnicodeDecodeError": UnicodeDecodeError("ascii", b"x", 0, 1, "r"),
                "UnicodeEncodeError": UnicodeEncodeError("ascii", "x", 0, 1, "r"), "Bolt": Bolt("b"), "chained": Boom("c")}
        if ex.startswith("errno "):
            excs[ex] = OSError(int(ex[6:]), os.strerror(int(ex[6:])))
        elif ex not in excs and isinstance(getattr(builtins, ex, None), type):
            excs[ex] = getattr(builtins, ex)("x")
        kept_home, os.environ["HOME"] = os.environ.get("HOME"), os.getcwd()
        raised, fh = None, None
        sys.stdout, sys.stdin = fo, fi
        builtins.open = rec_open
        try:
            try:
                with tools.smart_open(name, mode) as fh:
                    if named:
                        inside, size = fh.closed, os.path.getsize(name)
                        if "b" not in mode and mode[0] == "r" and isinstance(getattr(fh, "fh", fh), io.TextIOBase):
                            text = fh.read()
                        if mode[0] == "w":
                            fh.write(b"a\n" if "b" in mode else "a\n")
                    if inp.get("rebind"):
                        sys.stdout = sys.stdin = {"handle": fh, "other stream": other, "None": None}[inp["rebind"]]
                    if ex in excs:
                        raise excs[ex]
                    if ex == "closed" and named:
                        fh.close()
            except BaseException as e:
                raised = e
        finally:
            builtins.open = real_open
            sys.stdout, sys.stdin = so, si
            if kept_home is None:
                os.environ.pop("HOME")
            else:
                os.environ["HOME"] = kept_home
        expect(not other.closed and not other.buffer.closed, "a stream the block installed as standard stream was closed")
        if ex == "bad":
            expect(raised is not None and isinstance(raised, Exception) and fh is None, f"mode {mode!r} without a name is not refused")
            return
        if ex == "missing":
            expect(isinstance(raised, FileNotFoundError), f"a missing file gives {raised!r}")
            return
        want = excs.get(ex)
        if ex == "StopIteration":
            expect(raised is want or (isinstance(raised, RuntimeError) and raised.__cause__ is want) or raised is want, f"exception {want!r} became {raised!r}")
        else:
            expect(raised is want, f"exception {want!r} of the block became {raised!r}")
        if named:
            expect(all(fh is not s for s in (fo, fo.buffer, fi, fi.buffer)), f"the name {name!r} gives a standard stream")
            if not isinstance(fh.name, int):        # a Path and its text name the same file
                expect(os.path.abspath(os.fspath(fh.name)) == os.path.abspath(name), f"opened {fh.name!r} instead of {name!r}")
            expect(not inside, "the file is closed inside the block")
            if text is not None:
                expect(text == "ab\ncd\n", f"the text of the file reads as {text!r}")
            expect(fh.closed, "the file is left open")
            rb = "b" in mode
            expect(isinstance(getattr(fh, "fh", fh), io.TextIOBase) == (not rb), f"mode {mode!r} gives {type(getattr(fh, 'fh', fh)).__name__}")
            m = getattr(fh, "fh", fh)
            def kind(x):  # Python itself reports rb+ for wb+; whether the file was truncated is looked at below
                return set(x) - {"t"} - ({"r", "w"} if "+" in x else set())
            expect(kind(m.mode) == kind(mode), f"opened with mode {m.mode!r}, requested {mode!r}")
            if mode[0] in "rw" and ex != "missing":
                expect(size == (0 if mode[0] == "w" else 7), f"opened with mode {mode!r} the file has {size} bytes")
                if mode[0] == "w":
                    with open(name, "rb") as f:
                        got = f.read()
                    expect(got == b"a\n", f"the file written has {got!r}")
            if opened:
                expect(len(opened) == 1, f"{len(opened)} files opened")
                if ex != "closed":
                    expect(opened[0][2].closes == 1, f"closed {opened[0][2].closes} times")
        else:
            std = fo if mode.startswith("w") else fi
            target = std.buffer if "b" in mode else std
            expect(fh is target, f"{name!r} with mode {mode!r} gives {fh!r}")
            expect(not std.closed and not std.buffer.closed, "a standard stream was closed")
            expect(not opened, "a file was opened")


# ---------------------------------------------------------------- isolation
def scenario(kind, seed):
    g = steps(kind, seed)
    while True:
        try:
            next(g)
        except StopIteration as e:
            return e.value


def with_others_between(kind, seed, others):
    """the same operation, with another one carried out at each point where it pauses"""
    g, i = steps(kind, seed), 0
    while True:
        try:
            next(g)
        except StopIteration as e:
            return e.value
        if others:
            k, s = others[i % len(others)]
            i += 1
            try:
                scenario(k, s)
            except Exception:
                pass


def steps(kind, seed):
    """an operation whose result must not depend on what ran before, or while it pauses, in the process"""
    import random
    r = random.Random(seed)
    import vgm.core, main, extractors
    if kind == "read":
        from .stream_checks import iterate
        off = r.choice([0x0C, 0x0C, 0x10, 0x2C])
        v = open_stream(bytes(off - 0x0C) + b"\x54\x20\xC0\x62\x66", version=r.choice([0x101, 0x110, 0x150, 0x171]), ym2151=r.randrange(1, 9999), ym2413=r.choice([0, r.randrange(1, 9999)]),
                        data_off=off)
        yield
        head = [v.size(), v.version, v.clock("ym2151"), v.clock("ym2413"), v.supports("ym2151"), v.supports("ym2413"), v.data_start]
        yield
        got = repr(iterate(v))
        yield
        return head + [got, v.size(), v.version, v.clock("ym2151"), v.clock("ym2413")]
    if kind == "reread":          # the same file object, read again from its start
        from .stream_checks import iterate
        f = io.BytesIO(vgm_file(b"\x54\x20\xC0\x62\x54\x08\x01\x66", ym2151=r.randrange(1, 9999)))
        out = []
        for _ in range(2):
            f.seek(0)
            v = vgm.core.reader(f)
            yield
            out.append([v.clock("ym2151"), repr(iterate(v))])
        if out[0] != out[1]:
            raise Violation(f"a file read a second time from its start gives {out[1]} instead of {out[0]}")
        return out
    if kind == "reject":
        return [vgm.core.reader(io.BytesIO(b"junk" * 20)) is None]
    h = rnd_history(r, n=30, key_p=.45)
    if kind == "fresh":
        from vgm.ym2151.state import State
        st = State()
        yield
        return [dump_live(st), dump_recorded(st), list(st.ticks())]
    if kind == "analyse":
        st = run_history(h[:10])
        yield
        for x in h[10:20]:
            apply_step(st, x)
        yield
        for x in h[20:]:
            apply_step(st, x)
        yield
        return [dump_live(st), dump_recorded(st), list(st.ticks())]
    if kind == "tempo":
        st = run_history(h)
        yield
        return [st.ticks_per_note(show_progress=False)]
    if kind == "values":
        from vgm.ym2151 import config
        c = config.ChannelConfig()
        o = config.Config(seed)
        b = config.ChannelConfig()
        yield
        c.operators[0].total_level = seed % 100
        b.operators[1].attack_rate = 1 + seed % 30
        d = copy.deepcopy(b)
        yield
        d.operators[1].attack_rate = 0
        return [dump_oper(c.operators[0]), dump_oper(c.operators[2]), dump_oper(b.operators[1]), d == b,
                dump_config(o) if not isinstance(o.enabled_operators, type(None)) else None, json.dumps(o, cls=config.ConfigEncoder)]
    if kind == "render":
        from xrns.parts.song import Song
        from xrns.writer import writer
        n = r.choice([1, 8, 12])
        s = Song(tracks=n, instruments=r.randrange(3))
        for i in range(9):
            s.pattern_pool.add_note(r.randrange(3), r.randrange(n), r.randrange(64), "C-4", "01", None)
            if i % 4 == 0:
                yield
        s.globals.shuffle_amounts[0] = r.randrange(50)
        s.globals.song_name = f"song {seed}"
        yield
        b = io.BytesIO()
        writer(b, s)
        return [zipfile.ZipFile(b).read("Song.xml").decode()]
    if kind == "main":
        d = vgm_file(b"".join(bytes([0x54, x[1], x[2]]) if x[0] == "w" else b"\x61" + (x[1] % 65536).to_bytes(2, "little") for x in h) + b"\x66")
        with open("iso.vgm", "wb") as f:
            f.write(d)
        main.main("iso.vgm", "iso1.json", "iso1.xrns", 44100)
        return [open("iso1.json").read(), zipfile.ZipFile("iso1.xrns").read("Song.xml").decode()]
    st = run_history(h[:15])
    yield
    for x in h[15:]:
        apply_step(st, x)
    t = r.randrange(700, 9000)
    yield
    if kind == "instruments":
        extractors.extract_instruments("iso.json", st)
        return [open("iso.json").read()]
    if kind == "csv":
        extractors.extract_tracks(st, "iso.csv", 44100)
        return [open("iso.csv").read()]
    if kind == "song":
        extractors.extract_tracks_to_xrns(st, "iso.xrns", 44100)
        return [zipfile.ZipFile("iso.xrns").read("Song.xml").decode()]
    raise ValueError(kind)


def forked(f):
    """f() in a forked child: its process state is the parent's, and its effects stay there"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    out = ["ok", f()]
            except BaseException as e:
                out = ["raised", f"{type(e).__name__}: {e}"]
            with os.fdopen(wr, "w") as w:
                w.write(json.dumps(out, default=repr))
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f2:
        txt = f2.read()
    os.waitpid(pid, 0)
    return json.loads(txt) if txt else ["died", ""]


class C19:
    KINDS = ("read", "reread", "reject", "fresh", "analyse", "instruments", "csv", "song", "render", "values", "main", "tempo")

    def inputs(self, r):
        for a in self.KINDS[:-1]:
            for b in self.KINDS[:-1]:
                yield {"before": [[b, 3], [b, 4]], "probe": [a, 1]}
        for a in ("tempo", "fresh", "read"):
            yield {"before": [["tempo", 5]], "probe": [a, 6]}
        while True:
            n = r.choice([1, 2, 4])
            yield {"before": [[r.choice(self.KINDS[:-1]), r.randrange(1000)] for _ in range(n)], "probe": [r.choice(self.KINDS[:-1]), r.randrange(1000)]}

    def shrink(self, inp):
        for i in range(len(inp["before"])):
            yield dict(inp, before=inp["before"][:i] + inp["before"][i + 1:])

    def run(self, inp):
        import main, extractors, xrns.writer, xrns.parts.song, xrns.xrns_serializer, vgm.ym2151.state  # noqa: imported once, before forking
        p = inp["probe"]
        alone = forked(lambda: scenario(*p))

        def after():
            held = []
            for k, s in inp["before"]:
                try:
                    held.append(scenario(k, s))
                except Exception:
                    pass
            return scenario(*p)
        if alone[0] == "raised" and alone[1].startswith("Violation: "):
            raise Violation(alone[1][11:])
        later = forked(after)
        if alone != later:
            raise Violation(f"{p[0]} gives a different result after {[x[0] for x in inp['before']]} in the same process: "
                            + first_difference(alone, later))
        # the others run while this one pauses between its steps
        between = forked(lambda: with_others_between(*p, inp["before"]))
        if alone != between:
            raise Violation(f"{p[0]} gives a different result when {[x[0] for x in inp['before']]} run in between: " + first_difference(alone, between))


def first_difference(a, b):
    x, y = json.dumps(a), json.dumps(b)
    k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return f"...{x[max(0, k - 40):k + 60]}... versus ...{y[max(0, k - 40):k + 60]}..."


# ---------------------------------------------------------------- command line
class C20:
    def inputs(self, r):
        for how, instr, track, t in (("cli", "out.json", "out.xrns", 1500), ("call", "out.json", "out.xrns", 1500), ("cli", "out.json", "out.xrns", None), ("call", None, None, None),
                                     ("cli", None, "out.xrns", 6000), ("call", "out.json", None, None), ("cli", None, None, None), ("cli", "out.json", None, 1500)):
            yield {"instr": instr, "track": track, "ticks": t, "how": how, "seed": 6, "kind": "vgm"}
        for instr in (None, "", "out.json"):
            for track in (None, "", "out.xrns"):
                for t in (None, 1500, 6000):
                    for how in ("call", "cli"):
                        if how == "cli" and (instr == "" or track == ""):
                            continue
                        yield {"instr": instr, "track": track, "ticks": t, "how": how, "seed": 5, "kind": "vgm"}
        for kind in ("silent", "offs"):
            yield {"instr": "out.json", "track": "out.xrns", "ticks": 1500, "how": "call", "seed": 5, "kind": kind}
        for kind in ("junk", "empty", "gzjunk"):
            for how in ("call", "cli"):
                yield {"instr": "out.json", "track": "out.xrns", "ticks": 1000, "how": how, "seed": 5, "kind": kind}
        yield {"instr": "out.json", "track": "out.xrns", "ticks": 1000, "how": "call", "seed": 9, "kind": "gz"}
        for instr, track in (("in file.vgm", "out.xrns"), ("out.json", "in file.vgm"), ("decoy.vgm", None), ("out", "out.json"), ("out.xrns", "out.zip"), ("out.vgm", "out.vgz")):
            for how in ("call", "cli"):
                yield {"instr": instr, "track": track, "ticks": 1500, "how": how, "seed": 5, "kind": "vgm"}
        while True:
            yield {"instr": r.choice([None, "out.json"]), "track": r.choice([None, "out.xrns"]), "ticks": r.choice([1000, 735, 4410, 9000]),
                   "how": "call" if r.random() < .9 else "cli", "seed": r.randrange(9999), "kind": r.choice(["vgm", "gz", "vgm"])}

    def shrink(self, inp):
        return []

    def run(self, inp):
        import gzip
        import random
        r = random.Random(inp["seed"])
        h = rnd_history(r, n=25, key_p=.5, wait_p=.3)
        h = [["b", x[1] % 5000] if x[0] == "b" else x for x in h] + [["w", 8, 0x78], ["b", 3000], ["w", 8, 0x79]]
        if inp["kind"] == "silent":
            h = [x for x in h if x[0] == "b" or x[1] != 8]
        if inp["kind"] == "offs":
            h = [x if x[0] == "b" or x[1] != 8 else ["w", 8, x[2] & 7] for x in h]
        d = vgm_file(b"".join(bytes([0x54, x[1], x[2]]) if x[0] == "w" else b"\x61" + x[1].to_bytes(2, "little") for x in h) + b"\x66")
        raw = {"vgm": d, "silent": d, "offs": d, "gz": gzip.compress(d), "junk": b"this is not it" * 9, "empty": b"", "gzjunk": gzip.compress(b"nope" * 40)}[inp["kind"]]
        for f in os.listdir("."):
            if f.startswith("out."):
                os.remove(f)
        with open("in file.vgm", "wb") as f:
            f.write(raw)
        # a decoy that must not be read
        with open("decoy.vgm", "wb") as f:
            f.write(vgm_file(b"\x66"))
        before = set(os.listdir("."))
        err = None
        if inp["how"] == "call":
            import main
            argv, sys.argv = sys.argv, ["main.py", "decoy.vgm", "-i", "out.decoy"]
            said = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", write_through=True)
            try:
                with contextlib.redirect_stdout(said):
                    main.main("in file.vgm", inp["instr"], inp["track"], inp["ticks"])
            except Exception as e:
                err = e
            finally:
                sys.argv = argv
            said = said.buffer.getvalue().decode("utf-8", "replace")
        else:
            cmd = [sys.executable, "-B", os.path.join(REPO_SRC, "main.py"), "in file.vgm"]
            if inp["instr"]:
                cmd += [r.choice(["-i", "--instrument"]), inp["instr"]]
            if inp["track"]:
                cmd += [r.choice(["-t", "--track"]), inp["track"]]
            if inp["ticks"] is not None:
                cmd += [r.choice(["-tn", "--ticks-per-note"]), str(inp["ticks"])]
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL)
            if p.returncode:
                err = p.stderr[-300:]
            said = p.stdout
        new = set(os.listdir(".")) - before
        if inp["kind"] not in ("vgm", "gz", "silent", "offs"):
            expect(not new, f"output files {sorted(new)} created although the input is not a VGM file")
            return
        expect(err is None, f"the run fails: {err!r}")
        want = {x for x in (inp["instr"], inp["track"]) if x} - before
        expect(new == want, f"files {sorted(new)} written, should be {sorted(want)}")
        m = chip.Chip().run(h)
        expect(inp["instr"] or '"operators"' not in said, "instruments are written to the standard output although none are requested")
        if inp["instr"]:
            js = json.load(open(inp["instr"]))
            st = run_history(h)
            expect(len(js) == len(m.configs) and [o["id"] for o in js] == list(range(len(js))), f"{len(js)} instruments in the file, should be {len(m.configs)}")
            tl = [[o["channel"][n]["tl"] for n in chip.OP_NAMES] for o in js]
            wt = [[c[2][s][0] for s in range(4)] for c in m.configs]
            expect(tl == wt, "the instrument file belongs to other data")
        if inp["track"]:
            song = parse_song(open(inp["track"], "rb").read())
            t = inp["ticks"] or chip.tempo(sorted(m.onsets))
            expect(song["globals"]["BeatsPerMin"] == str(chip.bpm(t)), f"tempo {song['globals']['BeatsPerMin']}, should be {chip.bpm(t)} ({t} ticks per row)")
            got = {(i, c, ln[0]) for i, p in enumerate(song["patterns"]) for c, lines in enumerate(p["tracks"]) for ln in lines}
            w = {(chip.cell(e[1], t)[0], c, chip.cell(e[1], t)[1]) for c in range(8) for e in m.events[c]}
            expect(got == w, f"cells {sorted(got ^ w)[:4]} differ")
            expect(song["instruments"] == len(m.configs), f"{song['instruments']} instruments, should be {len(m.configs)}")


REPO_SRC = os.environ.get("VP_REPO_SRC", "/repo/src")
CHECKS = {c.__name__: c for c in (C11, C12, C13, C16, C18, C19, C20)}
