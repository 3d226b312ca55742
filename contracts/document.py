"""C13: xrns.writer.writer and XrnsSerializer.render keep the whole song."""
import dataclasses
import enum
import z3
from engine import heap
from engine.core import Unsupported, PathCut
from engine.containers import SymSeq, SDict, Poison
from engine.symval import SymInt, SymBool, SymStr, is_sym, is_intlike, mk_int, zi, zb, Z, text_code
from engine.unit import Unit
from .common import Opaque, sym_range, model_int, eq, outcome, frame

R = "xrns.xrns_serializer:XrnsSerializer."
FUNCS = ["xrns.writer:writer", R + "__init__", "xrns.xrns_serializer:SerializerConfig.__init__"] + [R + n for n in (
    "render _render_global_song_data _render_instruments _render_instrument _render_tracks _render_track _render_master_track _render_send_track "
    "_render_pattern_pool _render_pattern _render_pattern_track _render_pattern_master_track _render_pattern_send_track _render_pattern_sequence "
    "_render_sequence_entry").split()]
NUMBERS = {"beats_per_min": "BeatsPerMin", "lines_per_beat": "LinesPerBeat", "ticks_per_line": "TicksPerLine", "signature_numerator": "SignatureNumerator",
           "signature_denominator": "SignatureDenominator", "metronome_beats_per_bar": "MetronomeBeatsPerBar",
           "metronome_lines_per_beat": "MetronomeLinesPerBeat", "octave": "Octave", "loop_coeff": "LoopCoeff"}
TEXTS = {"song_name": "SongName", "artist": "Artist"}


class Rendered(Opaque):
    """the text that xsdata gives for an object"""

    def __init__(self, obj, config):
        self.obj, self.config = obj, config

    def __bool__(self):
        return True

    def encode(self, encoding="utf-8", errors="strict"):
        return RenderedBytes(self, encoding)


class RenderedBytes(Opaque):
    def __init__(self, text, encoding):
        self.text, self.encoding = text, encoding


class World:
    def __init__(self, ex, tracks):
        import zipfile
        import xrns.writer as w
        import xsdata.formats.dataclass.serializers as ser
        import xsdata.formats.dataclass.serializers.xml as serx
        from xrns.parts.song import Song
        from xrns.parts.instrument import Instrument
        W = self
        self.ex, self.T, self.symbolic = ex, tracks, tracks is None
        self.rendered, self.members, self.zips = [], [], []
        self.info = {"W": self}
        self.out = type("OutputFile", (), {})()

        class Serializer:
            def __init__(self, *a, **k):
                if a:
                    k.setdefault("config", a[0])
                if set(k) - {"config", "context", "writer"} or len(a) > 1:
                    raise Unsupported("the XML serializer is configured differently")
                self.__dict__["config"] = k.get("config")

            def __setattr__(self, n, v):
                if n != "config":
                    raise Unsupported("the XML serializer is configured differently")
                self.__dict__[n] = v

            def render(self, obj, ns_map=None):
                r = Rendered(obj, self.config)
                W.rendered.append(r)
                W.check_document(r)
                return r

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                raise Unsupported(f"XML serializer method {n}")

        class Member:
            """one member of the container, opened for writing"""

            def __init__(self, zip, name):
                self.zip, self.name, self.parts = zip, name, []

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def close(self):
                if self.zip is not None:
                    if len(self.parts) != 1:
                        raise Unsupported("a member of the container is written in several parts")
                    W.members.append((self.zip, self.name, self.parts[0], self.zip.is_open))
                    self.zip.writing = self.zip = None

            def write(self, data):
                if self.zip is None:
                    raise ValueError("write to closed file")
                if isinstance(data, (str, Rendered)):
                    raise TypeError("a bytes-like object is required, not 'str'")
                self.parts.append(data)

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                raise Unsupported(f"zip member method {n}")

        class Zip:
            def __init__(self, file, mode="r", compression=0, *a, **k):
                if a or set(k) - {"compresslevel", "allowZip64"}:
                    raise Unsupported("the zip container is opened differently")
                self.file, self.mode, self.is_open, self.writing = file, mode, True, None
                W.zips.append(self)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def close(self):
                if self.writing is not None:
                    raise ValueError("Can't close the ZIP file while there is an open writing handle on it.")
                self.is_open = False

            def writestr(self, name, data, *a, **k):
                if self.writing is not None:
                    raise ValueError("Can't write to ZIP archive while an open writing handle exists")
                W.members.append((self, getattr(name, "filename", name), data, self.is_open))

            def open(self, name, mode="r", pwd=None, *, force_zip64=False):
                if mode != "w":
                    raise Unsupported("a member of the container is read")
                if not self.is_open:
                    raise ValueError("Attempt to use ZIP archive that was already closed")
                if self.writing is not None:
                    raise ValueError("Can't write to the ZIP file while there is another write handle open on it.")
                self.writing = Member(self, getattr(name, "filename", name))
                return self.writing

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                raise Unsupported(f"zip method {n}")

        real_ser, real_zip = ser.XmlSerializer, zipfile.ZipFile
        self.patched = []
        for m in (w, ser, serx, zipfile):
            for n, v in list(vars(m).items()):
                if v is real_ser or v is real_zip:
                    self.patched.append((m, n, v))
                    setattr(m, n, Serializer if v is real_ser else Zip)
        # an arbitrary song with that many tracks
        s = self.song = Song(tracks=tracks or 1, instruments=1)
        self.NI, self.P, self.Q, self.SH = (ex.fresh_int(n) for n in ("instruments", "patterns", "entries", "shuffles"))
        ex.assume(z3.And(self.NI >= 0, self.P >= 0, self.Q >= 0, self.SH >= 0))
        fn = lambda n, *a: ex.fresh_fn(n, *a)
        I, B = z3.IntSort(), z3.BoolSort()
        self.vals = {n: SymInt(ex.fresh_int(n)) for n in NUMBERS}
        self.texts = {n: SymStr.token(ex.fresh_int(n)) for n in TEXTS}
        self.shuffle = SymBool(ex.fresh_bool("shuffle"))
        self.amount = fn("amount", I, I)
        g = s.globals
        for n, v in list(self.vals.items()) + list(self.texts.items()) + [("shuffle_is_active", self.shuffle)]:
            if not hasattr(g, n):
                raise Unsupported(f"the song has no {n}")
            setattr(g, n, v)
        g.shuffle_amounts = SymSeq(self.SH, lambda i: mk_int(self.amount(i)), tag="shuffle amounts", scalar=True)
        s.instruments = SymSeq(self.NI, lambda i: Instrument(), tag="instruments")
        self.track_data = []
        if tracks is None:
            from xrns.parts.track import SequencerTrack
            self.T = ex.fresh_int("tracks")
            ex.assume(self.T >= 0)
            self.names, self.states, self.solo = fn("name_of", I, I), fn("state_of", I, I), fn("soloed_of", I, B)

            def track_at(i):
                t = SequencerTrack()
                t.name, t.state, t.soloed = SymStr.token(self.names(i)), SymStr.token(self.states(i)), SymBool(self.solo(i))
                return t
            s.tracks.tracks = SymSeq(self.T, track_at, tag="tracks")
        for kind, ts in (("SequencerTrack", s.tracks.tracks if tracks is not None else ()), ("SequencerMasterTrack", s.tracks.master_tracks), ("SequencerSendTrack", s.tracks.send_tracks)):
            for i, t in enumerate(ts):
                nm, st, so = SymStr.token(ex.fresh_int("name")), SymStr.token(ex.fresh_int("state")), SymBool(ex.fresh_bool("soloed"))
                t.name, t.state, t.soloed = nm, st, so
                self.track_data.append((kind, nm, st, so))
        if tracks is None:
            class Per:          # the same for a track number that is a term
                def __init__(self, f):
                    self.f = f

                def __getitem__(self, c):
                    return lambda *a: self.f(c, *a)
            per = lambda n, *a: Per(fn(n, I, *a))
        else:
            per = lambda n, *a: {c: fn(f"{n}{c}", *a) for c in range(tracks)}
        self.key, self.lines, self.note, self.ins, self.pan = per("key", I, I, I), per("lines", I, I), per("note", I, I, I), per("instr", I, I, I), per("pan", I, I, I)
        self.has_ins, self.has_pan, self.has = per("has_instr", I, I, B), per("has_pan", I, I, B), per("has", I, I, B)
        self.entry = fn("entry", I, I)
        s.pattern_pool.patterns = SymSeq(self.P, self.pattern_at, tag="patterns")
        s.pattern_sequence.sequence_entries = SymSeq(self.Q, self.entry_at, tag="sequence")
        heads = [self.names(Z(0)).decl(), self.states(Z(0)).decl()] if tracks is None else []
        self.may_be_empty = [t.pieces[0][1] for t in self.texts.values()] + [n.pieces[0][1] for _, n, _, _ in self.track_data]
        empty = lambda t: t == text_code("") if any(t.eq(x) for x in self.may_be_empty) or any(t.decl().eq(d) for d in heads) else z3.BoolVal(False)
        ex.token_nonempty = lambda t: z3.Not(empty(t))
        ex.token_eq = lambda t, s: t == text_code(s) if s else empty(t)

    def unpatch(self):
        for m, n, v in self.patched:
            setattr(m, n, v)

    def pattern_at(self, i):
        from xrns.parts.pattern import Pattern
        p = Pattern(1 if self.symbolic else self.T, 64)
        if self.symbolic:
            def track_at(c):
                t = Pattern.PatternTrack()
                self.ex.assume(self.lines[c](i) >= 0)
                t.lines = SDict((), base_has=lambda x: self.has[c](i, x), base_get=lambda x: self.line_at(c, i, x),
                                base_order=(self.lines[c](i), lambda j: self.key[c](i, j)), tag="lines")
                return t
            p.tracks = SymSeq(self.T, track_at, tag="pattern tracks")
            return p
        for c, t in enumerate(p.tracks):
            n = self.lines[c](i)
            self.ex.assume(n >= 0)
            t.lines = SDict((), base_has=lambda x, c=c, i=i: self.has[c](i, x), base_get=lambda x, c=c, i=i: self.line_at(c, i, x),
                            base_order=(n, lambda j, c=c, i=i: self.key[c](i, j)), tag=f"lines{c}")
        return p

    def option(self, has, tok):
        return SymStr.token(tok) if self.ex.branch(has) else None

    def line_at(self, c, i, x):
        from xrns.parts.pattern import Pattern
        return Pattern.Line(SymStr.token(self.note[c](i, x)), self.option(self.has_ins[c](i, x), self.ins[c](i, x)),
                            self.option(self.has_pan[c](i, x), self.pan[c](i, x)))

    def entry_at(self, i):
        from xrns.parts.pattern_sequence import PatternSequence
        return PatternSequence.SequenceEntry(mk_int(self.entry(i)))

    # -- what the document must contain
    def check_document(self, r):
        """at the moment the object is rendered"""
        ex, info = self.ex, self.info
        part = self.part = ex.choose(["head", "instruments", "tracks", "patterns", "sequence"])
        song = r.obj
        cls = type(song)
        if not dataclasses.is_dataclass(song):
            raise Unsupported("the document is no dataclass")
        if part == "head":
            name = getattr(getattr(cls, "Meta", None), "name", cls.__name__)
            ex.prove("C13.document-is-a-renoise-song", name == "RenoiseSong" and getattr(getattr(cls, "Meta", None), "namespace", None) is None, info)
            v = [getattr(song, f.name) for f in dataclasses.fields(song) if f.metadata.get("type") == "Attribute" and f.metadata.get("name", f.name) == "doc_version"]
            dflt = [f.default for f in dataclasses.fields(song) if f.metadata.get("name", f.name) == "doc_version"]
            cfg = r.config
            drops = bool(getattr(cfg, "ignore_default_attributes", False))
            ex.prove("C13.document-version-65", len(v) == 1 and v[0] == 65 and not (drops and v == dflt), info)
            g = element(song, "GlobalSongData")
            for n, tag in NUMBERS.items():
                same(ex, "C13.global-settings", number(element(g, tag)), zi(self.vals[n]), dict(info, tag=tag))
            v = element(g, "ShuffleIsActive")
            same(ex, "C13.global-settings", zb(v) if isinstance(v, (bool, SymBool)) else None, zb(self.shuffle), dict(info, tag="ShuffleIsActive"))
            for n, tag in TEXTS.items():
                text(ex, "C13.global-settings", element(g, tag), self.texts[n], dict(info, tag=tag))
            each(ex, "C13.global-settings", elements(element(g, "ShuffleAmounts"), "ShuffleAmount"), self.SH,
                 lambda k, v: same(ex, "C13.global-settings", number(v), self.amount(k), dict(info, tag="ShuffleAmounts")), info)
        elif part == "instruments":
            each(ex, "C13.one-instrument-entry-each", elements(element(song, "Instruments"), "Instrument"), self.NI, lambda k, v: None, info)
        elif part == "tracks":
            t = element(song, "Tracks")
            def entry(k, x):
                text(ex, "C13.one-track-entry-each", element(x, "Name"), SymStr.token(self.names(k)), info)
                text(ex, "C13.one-track-entry-each", element(x, "State"), SymStr.token(self.states(k)), info)
                v = element(x, "Soloed")
                same(ex, "C13.one-track-entry-each", zb(v) if isinstance(v, (bool, SymBool)) else None, self.solo(k), info)
                ex.cover("track")
            if self.symbolic:
                each(ex, "C13.one-track-entry-each", elements(t, "SequencerTrack"), self.T, entry, info)
            for kind in ("SequencerTrack", "SequencerMasterTrack", "SequencerSendTrack")[self.symbolic:]:
                want = [d for d in self.track_data if d[0] == kind]
                got = elements(t, kind)
                nm = "C13.one-track-entry-each"
                if not isinstance(got, list):
                    raise Unsupported("a list of tracks of unknown length")
                ex.prove(nm, len(got) == len(want), info)
                for (_, n, st, so), x in zip(want, got):
                    text(ex, nm, element(x, "Name"), n, info)
                    text(ex, nm, element(x, "State"), st, info)
                    v = element(x, "Soloed")
                    same(ex, nm, zb(v) if isinstance(v, (bool, SymBool)) else None, zb(so), info)
            ex.prove("C13.one-track-entry-each", len(elements(t, "SequencerGroupTrack")) == 0, info)
        elif part == "patterns":
            self.check_patterns(song)
        else:
            each(ex, "C13.same-play-sequence", elements(element(element(song, "PatternSequence"), "SequenceEntries"), "SequenceEntry"), self.Q,
                 lambda k, v: same(ex, "C13.same-play-sequence", number(element(v, "Pattern")), self.entry(k), dict(info, entry=k)), info)
        ex.cover(part)

    def check_patterns(self, song):
        ex, info = self.ex, self.info

        def pattern(k, p):
            t = element(p, "Tracks")
            got = elements(t, "PatternTrack")
            nm = "C13.tracks-per-pattern"
            if self.symbolic:
                ex.prove(nm, len(elements(t, "PatternMasterTrack")) == 1 and len(elements(t, "PatternSendTrack")) == 1 and len(elements(t, "PatternGroupTrack")) == 0, info)
                each(ex, nm, got, self.T, lambda c, x: each(ex, "C13.lines-per-track", elements(element(x, "Lines"), "Line"), self.lines[c](k),
                                                            lambda j, ln: line(c, k, j, ln, dict(info, track=c, pattern=k)), dict(info, track=c, pattern=k)), info)
                return
            if not isinstance(got, list):
                raise Unsupported("a list of pattern tracks of unknown length")
            ex.prove(nm, len(got) == self.T and len(elements(t, "PatternMasterTrack")) == 1 and len(elements(t, "PatternSendTrack")) == 1
                     and len(elements(t, "PatternGroupTrack")) == 0, info)
            if len(got) != self.T or not got:
                return
            c = ex.choose(list(range(self.T)))
            inf = dict(info, track=c, pattern=k)
            each(ex, "C13.lines-per-track", elements(element(got[c], "Lines"), "Line"), self.lines[c](k), lambda j, ln: line(c, k, j, ln, inf), inf)

        def line(c, k, j, ln, inf):
            x = self.key[c](k, j)
            inf = dict(inf, line=j)
            same(ex, "C13.line-index", number(attribute(ln, "index")), x, inf)
            cols = elements(element(ln, "NoteColumns"), "NoteColumn")
            if not isinstance(cols, list):
                raise Unsupported("a list of note columns of unknown length")
            ex.prove("C13.line-content", len(cols) == 1, inf)
            if len(cols) != 1:
                return
            text(ex, "C13.line-content", element(cols[0], "Note"), SymStr.token(self.note[c](k, x)), inf)
            for has, tok, tag in ((self.has_ins, self.ins, "Instrument"), (self.has_pan, self.pan, "Panning")):
                text(ex, "C13.line-content", element(cols[0], tag), self.option(has[c](k, x), tok[c](k, x)), inf)
            ex.cover("line")
        each(ex, "C13.same-patterns", elements(element(element(song, "PatternPool"), "Patterns"), "Pattern"), self.P, pattern, info)


class Missing(Exception):
    pass


def xml_field(o, name, kind):
    if o is None or not dataclasses.is_dataclass(o):
        raise Missing(f"{name}: its parent is {o!r}"[:100])
    fs = [f for f in dataclasses.fields(o) if f.metadata.get("name", f.name) == name and f.metadata.get("type") == kind]
    if len(fs) != 1:
        raise Missing(f"{len(fs)} {kind.lower()}s {name} in {type(o).__name__}")
    f = fs[0]
    if set(f.metadata) - {"name", "type", "required", "sequential", "min_occurs", "max_occurs", "min_inclusive", "max_inclusive", "pattern", "namespace"}:
        raise Unsupported(f"xsdata option for {name}")
    if f.metadata.get("namespace"):
        raise Missing(f"{name} has a namespace")
    return getattr(o, f.name)


def element(o, name):
    v = xml_field(o, name, "Element")
    return v


def attribute(o, name):
    return xml_field(o, name, "Attribute")


def elements(o, name):
    """items of a repeated element"""
    v = xml_field(o, name, "Element")
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, SymSeq):
        return list(v) if v.is_concrete() else v
    if v is None:
        return []
    raise Unsupported(f"{name} is a {type(v).__name__}")


def number(v):
    if isinstance(v, (bool, SymBool)) or not is_intlike(v):
        return None
    return zi(v)


def same(ex, nm, got, want, info):
    if got is None:
        ex.fail(nm, f"{info.get('tag', '')}: not the value of the song", info)
    else:
        ex.prove(nm, got == want, info)


def text(ex, nm, got, want, info):
    if isinstance(got, enum.Enum):
        got = got.value
    if got is None or want is None:
        if got is want:
            ex.prove(nm, True)
        else:
            ex.fail(nm, f"{got!r} should be {want!r}", info)
    elif not isinstance(got, (str, SymStr)):
        ex.fail(nm, f"{got!r} is no text", info)
    else:
        ex.prove(nm, eq(got, want), info)


def each(ex, nm, seq, n, body, info):
    """the sequence has length n, and body holds for its arbitrary element"""
    if isinstance(seq, list):
        ex.prove(nm, n == len(seq), info)
        for i, v in enumerate(seq):
            body(Z(i), v)
        return
    ex.prove(nm, seq.len_term() == n, info)
    k = ex.fresh_int("k")
    ex.assume(z3.And(k >= 0, k < n, k < seq.len_term()))
    if not ex.feasible():
        return
    body(k, seq.sx_getitem(mk_int(k, 0)))


def run_for(tracks):
    def run(ex):
        from xrns.writer import writer
        glob = heap.Snapshot(heap.global_roots())
        W = World(ex, tracks)
        snap = heap.Snapshot([("song", W.song)])
        try:
            kind, r = outcome(lambda: writer(W.out, W.song))
        finally:
            W.unpatch()
        info = W.info
        if kind == "exc":
            if isinstance(r, Missing):
                ex.fail("C13.document-structure", str(r), info)
                return
            for p in ("C13.no-exception",):
                ex.fail(p, f"raises {type(r).__name__}: {r}", info)
            return
        ex.prove("C13.document-structure", True)
        if len(W.rendered) != 1:
            raise Unsupported("not exactly one document is rendered")
        nm = "C13.single-member-of-a-zip"
        ok = len(W.zips) == 1 and W.zips[0].file is W.out and W.zips[0].mode in ("w", "x") and not W.zips[0].is_open
        ok = ok and len(W.members) == 1 and W.members[0][1] == "Song.xml" and W.members[0][3]
        ex.prove(nm, bool(ok), info)
        if not ok:
            return
        d = W.members[0][2]
        enc = "utf-8"
        if isinstance(d, RenderedBytes):
            d, enc = d.text, d.encoding
        said = str(getattr(d.config, "encoding", "UTF-8")).lower().replace("_", "-") if d is W.rendered[0] else None
        ex.prove("C13.member-is-the-document", d is W.rendered[0] and said == enc.lower().replace("_", "-") and said in ("utf-8",), info)
        frame(ex, "C13.song-is-not-changed", snap, None, info)
        frame(ex, "C19.shared-state-untouched", glob, None, info)
    return run


def replay(m, info):
    """a song like the one of the counterexample, and songs that differ from the default in one place"""
    W = info["W"]
    tr = W.T if not W.symbolic else max(1, min(300, model_int(m, W.T)))
    g = {}
    for n in NUMBERS:
        v = abs(model_int(m, W.vals[n])) % 900
        g[n] = v + (1 if v == 0 else 0)
    out = []
    for gl in (g, {n: 17 + i for i, n in enumerate(NUMBERS)}, {}):
        cells = [[p, c, ln, nt, i, pn] for p, c, ln, nt, i, pn in (
            (0, 0, 9, "C-4", "0A", "F0"), (0, tr - 1, 3, "Off", None, None), (0, 0, 2, "D#5", "FF", None), (1, tr // 2, 63, "C-4", "0A", "00"), (1, 0, 0, "G-0", "01", "F0"))] if tr else []
        out.append({"tracks": tr, "instruments": 3, "cells": cells, "sequence": [1, 0, 1], "globals": dict(gl, song_name="one <two>", artist="three", shuffle_is_active=True,
                    shuffle_amounts=[4, 3, 2, 1]), "names": [[i, f"nm{i}", "Mute"] for i in range(tr)]})
        out.append({"tracks": tr, "instruments": 0, "cells": cells[:1], "sequence": [], "globals": gl})
    return out


# ---------------------------------------------------------------- the trusted serializer agrees with the metadata reading
ENUMERATED = "the number of tracks is enumerated (1, 2, 8, 12); a song made by this program has 8"


def _unit(t):
    return Unit(f"writer, {t} track{'s' * (t != 1)}", run_for(t), FUNCS, replay, cover=["head", "instruments", "tracks", "patterns", "sequence"] + (["line"] if t else []),
                assumptions=["xsdata renders a dataclass field as the element or attribute its metadata names: nothing for None, one element per list item in order, text for a scalar",
                             "zipfile stores the given text under the given name",
                             ENUMERATED])


_us = [_unit(t) for t in (1, 2, 8, 12)]
_us.append(Unit("writer, any number of tracks", run_for(None), FUNCS, replay, cover=["head", "instruments", "tracks", "patterns", "sequence", "line", "track"], lifts=ENUMERATED))
UNITS = {"C13": _us, "C19": [_us[0], _us[-1]]}
