K, T, WR, G, TR, SG = "vgm/command.py", "tools.py", "xrns/writer.py", "xrns/parts/globals.py", "xrns/parts/track.py", "xrns/parts/song.py"
r("slots-note", "C06 C14 C08 C12", (N, "class Note:\n", "class Note:\n    __slots__ = ('config_id', 'right', 'left', 'octave', 'note', 'key_fraction', 'sample')\n\n"))
r("note-dataclass", "C06 C14 C12 C16", (N, "import typing\n", "import dataclasses\nimport typing\n"), (N, '''class Note:
    def __init__(self, config_id: int, note_config: NoteConfig, sample: int) -> None:
        self.config_id: int = config_id
        self.right: bool = note_config.right
        self.left: bool = note_config.left
        self.octave: int = note_config.octave
        self.note: int = note_config.note
        self.key_fraction: int = note_config.key_fraction
        self.sample: int = sample
''', '''@dataclasses.dataclass
class Note:
    config_id: int
    note_config: dataclasses.InitVar[NoteConfig]
    sample: int
    right: bool = False
    left: bool = False
    octave: int = 0
    note: int = 0
    key_fraction: int = 0

    def __post_init__(self, note_config):
        self.right = note_config.right
        self.left = note_config.left
        self.octave = note_config.octave
        self.note = note_config.note
        self.key_fraction = note_config.key_fraction
'''))
r("line-namedtuple", "C12 C13", (P, '''    class Line:
        def __init__(self, note: str, instrument: str, pan: str):
            self.note: str = note
            self.instrument: str = instrument
            self.pan: str = pan
''', '''    class Line(NamedTuple):
        note: str
        instrument: str
        pan: str
'''), (P, "from typing import List, Dict", "from typing import List, Dict, NamedTuple"))
r("line-dataclass", "C12 C13", (P, '''    class Line:
        def __init__(self, note: str, instrument: str, pan: str):
            self.note: str = note
            self.instrument: str = instrument
            self.pan: str = pan
''', '''    @dataclass
    class Line:
        note: str
        instrument: str
        pan: str
'''), (P, "from typing import List, Dict", "from dataclasses import dataclass\nfrom typing import List, Dict"))
r("globals-dataclass", "C12 C13 C19", (G, '''class Globals:
    def __init__(self):
        self.beats_per_min: int = 120
        self.lines_per_beat: int = 4
        self.ticks_per_line: int = 12
        self.signature_numerator: int = 4
        self.signature_denominator: int = 4
        self.metronome_beats_per_bar: int = 4
        self.metronome_lines_per_beat: int = 0
        self.shuffle_is_active: bool = False
        self.shuffle_amounts: List[int] = [0, 0, 0, 0]
        self.octave: int = 3
        self.loop_coeff: int = 4
        self.song_name: str = "Untitled"
        self.artist: str = "FooBar"
''', '''@dataclass
class Globals:
    beats_per_min: int = 120
    lines_per_beat: int = 4
    ticks_per_line: int = 12
    signature_numerator: int = 4
    signature_denominator: int = 4
    metronome_beats_per_bar: int = 4
    metronome_lines_per_beat: int = 0
    shuffle_is_active: bool = False
    shuffle_amounts: List[int] = field(default_factory=lambda: [0, 0, 0, 0])
    octave: int = 3
    loop_coeff: int = 4
    song_name: str = "Untitled"
    artist: str = "FooBar"
'''), (G, "from typing import List", "from dataclasses import dataclass, field\nfrom typing import List"))
r("track-dataclass", "C13 C19", (TR, '''class SequencerTrack:
    def __init__(self, name: Optional[str] = None):
        self.name: Optional[str] = name
        self.state = "Active"
        self.soloed = False
''', '''@dataclass
class SequencerTrack:
    name: Optional[str] = None
    state: str = "Active"
    soloed: bool = False
'''), (TR, "from typing import", "from dataclasses import dataclass\nfrom typing import"))
r("singledispatch", "C10 C20", (M, '''def process_vgm_file(cmds):
    st = state.State()

    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
        elif isinstance(cmd, vgm.core.WaitCommand):
            st.beat(cmd.samples)
        elif isinstance(cmd, vgm.core.EOSCommand):
            # Whatever follows (GD3 tag, padding) is not command data
            break

    return st
''', '''@functools.singledispatch
def _perform(cmd, st):
    return True


@_perform.register(config.YM2151Command)
def _(cmd, st):
    st.apply(cmd)
    return True


@_perform.register(vgm.core.WaitCommand)
def _(cmd, st):
    st.beat(cmd.samples)
    return True


@_perform.register(vgm.core.EOSCommand)
def _(cmd, st):
    return False


def process_vgm_file(cmds):
    st = state.State()
    for cmd in cmds:
        if not _perform(cmd, st):
            break
    return st
'''), (M, "import argparse\n", "import argparse\nimport functools\n"))
r("key-for-else", "C06 C07 C08 C09", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            for config_id, c in enumerate(self.configs):
                if c.compare(self._current_base_config, self._channel_configs[ch], op):
                    break
            else:
                config_id = len(self.configs)
'''))
r("key-index", "C06 C07 C08 C09", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            config_id = len(self.configs)
            for known in self.configs:
                if known.compare(self._current_base_config, self._channel_configs[ch], op):
                    config_id = known._id
                    break
'''))
r("key-flags", "C06 C07", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            same = [
                c.compare(self._current_base_config, self._channel_configs[ch], op)
                for c in self.configs
            ]
            config_id = same.index(True) if True in same else len(same)
'''))
r("renames", "C05 C06 C07 C08 C09 C11 C19", *[(S, a, a.replace("_note_beats", "_onsets")) for a in ("        self._note_beats: Set[int] = set()", "self._note_beats.add(", "list(self._note_beats)")],
  *[(S, "self._samples", "self._clock")] * 5, *[(S, "self._channel_key_presses", "self._events")] * 4, *[(S, "self._current_base_config", "self._base")] * 10, *[(S, "self._note_configs", "self._notes")] * 8)
r("csv-module", "C16", (X, '''        fo.write("{}\\n".format(",".join(header)))
''', '''        out = csv.writer(fo, lineterminator="\\n")
        out.writerow(header)
'''), *[(X, '''                fo.write(f'{",".join(row)}\\n')
''', '''                out.writerow(row)
''')] * 1, (X, "import json\n", "import csv\nimport json\n"))
r("csv-flush", "C16", (X, '''        while len(channel_notes):
            samples =''', '''        def fields(current_sample, total_row):
            return [
                str(current_sample),
                str(total_row % line_count),
                str(total_row // line_count),
                str(total_row),
                "{:.2}".format((current_sample / ticks_per_note) % 1),
            ]

        while len(channel_notes):
            samples ='''), (X, '''                row = [
                    str(current_sample),
                    str(total_row % line_count),
                    str(total_row // line_count),
                    str(total_row),
                    "{:.2}".format((current_sample / ticks_per_note) % 1),
                ] + note_row
''', '''                row = fields(current_sample, total_row) + note_row
'''), (X, '''                    row = [
                        str(current_sample),
                        str(total_row % line_count),
                        str(total_row // line_count),
                        str(total_row),
                        "{:.2}".format((current_sample / ticks_per_note) % 1),
                    ] + [""] * channel_count
''', '''                    row = fields(current_sample, total_row) + [""] * channel_count
'''))
r("smart-class", "C18 C20", (T, '''@contextlib.contextmanager
def smart_open(filename: str, mode: str):
    if filename and filename != "-":
        fh = open(filename, mode)
    elif mode.startswith("w"):
        fh = sys.stdout.buffer if "b" in mode else sys.stdout
    elif mode.startswith("r"):
        fh = sys.stdin.buffer if "b" in mode else sys.stdin
    else:
        raise Exception("Unknown mode")

    try:
        yield fh
    finally:
        if filename and filename != "-":
            fh.close()
''', '''class smart_open:
    def __init__(self, filename: str, mode: str):
        self.filename, self.mode = filename, mode
        self.fh = None

    def __enter__(self):
        if self.filename and self.filename != "-":
            self.fh = open(self.filename, self.mode)
            return self.fh
        if self.mode.startswith("w"):
            std = sys.stdout
        elif self.mode.startswith("r"):
            std = sys.stdin
        else:
            raise Exception("Unknown mode")
        return std.buffer if "b" in self.mode else std

    def __exit__(self, *exc):
        if self.fh is not None:
            self.fh.close()
        return False
'''))
r("smart-null", "C18 C20", (T, '''    try:
        yield fh
    finally:
        if filename and filename != "-":
            fh.close()
''', '''    owned = filename and filename != "-"
    with fh if owned else contextlib.nullcontext(fh) as stream:
        yield stream
'''))
r("smart-func", "C18 C20", (T, '''@contextlib.contextmanager
def smart_open(filename: str, mode: str):
    if filename and filename != "-":
        fh = open(filename, mode)
    elif mode.startswith("w"):
        fh = sys.stdout.buffer if "b" in mode else sys.stdout
    elif mode.startswith("r"):
        fh = sys.stdin.buffer if "b" in mode else sys.stdin
    else:
        raise Exception("Unknown mode")

    try:
        yield fh
    finally:
        if filename and filename != "-":
            fh.close()
''', '''def _standard_stream(mode: str):
    streams = {"w": sys.stdout, "r": sys.stdin}
    if mode[:1] not in streams:
        raise Exception("Unknown mode")
    stream = streams[mode[0]]
    return stream.buffer if "b" in mode else stream


def smart_open(filename: str, mode: str):
    if not filename or filename == "-":
        return contextlib.nullcontext(_standard_stream(mode))
    return contextlib.closing(open(filename, mode))
'''))
r("header-struct", "C01 C04 C19", (V, '''        self.eof_offset = _read32(self.file)
        self.version = _read_bcd(self.file)
        _read32(self.file)
        self.clocks["ym2413"] = _read32(self.file)
''', '''        self.eof_offset = _read32(self.file)
        self.version = _read_bcd(self.file)
        _, self.clocks["ym2413"] = (_read32(self.file), _read32(self.file))
'''))
r("clock-choice", "C04 C19", (V, '''        self.clocks["ym2151"] = _read32(self.file)
        if self.version < 110:
            self.clocks["ym2151"] = self.clocks["ym2413"]
''', '''        ym2151_clock = _read32(self.file)
        self.clocks.update(
            ym2151=self.clocks["ym2413"] if self.version < 110 else ym2151_clock
        )
'''))
r("supports-get", "C04", (V, 'return chip in self.clocks and self.clocks[chip] > 0', 'return self.clocks.get(chip, 0) > 0'))
r("instruments-distinct", "C12 C13 C19", (SG, "[Instrument()] * instruments", "[Instrument() for _ in range(instruments)]"))
r("serial-static", "C13 C19", (Z, '''    def _render_instrument(self, instrument: Instrument) -> dao.RenoiseInstrument:
''', '''    @staticmethod
    def _render_instrument(instrument: Instrument) -> dao.RenoiseInstrument:
'''), (Z, '''    def _render_sequence_entry(
        self, entry: PatternSequence.SequenceEntry
''', '''    @classmethod
    def _render_sequence_entry(
        cls, entry: PatternSequence.SequenceEntry
'''))
r("serial-config-none", "C13 C19", (Z, '''    def __init__(self, config=SerializerConfig()):
        self.config = config
''', '''    def __init__(self, config=None):
        self.config = config if config is not None else SerializerConfig()
'''))
r("serial-zip-colors", "C13 C19", (Z, '''        color_iter = iter(self.config.track_colors)
        seq_track = [self._render_track(track, color_iter) for track in tracks.tracks]
''', '''        colors = self.config.track_colors
        seq_track = [
            self._render_track(track, iter(colors[i : i + 1]))
            for i, track in enumerate(tracks.tracks)
        ]
'''))
r("instr-dump", "C15 C08", (X, '''    js = json.dumps(s.configs, cls=config.ConfigEncoder, indent="\\t")
    with smart_open(instr_filename, "w") as fo:
        fo.write(js)
''', '''    with smart_open(instr_filename, "w") as fo:
        json.dump(s.configs, fo, cls=config.ConfigEncoder, indent="\\t")
'''))
r("instr-default", "C15 C08", (X, '''cls=config.ConfigEncoder, indent="\\t")''', '''default=lambda o: o.repr_json(), indent="\\t")'''))
r("ops-loop", "C15", (C, '''        o = []
        if self & Operators.MOD1:
            o.append(Operators.MOD1.name)
        if self & Operators.CAR1:
            o.append(Operators.CAR1.name)
        if self & Operators.MOD2:
            o.append(Operators.MOD2.name)
        if self & Operators.CAR2:
            o.append(Operators.CAR2.name)
        return "|".join(o)
''', '''        return "|".join(op.name for op in Operators if op in self)
'''))
r("eq-vars", "C17 C07", (C, '''        if isinstance(other, BaseConfig):
            return (
                self.lfo == other.lfo
                and self.phs_md == other.phs_md
                and self.amp_md == other.amp_md
                and self.waveform == other.waveform
            )
        return NotImplemented
''', '''        if not isinstance(other, BaseConfig):
            return NotImplemented
        return vars(self) == vars(other)
'''))
r("eq-all", "C17 C07", (C, '''            return (
                self.fb == other.fb
                and self.connection == other.connection
                and self.ams == other.ams
                and self.pms == other.pms
                and self.operators == other.operators
                and self.noise == other.noise
                and self.noise_freq == other.noise_freq
            )
''', '''            names = ("fb", "connection", "ams", "pms", "noise", "noise_freq", "operators")
            return all(getattr(self, n) == getattr(other, n) for n in names)
'''))
r("copy-update", "C17 C07 C08", (C, '''    def __deepcopy__(self, _) -> object:
        return BaseConfig(self)
''', '''    def __deepcopy__(self, _) -> object:
        duplicate = BaseConfig()
        duplicate.__dict__.update(self.__dict__)
        return duplicate
'''))
r("getattr-dict", "C07 C15 C19", (C, '''        if item == "lfo":
            return self._base.lfo
        if item == "phs_md":
            return self._base.phs_md
        if item == "amp_md":
            return self._base.amp_md
        if item == "waveform":
            return self._base.waveform
        if item == "enabled_operators":
            return self._operators
''', '''        if item in ("lfo", "phs_md", "amp_md", "waveform"):
            return getattr(self._base, item)
        if item == "enabled_operators":
            return self._operators
'''))
r("tempo-zip", "C11", (S, '''        top = sorted(
            [
                (idx + off_start, (c / (len(ticks) * 2 - 1)))
                for idx, c in enumerate(corr)
            ],
            key=lambda i: i[1],
        )
''', '''        total = len(ticks) * 2 - 1
        top = sorted(
            zip(range(off_start, off_end), (c / total for c in corr)),
            key=lambda i: i[1],
        )
'''))
r("tempo-key", "C11", (S, "            key=lambda i: i[1],\n", "            key=operator.itemgetter(1),\n"), (S, "import copy\n", "import copy\nimport operator\n"))
r("wait-nibble", "C02 C01", (K, '''        self.samples = samples
        if cmd_id // 16 == 7:
            self.samples = cmd_id % 16 + 1
''', '''        self.samples = (cmd_id & 0x0F) + 1 if cmd_id >> 4 == 7 else samples
'''))
