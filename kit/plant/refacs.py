"""behaviour preserving edits; runs the checks of the named properties on a copy with each.  refacs.py [FILE] [name-substring...]"""
import os, shutil, subprocess, sys
R = []
def r(name, props, *edits):
    R.append((name, props.split(), edits))
S, C, X, N, V, M = "vgm/ym2151/state.py", "vgm/ym2151/config.py", "extractors.py", "vgm/ym2151/note.py", "vgm/core.py", "main.py"
Z, P = "xrns/xrns_serializer.py", "xrns/parts/pattern.py"

r("read-helper", "C01 C02 C03 C04", (V, 'def _read32(', '''def _exactly(file, n):
    data = file.read(n)
    if not data or len(data) != n:
        raise EOFError
    return data


def _read32('''), (V, '''    b = file.read(4)
    if b is None or len(b) != 4:
        raise EOFError
    return struct.unpack("I", b)[0]''', '''    return struct.unpack("<I", _exactly(file, 4))[0]'''),
  (V, '''    b = file.read(2)
    if b is None or len(b) != 2:
        raise EOFError
    return struct.unpack("H", b)[0]''', '''    return int.from_bytes(_exactly(file, 2), "little")'''),
  (V, '''    b = file.read(1)
    if b is None or len(b) != 1:
        raise EOFError
    return struct.unpack("B", b)[0]''', '''    return _exactly(file, 1)[0]'''))
r("bcd-loop", "C04", (V, '''    o = 0
    for i in range(4):
        item = b[3 - i]
        for val in (item >> 4, item & 0x0F):
            o *= 10
            o += val
    return o''', '''    result = 0
    for item in reversed(b):
        high, low = divmod(item, 16)
        result = result * 100 + high * 10 + low
    return result'''))
r("operand-table", "C01 C02 C03", (V, '''def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
''', '''_FIXED = {0x50: 1, 0x4F: 1, 0x92: 5, 0x93: 10, 0x94: 1, 0x95: 4, 0x90: 4, 0x91: 4}
for _i in range(0x30, 0x40):
    _FIXED[_i] = 1
for _i in list(range(0x40, 0x4F)) + list(range(0x51, 0x54)) + list(range(0x55, 0x60)) + list(range(0xA0, 0xC0)):
    _FIXED[_i] = 2
for _i in range(0xC0, 0xE0):
    _FIXED[_i] = 3
for _i in range(0xE0, 0x100):
    _FIXED[_i] = 4
_WAITS = {0x62: 735, 0x63: 882}


def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
    if cmd_id in _FIXED:
        return VgmCommand(cmd_id, f.read(_FIXED[cmd_id]))
    if cmd_id in _WAITS:
        return WaitCommand(cmd_id, _WAITS[cmd_id])
'''))
r("next-reordered", "C01 C03", (V, '''        cmd = self.file.read(1)
        if cmd is None or len(cmd) == 0:
            raise StopIteration
        return command(cmd[0], self.file)''', '''        opcode = self.file.read(1)
        if opcode:
            return command(opcode[0], self.file)
        raise StopIteration'''))
r("iter-generator", "C01 C02 C03 C10 C20", (V, '''    def __iter__(self):
        return self
''', '''    def __iter__(self):
        while True:
            try:
                item = next(self)
            except StopIteration:
                return
            yield item
'''))
r("header-helper", "C04", (V, '''        self.eof_offset = _read32(self.file)
        self.version = _read_bcd(self.file)
        _read32(self.file)
        self.clocks["ym2413"] = _read32(self.file)
        self.file.seek(0x30, io.SEEK_SET)
        self.clocks["ym2151"] = _read32(self.file)
        if self.version < 110:
            self.clocks["ym2151"] = self.clocks["ym2413"]

        if self.version >= 150:
            self.data_start = 0x34 + _read32(self.file)

        self.file.seek(self.data_start, io.SEEK_SET)
        return
''', '''        self._read_header()

    def _read_header(self):
        f = self.file
        self.eof_offset = _read32(f)
        self.version = _read_bcd(f)
        _read32(f)
        ym2413 = _read32(f)
        f.seek(0x30)
        ym2151 = _read32(f)
        self.clocks = {"ym2413": ym2413, "ym2151": ym2413 if self.version < 110 else ym2151}
        if self.version >= 150:
            offset = _read32(f)
            self.data_start = offset + 0x34
        f.seek(self.data_start)
'''))
r("wait-samples", "C02 C10", ("vgm/command.py", '''        super().__init__(cmd_id)
        self.samples = samples
        if cmd_id // 16 == 7:
            self.samples = cmd_id % 16 + 1''', '''        if 0x70 <= cmd_id <= 0x7F:
            samples = (cmd_id & 0x0F) + 1
        self.samples = samples
        super().__init__(cmd_id)'''))
r("dispatch-table", "C10", (M, '''    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
        elif isinstance(cmd, vgm.core.WaitCommand):
            st.beat(cmd.samples)
        elif isinstance(cmd, vgm.core.EOSCommand):
            # Whatever follows (GD3 tag, padding) is not command data
            break

    return st''', '''    for cmd in cmds:
        if not _perform(st, cmd):
            break
    return st


def _perform(st, cmd):
    """performs one command, returns False at the end marker"""
    if isinstance(cmd, vgm.core.EOSCommand):
        return False
    if isinstance(cmd, config.YM2151Command):
        st.apply(cmd)
    if isinstance(cmd, vgm.core.WaitCommand):
        st.beat(cmd.samples)
    return True'''))
r("command-type", "C10", (M, '''        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
        elif isinstance(cmd, vgm.core.WaitCommand):
            st.beat(cmd.samples)
        elif isinstance(cmd, vgm.core.EOSCommand):
''', '''        kind = cmd.command_type
        if kind == VgmCommandType.YM2151:
            st.apply(cmd)
        elif kind == VgmCommandType.WAIT:
            st.beat(cmd.samples)
        elif kind == VgmCommandType.EOS:
'''), (M, "from tools import smart_open\n", "from tools import smart_open\nfrom vgm.command import VgmCommandType\n"))
r("takewhile", "C10", (M, '''    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
        elif isinstance(cmd, vgm.core.WaitCommand):
            st.beat(cmd.samples)
        elif isinstance(cmd, vgm.core.EOSCommand):
            # Whatever follows (GD3 tag, padding) is not command data
            break
''', '''    for cmd in itertools.takewhile(lambda c: not isinstance(c, vgm.core.EOSCommand), cmds):
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
        elif isinstance(cmd, vgm.core.WaitCommand):
            st.beat(cmd.samples)
'''), (M, "import argparse\n", "import argparse\nimport itertools\n"))
r("while-next", "C10", (M, '''    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):''', '''    it = iter(cmds)
    while True:
        try:
            cmd = next(it)
        except StopIteration:
            break
        if isinstance(cmd, config.YM2151Command):'''))
r("key-helper", "C05 C06 C07 C08 C09", (S, '''        # Key On/Off
        if cmd.reg == 0x08:
            op = Operators((cmd.value >> 3) & 0xF)
            ch = cmd.value & 0x07
''', '''        # Key On/Off
        if cmd.reg == 0x08:
            self._key(cmd.value)
            return
'''), (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )

            if len(self.configs) == config_id:
                if op:
                    self.configs.append(
                        Config(
                            config_id,
                            copy.deepcopy(self._current_base_config),
                            copy.deepcopy(self._channel_configs[ch]),
                            op,
                        )
                    )
                    self._current_base_config = copy.deepcopy(self._current_base_config)
                else:
                    config_id = -1

            if op and self._first_beat is None:
                self._first_beat = self._samples

            if self._first_beat is not None:
                note = Note(config_id, self._note_configs[ch], self._samples)
                self._channel_key_presses[cmd.value & 0x7].append(note)
            if config_id >= 0:
                self._note_beats.add(self._samples)

        # Noise Enable, Noise Frequency
        elif cmd.reg == 0x0F:''', '''        # Noise Enable, Noise Frequency
        if cmd.reg == 0x0F:'''), (S, '''    def key_presses(self''', '''    def _config_for(self, ch, op):
        for i, c in enumerate(self.configs):
            if c.compare(self._current_base_config, self._channel_configs[ch], op):
                return i
        i = len(self.configs)
        base = copy.deepcopy(self._current_base_config)
        channel = copy.deepcopy(self._channel_configs[ch])
        self.configs.append(Config(i, base, channel, op))
        return i

    def _key(self, value):
        op = Operators((value >> 3) & 0xF)
        ch = value & 0x07
        config_id = -1
        if op:
            config_id = self._config_for(ch, op)
            if self._first_beat is None:
                self._first_beat = self._samples
            self._note_beats.add(self._samples)
        if self._first_beat is not None:
            self._channel_key_presses[ch].append(Note(config_id, self._note_configs[ch], self._samples))

    def key_presses(self'''))
r("config-dict", "C06 C07 C08", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            config_id = len(self.configs)
            for i, c in enumerate(self.configs):
                if c.compare(self._current_base_config, self._channel_configs[ch], op):
                    config_id = i
                    break
'''))
r("config-while", "C06 C07 C08", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            config_id = 0
            while config_id < len(self.configs) and not self.configs[config_id].compare(
                self._current_base_config, self._channel_configs[ch], op
            ):
                config_id += 1
'''))
r("operator-local", "C05 C06 C07", (S, '''        operator = (cmd.reg >> 3) & 0x03
''', '''        operator = (cmd.reg >> 3) & 0x03
        ch_cfg = self._channel_configs[channel]
        op_cfg = ch_cfg.operators[operator]
'''), (S, '''            self._channel_configs[channel].operators[operator].total_level = (
                cmd.value & 0x7F
            )''', '''            op_cfg.total_level = cmd.value % 128'''), (S, '''            self._channel_configs[channel].operators[operator].ase = (
                cmd.value & 0x80
            ) > 0
''', '''            op_cfg.ase = bool(cmd.value & 0x80)
'''))
r("range-dispatch", "C05 C07", (S, "elif cmd.reg & 0xF8 == 0x28:", "elif 0x28 <= cmd.reg <= 0x2F:"), (S, "elif cmd.reg & 0xE0 == 0xE0:", "elif cmd.reg >= 0xE0:"), (S, "elif cmd.reg & 0xE0 == 0x40:", "elif 0x40 <= cmd.reg < 0x60:"), (S, "elif cmd.reg & 0xE0 == 0x60:", "elif cmd.reg >> 5 == 3:"))
r("init-comprehension", "C05 C06 C07 C08 C19", (S, '''        for i in range(8):
            self._channel_key_presses.append([])
            self._channel_configs.append(ChannelConfig())
            self._note_configs.append(NoteConfig())
''', '''        self._channel_key_presses = [[] for _ in range(8)]
        self._channel_configs = [ChannelConfig() for _ in range(8)]
        self._note_configs = [NoteConfig() for _ in range(8)]
'''))
r("ticks-direct", "C09 C11", (S, "return sorted(list(self._note_beats))", "return sorted(self._note_beats)"))
r("eq-dict", "C17 C07", (C, '''        if isinstance(other, OperatorConfig):
            return (
                self.first_detune == other.first_detune
                and self.second_detune == other.second_detune
                and self.multiply == other.multiply
                and self.total_level == other.total_level
                and self.key_scale == other.key_scale
                and self.attack_rate == other.attack_rate
                and self.ase == other.ase
                and self.first_decay_rate == other.first_decay_rate
                and self.second_decay_rate == other.second_decay_rate
                and self.first_decay_level == other.first_decay_level
                and self.release_rate == other.release_rate
            )
        return NotImplemented''', '''        if not isinstance(other, OperatorConfig):
            return NotImplemented
        return self.__dict__ == other.__dict__'''))
r("eq-tuple", "C17 C07", (C, '''        if isinstance(other, NoteConfig):
            return (
                self.right == other.right
                and self.left == other.left
                and self.octave == other.octave
                and self.note == other.note
                and self.key_fraction == other.key_fraction
            )
        return NotImplemented''', '''        if not isinstance(other, NoteConfig):
            return NotImplemented
        return self._key() == other._key()

    def _key(self):
        return (self.right, self.left, self.octave, self.note, self.key_fraction)'''), (C, '''        if isinstance(other, ChannelConfig):
            return (
                self.fb == other.fb
                and self.connection == other.connection
                and self.ams == other.ams
                and self.pms == other.pms
                and self.operators == other.operators
                and self.noise == other.noise
                and self.noise_freq == other.noise_freq
            )
        return NotImplemented''', '''        if isinstance(other, ChannelConfig):
            names = ("fb", "connection", "ams", "pms", "operators", "noise", "noise_freq")
            return all(getattr(self, n) == getattr(other, n) for n in names)
        return NotImplemented'''))
r("copy-loop", "C17 C07 C08", (C, '''        self.operators: List[OperatorConfig] = (
            [] if not other else copy.deepcopy(other.operators)
        )
''', '''        if other:
            self.operators: List[OperatorConfig] = [OperatorConfig(o) for o in other.operators]
        else:
            self.operators = [OperatorConfig() for _ in range(4)]
'''), (C, '''        if not other:
            for dev in range(4):
                self.operators.append(OperatorConfig())

''', ''))
r("operators-json", "C15", (C, '''        o = []
        if self & Operators.MOD1:
            o.append(Operators.MOD1.name)
        if self & Operators.CAR1:
            o.append(Operators.CAR1.name)
        if self & Operators.MOD2:
            o.append(Operators.MOD2.name)
        if self & Operators.CAR2:
            o.append(Operators.CAR2.name)
        return "|".join(o)''', '''        names = (Operators.MOD1, Operators.CAR1, Operators.MOD2, Operators.CAR2)
        return "|".join(op.name for op in names if op in self)'''))
r("instr-write", "C15 C08", (X, '''    js = json.dumps(s.configs, cls=config.ConfigEncoder, indent="\\t")
    with smart_open(instr_filename, "w") as fo:
        fo.write(js)
        fo.write("\\n")''', '''    with smart_open(instr_filename, "w") as fo:
        json.dump(s.configs, fo, cls=config.ConfigEncoder, indent="\\t")
        fo.write("\\n")'''))
r("note-helpers", "C14 C16", (N, '''        note = _NOTE_LOOKUP[self.note]
        kf = ""
        if self.key_fraction > 1:
            kf = "-{:02.0f}".format(self.key_fraction * 1.6)
        pan = ""
        if not self.right or not self.left:
            pan = "Pan {}".format("R" if self.right else "L")
        return f"{note}-{self.octave}{kf} [{self.config_id}] {pan}"''', '''        name = _NOTE_LOOKUP[self.note]
        return f"{name}-{self.octave}{self._detune()} [{self.config_id}] {self._pan()}"

    def _detune(self):
        if self.key_fraction <= 1:
            return ""
        return f"-{self.key_fraction * 1.6:02.0f}"

    def _pan(self):
        if self.right and self.left:
            return ""
        return "Pan R" if self.right else "Pan L"'''))
r("song-helper", "C12 C08", (X, '''            total_row = n.sample // ticks_per_note
            row = total_row % line_count
            pattern = total_row // line_count
            instr = None
            if n.config_id >= 0:
                instr = f"{n.config_id:0>2X}"

            pan = None
            if not n.right or not n.left:
                if n.right:
                    pan = "00"
                else:
                    pan = "F0"

            song.pattern_pool.add_note(pattern, ch, row, n.xrns_note(), instr, pan)
''', '''            pattern, row = divmod(n.sample // ticks_per_note, line_count)
            instr = "{:02X}".format(n.config_id) if n.config_id >= 0 else None
            song.pattern_pool.add_note(pattern, ch, row, n.xrns_note(), instr, _pan(n))
'''), (X, "def extract_tracks_to_xrns", '''def _pan(n):
    if n.right and n.left:
        return None
    return "00" if n.right else "F0"


def extract_tracks_to_xrns'''))
r("song-sequence", "C12", (X, '''    for p in range(len(song.pattern_pool.patterns)):
        song.pattern_sequence.add_pattern(p)
''', '''    for p, _ in enumerate(song.pattern_pool.patterns):
        song.pattern_sequence.add_pattern(p)
'''), (X, '''    channel_count = 8
    sample_freq = 44100
    notes_per_beat = 4
    line_count = 64

    # Int''', '''    channel_count, line_count = 8, 64
    sample_freq = 44100
    notes_per_beat = 4

    # Int'''))
r("song-keywords", "C12", (X, "song.pattern_pool.add_note(pattern, ch, row, n.xrns_note(), instr, pan)", "song.pattern_pool.add_note(\n                pattern=pattern, channel=ch, line=row, note=n.xrns_note(), instrument=instr, pan=pan\n            )"))
r("pool-for", "C12", (P, '''        while pattern >= len(self.patterns):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
        self.patterns[pattern].tracks[channel].lines[line] = Pattern.Line(
            note, instrument, pan
        )''', '''        for _ in range(len(self.patterns), pattern + 1):
            self.patterns.append(self._empty())
        track = self.patterns[pattern].tracks[channel]
        track.lines[line] = Pattern.Line(note, instrument, pan)

    def _empty(self):
        return Pattern(self.tracks, self.lines_per_track)'''))
r("pool-extend", "C12", (P, '''        while pattern >= len(self.patterns):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
''', '''        missing = pattern + 1 - len(self.patterns)
        if missing > 0:
            self.patterns.extend(Pattern(self.tracks, self.lines_per_track) for _ in range(missing))
'''))
r("serial-helpers", "C13", (Z, '''                    dao.PatternLineNode(
                        index=idx,
                        note_columns=dao.PatternLineNode.NoteColumns(
                            note_column=[
                                dao.PatternLineNoteColumnNode(
                                    note=line.note,
                                    instrument=line.instrument,
                                    panning=line.pan,
                                )
                            ]
                        ),
                    )
                    for idx, line in track.lines.items()
                ]
            )
        )
''', '''                    self._render_line(idx, track.lines[idx])
                    for idx in track.lines
                ]
            )
        )

    def _render_line(self, idx, line):
        column = dao.PatternLineNoteColumnNode(
            note=line.note, instrument=line.instrument, panning=line.pan
        )
        return dao.PatternLineNode(
            index=idx,
            note_columns=dao.PatternLineNode.NoteColumns(note_column=[column]),
        )
'''))
r("serial-loop", "C13", (Z, '''        return dao.PatternPool(
            patterns=dao.PatternPool.Patterns(
                [self._render_pattern(pattern) for pattern in pattern_pool.patterns]
            )
        )
''', '''        patterns = []
        for pattern in pattern_pool.patterns:
            patterns.append(self._render_pattern(pattern))
        return dao.PatternPool(patterns=dao.PatternPool.Patterns(patterns))
'''))
r("serial-map", "C13", (Z, '''            [self._render_instrument(instrument) for instrument in instruments]
''', '''            list(map(self._render_instrument, instruments))
'''), (Z, '''        color_iter = iter(self.config.track_colors)
        seq_track = [self._render_track(track, color_iter) for track in tracks.tracks]
''', '''        colors = iter(self.config.track_colors)
        seq_track = []
        for track in tracks.tracks:
            seq_track.append(self._render_track(track, colors))
'''))
r("writer-direct", "C13", ("xrns/writer.py", '''    with zipfile.ZipFile(xrnsfile, mode="w") as zf:
        zf.writestr("Song.xml", rendered)''', '''    zf = zipfile.ZipFile(xrnsfile, "w")
    try:
        zf.writestr("Song.xml", rendered)
    finally:
        zf.close()'''))
r("smart-open-flat", "C18 C16 C15", ("tools.py", '''    if filename and filename != "-":
        fh = open(filename, mode)
    elif mode.startswith("w"):
        fh = sys.stdout.buffer if "b" in mode else sys.stdout
    elif mode.startswith("r"):
        fh = sys.stdin.buffer if "b" in mode else sys.stdin
    else:
        raise Exception("Unknown mode")

    try:
        yield fh
    finally:
        if filename and filename != "-":
            fh.close()''', '''    if filename and filename != "-":
        with open(filename, mode) as fh:
            yield fh
        return
    yield _standard_stream(mode)


def _standard_stream(mode):
    if mode[:1] == "w":
        stream = sys.stdout
    elif mode[:1] == "r":
        stream = sys.stdin
    else:
        raise Exception("Unknown mode")
    if "b" in mode:
        return stream.buffer
    return stream'''))
r("main-split", "C20", (M, '''        if instr_filename:
            extract_instruments(instr_filename, s)

        if track_filename:
            extract_tracks_to_xrns(s, track_filename, ticks_per_note)
''', '''        _export(s, instr_filename, track_filename, ticks_per_note)


def _export(s, instr_filename, track_filename, ticks_per_note):
    if instr_filename:
        extract_instruments(instr_filename, s)
    if track_filename:
        extract_tracks_to_xrns(s, track_filename, ticks_per_note)
'''))
r("main-args", "C20", (M, "    main(args.file, args.instrument, args.track, args.ticks_per_note)", "    main(\n        vgm_filename=args.file,\n        instr_filename=args.instrument,\n        track_filename=args.track,\n        ticks_per_note=args.ticks_per_note,\n    )"), (M, "        if not ticks_per_note:\n", "        if ticks_per_note is None or ticks_per_note == 0:\n"))
r("tempo-min", "C11", (S, '''        top = sorted(
            [
                (idx + off_start, (c / (len(ticks) * 2 - 1)))
                for idx, c in enumerate(corr)
            ],
            key=lambda i: i[1],
        )''', '''        total = len(ticks) * 2 - 1
        estimates = [(idx + off_start, c / total) for idx, c in enumerate(corr)]
        top = sorted(estimates, key=lambda e: e[1])'''))
r("tempo-names", "C11", (S, '''                t = ticks[t_idx]  # next(it_t)
                s = ticks[s_idx] + shift  # next(it_s) + shift
                while True:
                    while t < s:
                        sym_diff += 1
                        t_idx += 1
                        t = ticks[t_idx]
                    while s < t:
                        sym_diff += 1
                        s_idx += 1
                        s = ticks[s_idx] + shift
                    if t == s:
                        t_idx += 1
                        s_idx += 1
                        t = ticks[t_idx]  # next(it_t)
                        s = ticks[s_idx] + shift  # next(it_s) + shift
''', '''                a = ticks[t_idx]
                b = ticks[s_idx] + shift
                while True:
                    if a < b:
                        sym_diff += 1
                        t_idx += 1
                        a = ticks[t_idx]
                    elif b < a:
                        sym_diff += 1
                        s_idx += 1
                        b = ticks[s_idx] + shift
                    else:
                        t_idx += 1
                        s_idx += 1
                        a = ticks[t_idx]
                        b = ticks[s_idx] + shift
'''))
r("tempo-helper", "C11", (S, '''        for shift in range(off_start, off_end):
            t_idx = 0
            s_idx = 0

            sym_diff = 0
            try:
                t = ticks[t_idx]  # next(it_t)
                s = ticks[s_idx] + shift  # next(it_s) + shift
                while True:
                    while t < s:
                        sym_diff += 1
                        t_idx += 1
                        t = ticks[t_idx]
                    while s < t:
                        sym_diff += 1
                        s_idx += 1
                        s = ticks[s_idx] + shift
                    if t == s:
                        t_idx += 1
                        s_idx += 1
                        t = ticks[t_idx]  # next(it_t)
                        s = ticks[s_idx] + shift  # next(it_s) + shift

            except IndexError:
                pass

            corr.append(sym_diff)
''', '''        for shift in range(off_start, off_end):
            corr.append(self._mismatches(ticks, shift))
'''), (S, "    def ticks_per_note(", '''    @staticmethod
    def _mismatches(ticks, shift):
        t_idx = 0
        s_idx = 0
        sym_diff = 0
        try:
            t = ticks[t_idx]
            s = ticks[s_idx] + shift
            while True:
                while t < s:
                    sym_diff += 1
                    t_idx += 1
                    t = ticks[t_idx]
                while s < t:
                    sym_diff += 1
                    s_idx += 1
                    s = ticks[s_idx] + shift
                if t == s:
                    t_idx += 1
                    s_idx += 1
                    t = ticks[t_idx]
                    s = ticks[s_idx] + shift
        except IndexError:
            pass
        return sym_diff

    def ticks_per_note('''))
r("tempo-bounds", "C11", (S, '''            try:
                t = ticks[t_idx]  # next(it_t)
                s = ticks[s_idx] + shift  # next(it_s) + shift
                while True:
                    while t < s:
                        sym_diff += 1
                        t_idx += 1
                        t = ticks[t_idx]
                    while s < t:
                        sym_diff += 1
                        s_idx += 1
                        s = ticks[s_idx] + shift
                    if t == s:
                        t_idx += 1
                        s_idx += 1
                        t = ticks[t_idx]  # next(it_t)
                        s = ticks[s_idx] + shift  # next(it_s) + shift

            except IndexError:
                pass
''', '''            while t_idx < len(ticks) and s_idx < len(ticks):
                t = ticks[t_idx]
                s = ticks[s_idx] + shift
                if t == s:
                    t_idx += 1
                    s_idx += 1
                    continue
                sym_diff += 1
                if t < s:
                    t_idx += 1
                else:
                    s_idx += 1
'''))
CSV = '''                row = [
                    str(current_sample),
                    str(total_row % line_count),
                    str(total_row // line_count),
                    str(total_row),
                    "{:.2}".format((current_sample / ticks_per_note) % 1),
                ] + note_row
                fo.write(f'{",".join(row)}\\n')
'''
r("csv-enumerate", "C16", (X, '''    for idx, it in enumerate(channel_iters):
        try:
            note = next(it)
            channel_notes[idx] = note
        except StopIteration:
            pass
''', '''    for idx in range(8):
        note = next(channel_iters[idx], None)
        if note is not None:
            channel_notes[idx] = note
'''))
r("csv-print", "C16", (X, "        header = [\"Samples\", \"Row\", \"Pattern\", \"Total Row\", \"Fraction\"]\n        for i in range(8):\n            header.append(f\"Channel {i+1}\")\n", "        header = [\"Samples\", \"Row\", \"Pattern\", \"Total Row\", \"Fraction\"]\n        header += [\"Channel %d\" % (i + 1) for i in range(8)]\n"),
  (X, "            samples = [n.sample for n in channel_notes.values()]\n            current_sample = min(samples)\n", "            current_sample = min(n.sample for n in channel_notes.values())\n"))


if len(sys.argv) > 1 and os.path.exists(sys.argv[1]):        # another file with edits, instead of these
    R.clear()
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
    del sys.argv[1]


def main():
    sel = sys.argv[1:]
    for name, props, edits in R:
        if sel and not any(s in name for s in sel):
            continue
        d = f"/tmp/refac{os.getpid()}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo/src", d + "/src")
        for f, a, b in edits:
            p = f"{d}/src/{f}"
            if a is None:                     # a new file
                open(p, "w").write(b)
                continue
            s = open(p).read()
            if a not in s:
                print("!!", name, "edit does not apply to", f, a[:60])
                break
            open(p, "w").write(s.replace(a, b, 1))
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "/repo/tests", "-q", "-p", "no:cacheprovider", "--rootdir=/repo"], env=env, cwd="/tmp", capture_output=True, text=True)
        print(f"{name}: tests: {t.stdout.strip().splitlines()[-1][:60] if t.stdout.strip() else '?'}", flush=True)
        for p in props:
            q = subprocess.run(["python3", "check.py", p], cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VP_REPO_SRC=d + "/src"), capture_output=True, text=True)
            o = q.stdout.splitlines()
            v = [l for l in o if l.startswith("VIOLATION")]
            res = "proved" if any("; proved;" in l for l in o) else "bounded"
            why = [l for l in o if "undecided" in l or "refuted" in l]
            print(f"   {p} rc={q.returncode} {res} {'ALARM ' + v[0][-60:] if v else ''} {o[-1].split(';')[-1] if o else ''} {why[0][:230] if res != 'proved' and why else ''}", flush=True)
    shutil.rmtree(f"/tmp/refac{os.getpid()}", ignore_errors=True)


main()
