T, WR, K = "tools.py", "xrns/writer.py", "vgm/command.py"
SRC = "/repo/src/"
def whole(f, a, b):
    """text of file f from marker a up to marker b"""
    s = open(SRC + f).read()
    i = s.index(a)
    return s[i:s.index(b, i) if b else len(s)]

r("op-defaults", "C05 C07 C08 C15 C17", (C, whole(C, '        self.total_level: int = 0', '    def __eq__(self, other: Any) -> bool:\n        if isinstance(other, OperatorConfig)'), '''        for name, default in self._DEFAULTS.items():
            setattr(self, name, getattr(other, name) if other else default)

'''), (C, 'class OperatorConfig:\n', '''class OperatorConfig:
    _DEFAULTS = {
        "total_level": 0, "attack_rate": 0, "first_decay_rate": 0, "first_decay_level": 0, "second_decay_rate": 0, "release_rate": 0,
        "key_scale": 0, "multiply": 0, "first_detune": 0, "second_detune": 0, "ase": False,
    }

'''))
r("eq-guard-vars", "C07 C17", (C, whole(C, '        if isinstance(other, OperatorConfig):', '    # noinspection PyArgumentList\n    def __deepcopy__(self, _) -> object:\n        return OperatorConfig'), '''        if not isinstance(other, OperatorConfig):
            return NotImplemented
        return vars(self) == vars(other)

'''), (C, whole(C, '        if isinstance(other, NoteConfig):', '    # noinspection PyArgumentList\n    def __deepcopy__(self, _) -> object:\n        return NoteConfig'), '''        if not isinstance(other, NoteConfig):
            return NotImplemented
        return all(getattr(self, k) == getattr(other, k) for k in ("right", "left", "octave", "note", "key_fraction"))

'''))
r("base-json-explicit", "C15 C07", (C, '    def repr_json(self):\n        return self.__dict__', '    def repr_json(self):\n        return {"waveform": self.waveform, "lfo": self.lfo, "amp_md": self.amp_md, "phs_md": self.phs_md}'))
r("flag-iter", "C15", (C, whole(C, '        o = []\n', 'class BaseConfig'), '''        return "|".join(op.name for op in Operators if op & self)


'''))
r("flag-tuple", "C15", (C, whole(C, '        o = []\n', 'class BaseConfig'), '''        names = []
        for op in (Operators.MOD1, Operators.CAR1, Operators.MOD2, Operators.CAR2):
            if op in self:
                names.append(op.name)
        return "|".join(names)


'''))
r("channel-split", "C05 C07 C08 C15 C17", (C, whole(C, '        self.operators: List[OperatorConfig] = (', '    def __eq__(self, other: Any) -> bool:\n        if isinstance(other, ChannelConfig)'), '''        if other:
            self.operators: List[OperatorConfig] = [OperatorConfig(op) for op in other.operators]
            self.fb, self.ams, self.pms = other.fb, other.ams, other.pms
            self.connection = other.connection
            self.noise, self.noise_freq = other.noise, other.noise_freq
            return
        self.operators = [OperatorConfig() for _ in range(4)]
        self.fb = self.ams = self.pms = self.connection = 0
        self.noise, self.noise_freq = False, 0

'''))
r("config-properties", "C07 C08 C15", (C, whole(C, '    def __getattr__(self, item):', '    def compare('), '''    def __getattr__(self, item):
        if item in ("lfo", "phs_md", "amp_md", "waveform"):
            return getattr(self._base, item)
        if item == "enabled_operators":
            return self._operators
        return getattr(self._channel, item)

'''), (C, whole(C, '        return (\n            self._base == base', '    def repr_json(self) -> Dict:'), '''        if self._operators != operators:
            return False
        return self._base == base and self._channel == channel

'''))
r("apply-aliases", "C05 C06 C07 C08 C09", (S, whole(S, '        elif cmd.reg & 0xE0 == 0x40:', '    def key_presses'), '''        elif cmd.reg >= 0x40:
            op_config = self._channel_configs[channel].operators[operator]
            value = cmd.value
            block = cmd.reg & 0xE0
            if block == 0x40:
                op_config.first_detune = (value >> 4) & 0x07
                op_config.multiply = value & 0x0F
            elif block == 0x60:
                op_config.total_level = value & 0x7F
            elif block == 0x80:
                op_config.key_scale = value >> 6 & 0x3
                op_config.attack_rate = value & 0x1F
            elif block == 0xA0:
                op_config.ase = bool(value & 0x80)
                op_config.first_decay_rate = value & 0x1F
            elif block == 0xC0:
                op_config.second_detune = value >> 6 & 0x03
                op_config.second_decay_rate = value & 0x1F
            else:
                op_config.first_decay_level = value >> 4 & 0x0F
                op_config.release_rate = value & 0x0F

'''))
r("apply-match", "C05 C06 C07 C09", (S, whole(S, '        # Noise Enable, Noise Frequency', '        elif cmd.reg & 0xF8 == 0x20:'), '''        elif cmd.reg in (0x0F, 0x18, 0x19, 0x1B):
            self._apply_global(cmd.reg, cmd.value)

'''), (S, '    def key_presses', '''    def _apply_global(self, reg, value):
        base = self._current_base_config
        match reg:
            case 0x0F:
                noisy = self._channel_configs[7]
                noisy.noise, noisy.noise_freq = (value & 0x80) > 0, value & 0x1F
            case 0x18:
                base.lfo = value
            case 0x19 if value >= 0x80:
                base.phs_md = value & 0x7F
            case 0x19:
                base.amp_md = value
            case _:
                base.waveform = Waveform(value & 3)

    def key_presses'''))
KEY = whole(S, '            op = Operators((cmd.value >> 3) & 0xF)', '        # Noise Enable, Noise Frequency')
r("key-early", "C06 C07 C08 C09", (S, KEY, '''            self._key_event(cmd.value & 0x07, Operators((cmd.value >> 3) & 0xF))

'''), (S, '    def key_presses', '''    def _key_event(self, ch, op):
        now = self._samples
        if not op:
            # releases never own an instrument
            config_id = -1
            for idx, known in enumerate(self.configs):
                if known.compare(self._current_base_config, self._channel_configs[ch], op):
                    config_id = idx
                    break
        else:
            config_id = self._instrument_for(ch, op)
            if self._first_beat is None:
                self._first_beat = now
        if self._first_beat is not None:
            self._channel_key_presses[ch].append(Note(config_id, self._note_configs[ch], now))
        if config_id >= 0:
            self._note_beats.add(now)

    def _instrument_for(self, ch, op):
        base, channel = self._current_base_config, self._channel_configs[ch]
        for idx, known in enumerate(self.configs):
            if known.compare(base, channel, op):
                return idx
        self.configs.append(Config(len(self.configs), copy.deepcopy(base), copy.deepcopy(channel), op))
        return len(self.configs) - 1

    def key_presses'''))
r("key-off-first", "C06 C07 C08 C09", (S, KEY, '''            op = Operators((cmd.value >> 3) & 0xF)
            ch = cmd.value & 0x07
            if not op:
                if self._first_beat is not None:
                    self._channel_key_presses[ch].append(
                        Note(-1, self._note_configs[ch], self._samples)
                    )
                return
            if self._first_beat is None:
                self._first_beat = self._samples
            matching = [
                i
                for i, c in enumerate(self.configs)
                if c.compare(self._current_base_config, self._channel_configs[ch], op)
            ]
            if matching:
                config_id = matching[0]
            else:
                config_id = len(self.configs)
                self.configs.append(
                    Config(
                        config_id,
                        copy.deepcopy(self._current_base_config),
                        copy.deepcopy(self._channel_configs[ch]),
                        op,
                    )
                )
            self._channel_key_presses[ch].append(
                Note(config_id, self._note_configs[ch], self._samples)
            )
            self._note_beats.add(self._samples)

'''))
r("key-try", "C06 C07 C08 C09", (S, whole(S, '            config_id: int = next(', '            if len(self.configs) == config_id:'), '''            config_id = len(self.configs)
            for i, c in enumerate(self.configs):
                if c.compare(self._current_base_config, self._channel_configs[ch], op):
                    config_id = i
                    break

'''))
r("state-init", "C05 C06 C08 C09 C19", (S, whole(S, '        for i in range(8):\n            self._channel_key', '    def __getattr__'), '''        self._channel_key_presses.extend([] for _ in range(8))
        self._channel_configs.extend(ChannelConfig() for _ in range(8))
        self._note_configs.extend(NoteConfig() for _ in range(8))

'''))
r("command-match", "C01 C02 C03", (V, whole(V, '    elif cmd_id == 0x54:\n', '    elif cmd_id == 0x67:'), '''    elif cmd_id < 0x60 and cmd_id != 0x54:
        return VgmCommand(cmd_id, f.read(2))
    elif cmd_id == 0x54:
        return YM2151Command(cmd_id, _read8(f), _read8(f))
    elif cmd_id in (0x61, 0x62, 0x63):
        fixed = {0x62: 735, 0x63: 882}
        return WaitCommand(cmd_id, fixed[cmd_id] if cmd_id in fixed else _read16(f))
    elif cmd_id == 0x66:
        return EOSCommand(cmd_id)
'''))
r("command-sizes", "C01 C02 C03", (V, whole(V, '    elif cmd_id < 0x92:\n', 'def reader('), '''    else:
        return VgmCommand(cmd_id, f.read(_operand_size(cmd_id)))


def _operand_size(cmd_id):
    for limit, size in ((0x92, 4), (0x93, 5), (0x94, 10), (0x95, 1), (0x96, 4), (0xC0, 2), (0xE0, 3)):
        if cmd_id < limit:
            return size
    return 4


'''))
r("block-helper", "C01 C03", (V, whole(V, '        buffer = f.read(6)', '    elif cmd_id == 0x68:'), '''        header = f.read(6)
        _, block_type, size = struct.unpack("<BBI", header)
        logging.debug("block type %x", block_type)
        size &= 0x7FFFFFFF
        payload = f.read(size)
        return VgmCommand(cmd_id, payload)
'''))
r("next-not", "C01 C02 C03 C10", (V, whole(V, '        cmd = self.file.read(1)', 'def command('), '''        opcode = self.file.read(1)
        if not opcode:
            raise StopIteration
        (cmd_id,) = opcode
        return command(cmd_id, self.file)


'''))
r("init-local", "C04 C19", (V, whole(V, '        self.clocks["ym2413"]', '        self.file.seek(self.data_start'), '''        ym2413_clock = _read32(self.file)
        self.file.seek(0x30)
        ym2151_clock = _read32(self.file)
        self.clocks = {
            "ym2413": ym2413_clock,
            # older headers only have the one field
            "ym2151": ym2151_clock if self.version >= 110 else ym2413_clock,
        }
        if self.version < 150:
            self.data_start = 0x40
        else:
            self.data_start = 0x34 + _read32(self.file)

'''))
r("reader-guard", "C04", (V, whole(V, '    header = vgmfile.read(4)', None), '''    magic = vgmfile.read(4)
    source = vgmfile
    if magic.startswith(b"\\x1f\\x8b"):
        vgmfile.seek(0)
        source = gzip.GzipFile(fileobj=vgmfile, mode="rb")
        magic = source.read(4)
    return Vgm(source) if magic == b"Vgm " else None
'''))
r("wait-init", "C02", (K, whole(K, '        self.samples = samples\n', '    def __str__(self) -> str:\n        return f"VgmCommand(Wait'), '''        if 0x70 <= cmd_id <= 0x7F:
            samples = (cmd_id & 0x0F) + 1
        self.samples = samples

'''))
r("note-parts", "C14", (N, whole(N, '        note = _NOTE_LOOKUP[self.note]\n', '    def xrns_note'), '''        parts = [_NOTE_LOOKUP[self.note], "-", str(self.octave)]
        if self.key_fraction > 1:
            parts.append("-%02.0f" % (self.key_fraction * 1.6))
        parts.append(f" [{self.config_id}] ")
        if not (self.right and self.left):
            parts.append("Pan R" if self.right else "Pan L")
        return "".join(parts)

'''), (N, whole(N, '        octave = self.octave\n', None), '''        return note + str(self.octave + (1 if self.note == 14 else 0))
'''))
r("note-lists", "C14", (N, whole(N, '_NOTE_LOOKUP_XRNS: typing.Dict = {', 'class Note:'), '''_NOTE_LOOKUP_XRNS = ("C#", "D-", "D#", "D#", "E-", "F-", "F#", "F#", "G-", "G#", "A-", "A#", "A#", "B-", "C-", "C#")


'''))
r("note-vars", "C06 C08 C14 C17", (N, whole(N, '        self.right: bool = note', '        self.sample: int'), '''        for name in ("right", "left", "octave", "note", "key_fraction"):
            setattr(self, name, getattr(note_config, name))
'''))
SONG = whole(X, '    for ch in range(channel_count):\n        for n in s.key_presses(ch):', 'def extract_tracks(')
r("song-divmod", "C12 C08", (X, SONG, '''    last = 0
    for ch in range(channel_count):
        for n in s.key_presses(ch):
            pattern, line = divmod(n.sample // ticks_per_note, line_count)
            song.pattern_pool.add_note(
                pattern, ch, line, n.xrns_note(), _instrument_text(n), _panning_text(n)
            )
            last = max(last, pattern)

    for number, _ in enumerate(song.pattern_pool.patterns):
        song.pattern_sequence.add_pattern(number)

    with open(track_filename, "wb") as f:
        writer(f, song)


def _instrument_text(n):
    return None if n.config_id < 0 else "%02X" % n.config_id


def _panning_text(n):
    if n.right and n.left:
        return None
    return "00" if n.right else "F0"


'''))
r("song-comp", "C12", (X, SONG, '''    events = [(ch, n) for ch in range(channel_count) for n in s.key_presses(ch)]
    for ch, n in events:
        total_row = n.sample // ticks_per_note
        pan = {(True, True): None, (True, False): "00", (False, True): "F0", (False, False): "F0"}[n.right, n.left]
        instr = format(n.config_id, "02X") if n.config_id >= 0 else None
        song.pattern_pool.add_note(
            total_row // line_count, ch, total_row % line_count, n.xrns_note(), instr, pan
        )

    for p in range(len(song.pattern_pool.patterns)):
        song.pattern_sequence.add_pattern(p)

    with open(track_filename, "wb") as f:
        writer(f, song)


'''))
r("song-hex", "C12", (X, '                instr = f"{n.config_id:0>2X}"', '                instr = hex(n.config_id)[2:].upper().rjust(2, "0")'))
r("csv-row-helper", "C16", (X, whole(X, '                row = [\n                    str(current_sample),', '                while total_row + 1'), '''                fo.write(_csv_line(current_sample, total_row, line_count, ticks_per_note, note_row))

'''), (X, 'def extract_tracks(', '''def _csv_line(sample, row, line_count, ticks_per_note, cells):
    pattern, line = divmod(row, line_count)
    fraction = (sample / ticks_per_note) % 1
    return ",".join([str(sample), str(line), str(pattern), str(row), f"{fraction:.2}"] + cells) + "\\n"


def extract_tracks('''))
r("csv-dict", "C16", (X, '            for ch in range(channel_count):\n                if (\n                    ch in channel_notes\n                    and channel_notes[ch].sample // ticks_per_note == current_row\n                ):\n                    note_row', '            for ch in sorted(channel_notes):\n                if channel_notes[ch].sample // ticks_per_note == current_row:\n                    note_row'))
r("csv-list-index", "C16", (X, '    channel_iters = [iter(s.key_presses(ch)) for ch in range(8)]\n', '    channel_iters = []\n    for ch in range(8):\n        channel_iters.append(iter(s.key_presses(ch)))\n'))
r("pool-ensure", "C12 C13", (P, whole(P, '        while pattern >= len(self.patterns):', None), '''        self._grow(pattern + 1)
        track = self.patterns[pattern].tracks[channel]
        track.lines[line] = Pattern.Line(note, instrument, pan)

    def _grow(self, count):
        while len(self.patterns) < count:
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
'''))
r("serial-inline", "C13", (Z, whole(Z, '        global_song_data = self._render_global_song_data(song.globals)', '    def _render_global_song_data'), '''        return dao.RenoiseSong(
            global_song_data=self._render_global_song_data(song.globals),
            instruments=self._render_instruments(song.instruments),
            tracks=self._render_tracks(song.tracks),
            pattern_pool=self._render_pattern_pool(song.pattern_pool),
            pattern_sequence=self._render_pattern_sequence(song.pattern_sequence),
        )

'''))
r("serial-colors", "C13 C19", (Z, whole(Z, '        try:\n            track.color = next(color_iter)', '        return track'), '''        color = next(color_iter, None)
        if color is not None:
            track.color = color

'''))
r("serial-lines-loop", "C13", (Z, whole(Z, '        return dao.PatternTrack(\n', '    def _render_pattern_master_track'), '''        nodes = []
        for idx, line in track.lines.items():
            column = dao.PatternLineNoteColumnNode(note=line.note, instrument=line.instrument, panning=line.pan)
            columns = dao.PatternLineNode.NoteColumns(note_column=[column])
            nodes.append(dao.PatternLineNode(index=idx, note_columns=columns))
        return dao.PatternTrack(lines=dao.PatternTrack.Lines(line=nodes))

'''))
r("serial-line-helper", "C13", (Z, whole(Z, '        return dao.PatternTrack(\n', '    def _render_pattern_master_track'), '''        lines = [self._render_line(idx, track.lines[idx]) for idx in track.lines]
        return dao.PatternTrack(lines=dao.PatternTrack.Lines(lines))

    @staticmethod
    def _render_line(idx, line):
        column = dao.PatternLineNoteColumnNode(note=line.note, instrument=line.instrument, panning=line.pan)
        return dao.PatternLineNode(index=idx, note_columns=dao.PatternLineNode.NoteColumns([column]))

'''))
r("serial-globals-vars", "C13", (Z, whole(Z, '        return dao.GlobalSongData(\n', '    def _render_instruments'), '''        values = dict(vars(global_song_data))
        amounts = values.pop("shuffle_amounts")
        return dao.GlobalSongData(shuffle_amounts=dao.GlobalSongData.ShuffleAmounts(shuffle_amount=amounts), **values)

'''))
r("writer-open", "C13", (WR, whole(WR, '    xrns = XrnsSerializer()', None), '''    document = XrnsSerializer().render(song)
    xml = XmlSerializer(
        config=SerializerConfig(pretty_print=True, encoding="UTF-8", xml_version="1.0")
    ).render(document)
    with zipfile.ZipFile(xrnsfile, "w") as archive:
        with archive.open("Song.xml", "w") as member:
            member.write(xml.encode("utf-8"))
'''))
SO = whole(T, '    if filename and filename', None)
r("open-with", "C18", (T, SO, '''    if filename and filename != "-":
        with open(filename, mode) as fh:
            yield fh
        return
    streams = {"r": sys.stdin, "w": sys.stdout}
    if mode[:1] not in streams:
        raise Exception("Unknown mode")
    stream = streams[mode[0]]
    yield stream.buffer if "b" in mode else stream
'''))
r("open-stack", "C18", (T, SO, '''    with contextlib.ExitStack() as stack:
        if filename not in (None, "", "-"):
            fh = stack.enter_context(open(filename, mode))
        else:
            fh = _standard(mode)
        yield fh


def _standard(mode):
    if mode.startswith("w"):
        stream = sys.stdout
    elif mode.startswith("r"):
        stream = sys.stdin
    else:
        raise ValueError(f"Unknown mode: {mode}")
    return stream.buffer if "b" in mode else stream
'''))
r("open-owned", "C18", (T, SO, '''    is_std = not filename or filename == "-"
    if not is_std:
        fh = open(filename, mode)
    elif mode.startswith(("r", "w")):
        fh = sys.stdout if mode[0] == "w" else sys.stdin
        fh = fh.buffer if "b" in mode else fh
    else:
        raise Exception("Unknown mode")
    try:
        yield fh
    except BaseException:
        if not is_std:
            fh.close()
        raise
    else:
        if not is_std:
            fh.close()
'''))
r("main-parse", "C20", (M, whole(M, '    parser = argparse', '    args = parser'), '''    parser = build_parser()

'''), (M, 'if __name__ == "__main__":', 'def build_parser():\n' + whole(M, '    parser = argparse', '    args = parser').rstrip() + '\n    return parser\n\n\nif __name__ == "__main__":'))
r("main-flow", "C20 C10", (M, whole(M, '        s = process_vgm_file(cmds)\n', 'if __name__'), '''        s = process_vgm_file(cmds)
        tempo = ticks_per_note or estimate(s)
        print("Ticks per Note: {}".format(tempo))

        if instr_filename:
            extract_instruments(instr_filename, s)
        if not track_filename:
            return
        extract_tracks_to_xrns(s, track_filename, tempo)


def estimate(s):
    print("Calculating Ticks Per Note", end="")
    return s.ticks_per_note(show_progress=True)


'''))
r("process-return", "C10 C20", (M, whole(M, '    for cmd in cmds:', 'def main('), '''    for cmd in cmds:
        if isinstance(cmd, vgm.core.EOSCommand):
            return st
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
            continue
        if isinstance(cmd, vgm.core.WaitCommand):
            st.beat(cmd.samples)
    return st


'''))
r("process-step", "C10 C20", (M, whole(M, '    for cmd in cmds:', 'def main('), '''    for cmd in cmds:
        if not _step(st, cmd):
            break

    return st


def _step(st, cmd):
    """performs one command; False at the end of the sound data"""
    if isinstance(cmd, vgm.core.EOSCommand):
        return False
    if isinstance(cmd, config.YM2151Command):
        st.apply(cmd)
    elif isinstance(cmd, vgm.core.WaitCommand):
        st.beat(cmd.samples)
    return True


'''))
TP = whole(S, '        for shift in range(off_start, off_end):', '            corr.append(sym_diff)')
r("tempo-static", "C11", (S, TP, '''        for shift in range(off_start, off_end):
            sym_diff = self._mismatch(ticks, shift)
'''), (S, '    def ticks_per_note(', '''    @staticmethod
    def _mismatch(ticks, shift):
        t_idx = 0
        s_idx = 0
        sym_diff = 0
        try:
            t = ticks[t_idx]
            s = ticks[s_idx] + shift
            while True:
                while t < s:
                    sym_diff += 1
                    t_idx += 1
                    t = ticks[t_idx]
                while s < t:
                    sym_diff += 1
                    s_idx += 1
                    s = ticks[s_idx] + shift
                if t == s:
                    t_idx += 1
                    s_idx += 1
                    t = ticks[t_idx]
                    s = ticks[s_idx] + shift
        except IndexError:
            pass
        return sym_diff

    def ticks_per_note('''))
r("tempo-rank", "C11", (S, whole(S, '        top = sorted(\n', '        print("Ticks Per Note estimates'), '''        scale = len(ticks) * 2 - 1
        estimates = [(off_start + i, mismatches / scale) for i, mismatches in enumerate(corr)]
        top = sorted(estimates, key=lambda estimate: estimate[1])
'''))
r("tempo-window", "C11", (S, '        ticks = [t for t in self.ticks() if t < top_ticks]\n', '''        ticks = []
        for t in self.ticks():
            if t < top_ticks:
                ticks.append(t)
'''))
r("tempo-progress", "C11", (S, whole(S, '            if (\n                show_progress', '        if show_progress:\n            print()'), '''            done = (shift - off_start) / (off_end - off_start)
            if show_progress and done * 100 > progress:
                progress += 10
                print(".", end="")

'''))
r("song-list", "C12 C13 C19", ("xrns/parts/song.py", '[Instrument()] * instruments', '[\n            Instrument() for _ in range(instruments)\n        ]'))
r("ticks-list", "C09 C11", (S, '        return sorted(list(self._note_beats))', '        beats = list(self._note_beats)\n        beats.sort()\n        return beats'))
r("beat-cond", "C09 C10", (S, '        self._samples += samples', '        if samples == 0:\n            return\n        self._samples = self._samples + samples'))
r("logging", "C05 C06 C10", (S, 'class State:', 'import logging\n\nlog = logging.getLogger(__name__)\n\n\nclass State:'), (S, '        channel = cmd.reg & 0x07\n', '        log.debug("apply %s", cmd)\n        channel = cmd.reg & 0x07\n'))
