K, T, WR, G, TR, SG = "vgm/command.py", "tools.py", "xrns/writer.py", "xrns/parts/globals.py", "xrns/parts/track.py", "xrns/parts/song.py"
r("count-commands", "C10 C20", (M, '''    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
''', '''    seen = 0
    ended = False
    for cmd in cmds:
        seen += 1
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
'''), (M, '''            # Whatever follows (GD3 tag, padding) is not command data
            break
''', '''            # Whatever follows (GD3 tag, padding) is not command data
            ended = True
            break
    if not ended and seen > 0:
        print(f"no end marker behind {seen} commands")
'''))
r("count-writes", "C10 C20", (M, '''    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
''', '''    writes = 0
    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):
            writes += 1
            st.apply(cmd)
'''), (M, '''    return st


def main''', '''    if writes == 0:
        print("nothing is written to the chip")
    return st


def main'''))
r("xrns-counter", "C12", (X, '''        for n in s.key_presses(ch):
            total_row =''', '''        first = True
        previous = 0
        count = 0
        for n in s.key_presses(ch):
            count += 1
            if not first and n.sample < previous:
                print("events out of order")
            first = False
            previous = n.sample
            total_row ='''))
r("csv-gap-counter", "C16", (X, '''                while total_row + 1 < current_row:
                    total_row += 1
''', '''                gap = 0
                while total_row + 1 < current_row:
                    total_row += 1
                    gap += 1
'''), (X, '''                total_row = current_row
                note_row = [""] * channel_count
''', '''                if gap > 1000:
                    print(f"{gap} empty rows")
                total_row = current_row
                note_row = [""] * channel_count
'''))
r("csv-gap-for", "C16", (X, '''                while total_row + 1 < current_row:
                    total_row += 1
''', '''                for total_row in range(total_row + 1, current_row):
'''))
r("csv-line-counter", "C16", (X, '''        while len(channel_notes):
            samples =''', '''        rounds = 0
        while len(channel_notes):
            rounds += 1
            samples ='''))
r("csv-flag", "C16", (X, '''        while len(channel_notes):
            samples =''', '''        started = False
        lines = 0
        while len(channel_notes):
            if not started:
                started = True
            samples ='''), (X, '''            if current_row != total_row:
                row = [''', '''            if current_row != total_row:
                lines += 1
                row = ['''), (X, '''        if any(note_row):
''', '''        if lines < 0:
            raise ValueError("no lines")
        if any(note_row):
'''))
r("tempo-counter", "C11", (S, '''            corr.append(sym_diff)
''', '''            corr.append(sym_diff)
            tried += 1
'''), (S, '''        for shift in range(off_start, off_end):
''', '''        tried = 0
        for shift in range(off_start, off_end):
'''), (S, '''        print("Ticks Per Note estimates:")
''', '''        assert tried == off_end - off_start
        print("Ticks Per Note estimates:")
'''))
r("sheet-class", "C16", (X, '''def extract_tracks(s, track_filename, ticks_per_note):
''', '''def _cells(sample, total_row, line_count, ticks_per_note):
    pattern, row = divmod(total_row, line_count)
    return [
        str(sample),
        str(row),
        str(pattern),
        str(total_row),
        "{:.2}".format((sample / ticks_per_note) % 1),
    ]


def extract_tracks(s, track_filename, ticks_per_note):
'''), (X, '''                row = [
                    str(current_sample),
                    str(total_row % line_count),
                    str(total_row // line_count),
                    str(total_row),
                    "{:.2}".format((current_sample / ticks_per_note) % 1),
                ] + note_row
''', '''                row = _cells(current_sample, total_row, line_count, ticks_per_note) + note_row
'''))
r("xrns-pan-helper", "C12", (X, '''            pan = None
            if not n.right or not n.left:
                if n.right:
                    pan = "00"
                else:
                    pan = "F0"
''', '''            pan = _pan(n)
'''), (X, '''def extract_tracks_to_xrns(''', '''def _pan(n):
    if n.right and n.left:
        return None
    return "00" if n.right else "F0"


def extract_tracks_to_xrns('''))
r("bpm-helper", "C12", (X, '''    beat_length = ticks_per_note * notes_per_beat
    song.globals.beats_per_min = 60 * sample_freq // beat_length
''', '''    song.globals.beats_per_min = (60 * sample_freq) // (notes_per_beat * ticks_per_note)
'''))
r("csv-heapq", "C16", (X, '''            samples = [n.sample for n in channel_notes.values()]
            current_sample = min(samples)
''', '''            current_sample = min(channel_notes.values(), key=lambda n: n.sample).sample
'''))
r("csv-next-default", "C16", (X, '''                    note_row[ch] = str(channel_notes[ch])
                    try:
                        note = next(channel_iters[ch])
                        channel_notes[ch] = note
                    except StopIteration:
                        del channel_notes[ch]
''', '''                    note_row[ch] = str(channel_notes.pop(ch))
                    note = next(channel_iters[ch], None)
                    if note is not None:
                        channel_notes[ch] = note
'''))
r("append-missing", "C12", (P, '''        while pattern >= len(self.patterns):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
''', '''        missing = pattern + 1 - len(self.patterns)
        while missing > 0:
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
            missing -= 1
'''))
r("append-size", "C12", (P, '''        while pattern >= len(self.patterns):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
''', '''        size = len(self.patterns)
        while size <= pattern:
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
            size += 1
'''))
r("sequence-counter", "C12", (X, '''    for p in range(len(song.pattern_pool.patterns)):
        song.pattern_sequence.add_pattern(p)
''', '''    p = 0
    for _ in song.pattern_pool.patterns:
        song.pattern_sequence.add_pattern(p)
        p += 1
'''))
r("sequence-while", "C12", (X, '''    for p in range(len(song.pattern_pool.patterns)):
        song.pattern_sequence.add_pattern(p)
''', '''    p = 0
    while p < len(song.pattern_pool.patterns):
        song.pattern_sequence.add_pattern(p)
        p += 1
'''))
r("key-counter", "C06 C07", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            config_id: int = 0
            for c in self.configs:
                if c.compare(
                    self._current_base_config, self._channel_configs[ch], op
                ):
                    break
                config_id += 1
'''))
r("key-while", "C06 C07", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            config_id: int = 0
            while config_id < len(self.configs) and not self.configs[
                config_id
            ].compare(self._current_base_config, self._channel_configs[ch], op):
                config_id += 1
'''))
r("key-flag", "C06 C07", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            config_id: int = len(self.configs)
            found = False
            for i, c in enumerate(self.configs):
                if not found and c.compare(
                    self._current_base_config, self._channel_configs[ch], op
                ):
                    config_id = i
                    found = True
'''))
r("key-reverse", "C06 C07", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            config_id: int = len(self.configs)
            for i in range(len(self.configs) - 1, -1, -1):
                if self.configs[i].compare(
                    self._current_base_config, self._channel_configs[ch], op
                ):
                    config_id = i
'''))
