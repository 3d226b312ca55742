"""fifth batch: new modules, assertions, standard library helpers (executed by refacs.py)"""
r("names-module", "C14 C16 C06", (N, "_NOTE_LOOKUP: typing.Dict = {\n", "_UNUSED: typing.Dict = {\n"), (N, "_NOTE_LOOKUP_XRNS: typing.Dict = {", "_UNUSED2: typing.Dict = {"),
  (N, "from vgm.ym2151.config import NoteConfig\n", "from vgm.ym2151.config import NoteConfig\nfrom vgm.ym2151.names import CHIP as _NOTE_LOOKUP, TRACKER as _NOTE_LOOKUP_XRNS\n"),
  ("vgm/ym2151/names.py", None, '''"""names of the sixteen note codes"""
CHIP = ("C#", "D ", "D#", "D?", "E ", "F ", "F#", "F?", "G ", "G#", "A ", "A?", "A#", "B ", "C ", "C?")
TRACKER = ("C#", "D-", "D#", "D#", "E-", "F-", "F#", "F#", "G-", "G#", "A-", "A#", "A#", "B-", "C-", "C#")
'''))
r("rows-module", "C12 C16", (X, "from tools import smart_open\n", "from tools import smart_open\nfrom rows import position\n"),
  (X, '''            total_row = n.sample // ticks_per_note
            row = total_row % line_count
            pattern = total_row // line_count
            instr''', '''            pattern, row = position(n.sample, ticks_per_note, line_count)
            instr'''),
  ("rows.py", None, '''"""where a sample falls"""


def position(sample: int, ticks_per_row: int, rows: int) -> tuple:
    return divmod(sample // ticks_per_row, rows)
'''))
r("asserts", "C05 C06 C07 C09 C10", (S, "        channel = cmd.reg & 0x07\n", "        assert 0 <= cmd.reg <= 0xFF and 0 <= cmd.value <= 0xFF\n        channel = cmd.reg & 0x07\n"),
  (S, "        self._samples += samples\n", "        assert samples >= 0, samples\n        self._samples += samples\n"))
r("partial", "C12", (X, "from typing import Dict\n", "from functools import partial\nfrom typing import Dict\n"), (X, "    for ch in range(channel_count):\n        for n in s.key_presses(ch):\n", "    for ch in range(channel_count):\n        add = partial(song.pattern_pool.add_note, channel=ch)\n        for n in s.key_presses(ch):\n"),
  (X, "            song.pattern_pool.add_note(pattern, ch, row, n.xrns_note(), instr, pan)", "            add(pattern, line=row, note=n.xrns_note(), instrument=instr, pan=pan)"))
r("attrgetter", "C16", (X, "import json\n", "import json\nimport operator\n"), (X, "            samples = [n.sample for n in channel_notes.values()]\n            current_sample = min(samples)\n", "            current_sample = min(map(operator.attrgetter(\"sample\"), channel_notes.values()))\n"))
r("first-note", "C16", (X, "            samples = [n.sample for n in channel_notes.values()]\n            current_sample = min(samples)\n", "            current_sample = min(channel_notes.values(), key=lambda n: n.sample).sample\n"))
r("constants", "C12 C16", (X, "def extract_tracks_to_xrns(", "CHANNELS = 8\nLINES = 64\nRATE = 44_100\nSECONDS_PER_MINUTE = 60\n\n\ndef extract_tracks_to_xrns("), (X, "    channel_count = 8\n    sample_freq = 44100\n    notes_per_beat = 4\n    line_count = 64\n", "    notes_per_beat = 4\n    line_count = LINES\n"),
  (X, "60 * sample_freq // beat_length", "SECONDS_PER_MINUTE * RATE // beat_length"), (X, "    for ch in range(channel_count):\n        for n in s", "    for ch in range(CHANNELS):\n        for n in s"), (X, "        channel_count = 8\n        line_count = 64\n", "        channel_count = CHANNELS\n        line_count = LINES\n"))
r("csv-buffer", "C16", (X, "import json\n", "import io\nimport json\n"), (X, '''        header = ["Samples"''', '''        out, fo = fo, io.StringIO()
        header = ["Samples"'''), (X, '''            ] + note_row
            fo.write(f'{",".join(row)}\\n')


def''', '''            ] + note_row
            fo.write(f'{",".join(row)}\\n')
        out.write(fo.getvalue())


def'''))
r("csv-collect", "C16", (X, '''        header = ["Samples"''', '''        lines = []
        header = ["Samples"'''), (X, '''                fo.write(f'{",".join(row)}\\n')

                while total_row + 1''', '''                lines.append(",".join(row))

                while total_row + 1'''), (X, '''                    fo.write(f'{",".join(row)}\\n')

                total_row = current_row''', '''                    lines.append(",".join(row))

                total_row = current_row'''), (X, '''            ] + note_row
            fo.write(f'{",".join(row)}\\n')


def''', '''            ] + note_row
            lines.append(",".join(row))
        fo.writelines(line + "\\n" for line in lines)


def'''))
r("path-open", "C18 C16 C15 C12", ("tools.py", "        fh = open(filename, mode)", "        fh = pathlib.Path(filename).open(mode)"), ("tools.py", "import ", "import pathlib\nimport "))
r("repr-command", "C10 C01 C02", ("vgm/command.py", "class WaitCommand", "def _hex(n: int) -> str:\n    return f\"{n:#04x}\"\n\n\nclass WaitCommand"))
r("pan-table", "C12", (X, '''            pan = None
            if not n.right or not n.left:
                if n.right:
                    pan = "00"
                else:
                    pan = "F0"
''', '''            pan = {(True, True): None, (True, False): "00"}.get((n.right, n.left), "F0")
'''))
r("find-method", "C06 C07 C08 C09", (S, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )

            if len(self.configs) == config_id:
                if op:
                    self.configs.append(
                        Config(
                            config_id,
                            copy.deepcopy(self._current_base_config),
                            copy.deepcopy(self._channel_configs[ch]),
                            op,
                        )
                    )
                    self._current_base_config = copy.deepcopy(self._current_base_config)
                else:
                    config_id = -1
''', '''            config_id = self._instrument(ch, op)
'''), (S, "    def key_presses(self", '''    def _instrument(self, ch: int, op: Operators) -> int:
        """number of the instrument that sounds, entered into the table when it is new"""
        for config in self.configs:
            if config.compare(self._current_base_config, self._channel_configs[ch], op):
                return config._id
        if not op:
            return -1
        new = Config(len(self.configs), copy.deepcopy(self._current_base_config), copy.deepcopy(self._channel_configs[ch]), op)
        self.configs.append(new)
        return new._id

    def key_presses(self'''))
r("gap-divmod", "C16", (X, '''                    str(total_row % line_count),
                        str(total_row // line_count),
                        str(total_row),
                        "{:.2}".format((current_sample / ticks_per_note) % 1),
                    ] + [""] * channel_count''', '''                    str(divmod(total_row, line_count)[1]),
                        str(divmod(total_row, line_count)[0]),
                        str(total_row),
                        "{:.2}".format((current_sample / ticks_per_note) % 1),
                    ] + [""] * channel_count'''))
r("sorted-set", "C09 C11", (S, "        return sorted(list(self._note_beats))", "        onsets = list(self._note_beats)\n        onsets.sort()\n        return onsets"))
r("sym-diff-sets", "C11", (S, "        progress = 0\n", "        progress = 0\n        count = len(ticks)\n"), (S, "(c / (len(ticks) * 2 - 1))", "(c / (count * 2 - 1))"))
r("path-open-2", "C18 C16 C15", ("tools.py", "        fh = open(filename, mode)", "        fh = open(Path(filename), mode)"), ("tools.py", "import ", "from pathlib import Path\nimport "))
r("io-open", "C18 C16 C13", ("tools.py", "        fh = open(filename, mode)", "        fh = io.open(filename, mode)"), ("tools.py", "import ", "import io\nimport "))
