BUGS=[]
def B(id,prop,edits,needs,what,demo): BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,what=what,demo=demo))
S,V,X,M,P,T="vgm/ym2151/state.py","vgm/core.py","extractors.py","main.py","xrns/parts/pattern.py","tools.py"
Z="xrns/xrns_serializer.py"; N="vgm/ym2151/note.py"
B("c01-read-ahead","C01",[(V,"        self.file.seek(self.data_start, io.SEEK_SET)\n        return\n",'''        self.file.seek(self.data_start, io.SEEK_SET)
        self.file = _ReadAhead(self.file)
        return
'''),(V,"class Vgm:\n",'''class _ReadAhead:
    """Reads in big pieces: one call per byte is slow on gzip"""

    PIECE = 8192

    def __init__(self, file):
        self.file = file
        self.piece = b""
        self.at = 0

    def read(self, n: int) -> bytes:
        if n > self.PIECE:
            rest = self.piece[self.at :]
            self.piece = b""
            self.at = 0
            return rest + self.file.read(n - len(rest))
        if self.at + n > len(self.piece):
            piece = self.file.read(self.PIECE)
            if self.at == len(self.piece) or piece:
                self.piece = piece
                self.at = 0
        out = self.piece[self.at : self.at + n]
        self.at += len(out)
        return out


class Vgm:
''')],
 "a command of several bytes that lies across a multiple of 8192 bytes","its first bytes are dropped and the reader falls out of step",'''
v = open_vgm(b"\\x70" * 8190 + b"\\x61\\x10\\x62" + W(0x08, 0x78) + b"\\x66")
c = list(v)
finish(len(c) == 8193 and (c[8190].samples, c[8191].reg, c[8191].value) == (0x6210, 8, 0x78), [vars(x) for x in c[8189:8195]])
''')
B("c07-index-by-level","C07",[(S,"        self._first_beat = None\n","        self._first_beat = None\n        # levels of the operators -> the instrument that has them, so that not all need comparing\n        self._by_level: typing.Dict[tuple, int] = {}\n"),
(S,'''                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''','''                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            ) if len(self.configs) < 64 else self._lookup(ch, op)
            self._by_level[self._levels(ch)] = config_id
'''),(S,"    def key_presses(self",'''    def _levels(self, ch: int) -> tuple:
        return tuple(o.total_level for o in self._channel_configs[ch].operators)

    def _lookup(self, ch: int, op: Operators) -> int:
        i = self._by_level.get(self._levels(ch), len(self.configs))
        if i < len(self.configs) and self.configs[i].compare(
            self._current_base_config, self._channel_configs[ch], op
        ):
            return i
        return len(self.configs)

    def key_presses(self''')],
 "more than 64 instruments, two of which have the same levels and alternate","the same sound is entered again each time",'''
def note(v, d1r=0):
    return W(0x60, v & 0x7F) + W(0xA0, d1r) + W(8, 0x78) + b"\\x62" + W(8, 0)
s = state(b"".join(note(v) for v in range(70)) + note(5, 9) + note(5, 0) + note(5, 9) + note(5, 0) + b"\\x66")
ids = [n.config_id for n in s.key_presses(0) if n.config_id >= 0]
finish(len(s.configs) == 71 and ids[70:] == [70, 5, 70, 5], (len(s.configs), ids[68:]))
''')
B("c06-snapshot-kept","C06",[(S,"                note = Note(config_id, self._note_configs[ch], self._samples)\n",'''                taken = self._notes_taken.get(ch)
                live = self._note_configs[ch]
                if taken is None or taken.octave != live.octave or taken.note != live.note or taken.left != live.left or taken.right != live.right:
                    taken = self._notes_taken[ch] = copy.deepcopy(live)
                note = Note(config_id, taken, self._samples)
'''),(S,"        self._first_beat = None\n","        self._first_beat = None\n        self._notes_taken: typing.Dict[int, NoteConfig] = {}\n")],
 "a key fraction changed between two key events of the same note","the second event shows the old key fraction",'''
s = state(W(0x28, 0x4A) + W(0x30, 0x10) + W(8, 0x78) + b"\\x62" + W(0x30, 0xF0) + W(8, 0x78) + b"\\x66")
k = [n.key_fraction for n in s.key_presses(0)]
finish(k == [4, 60], k)
''')
B("c11-gives-up-on-poor-matches","C11",[(S,"        progress = 0\n","        progress = 0\n        poor = 1 + len(ticks) // 2 * 3\n"),(S,"                while True:\n                    while t < s:\n","                while sym_diff <= poor:\n                    while t < s:\n")],
 "a song in which even the best shift lines up less than a quarter of the onsets","a worse shift is reported as the tempo",'''
from vgm.ym2151.state import State
def tempo(onsets):
    s = State()
    s._note_beats = set(onsets)
    with quiet():
        return s.ticks_per_note()
def want(onsets):
    a = [t for t in sorted(onsets) if t < 32000]
    return min(range(1000, 8000), key=lambda d: (score(a, d), d))
def score(a, d):
    from bisect import bisect_left
    i = j = n = 0
    try:
        while True:
            x, y = a[i], a[j] + d
            if x < y:
                n += 1; i += 1; a[i]
            elif y < x:
                n += 1; j += 1; a[j]
            else:
                i += 1; j += 1; a[i]; a[j]
    except IndexError:
        return n
import random
bad = []
for seed in range(12):
    r = random.Random(seed)
    xs = sorted(r.sample(range(0, 31000), 14))
    if tempo(xs) != want(xs):
        bad.append((xs, tempo(xs), want(xs)))
finish(not bad, bad[:1])
''')
B("c16-lines-in-blocks","C16",[(X,'''        channel_count = 8
        line_count = 64
        total_row = 0
        note_row''','''        # one write for every 256 lines
        pending = []

        def put(line):
            pending.append(line)
            if len(pending) >= 256:
                fo.write("".join(pending))
                pending.clear()

        channel_count = 8
        line_count = 64
        total_row = 0
        note_row'''),(X,'''                fo.write(f'{",".join(row)}\\n')

                while total_row + 1''','''                put(f'{",".join(row)}\\n')

                while total_row + 1'''),(X,'''                    fo.write(f'{",".join(row)}\\n')

                total_row = current_row''','''                    put(f'{",".join(row)}\\n')

                total_row = current_row'''),(X,'''            ] + note_row
            fo.write(f'{",".join(row)}\\n')


def''','''            ] + note_row
            put(f'{",".join(row)}\\n')
            if len(pending) > 1:
                fo.write("".join(pending))


def''')],
 "a song whose last line is the first of a block of 256","the last line is missing",'''
import extractors
s = state(W(8, 0x78) + wait(512 * 735) + W(8, 0) + b"\\x66")
with quiet():
    extractors.extract_tracks(s, "t.csv", 735)
n = open("t.csv").read().split("\\n")
finish(len(n) == 515 and "Key Off" in n[513], (len(n), n[-2]))
''')
B("c13-alike-patterns","C13",[(Z,'''                [self._render_pattern(pattern) for pattern in pattern_pool.patterns]
''','''                self._render_patterns(pattern_pool.patterns)
'''),(Z,"    def _render_pattern(self, pattern: Pattern)",'''    def _render_patterns(self, patterns: List[Pattern]) -> List[dao.Pattern]:
        """Songs repeat themselves: a pattern that has been rendered is used again"""
        rendered: dict = {}
        out = []
        for pattern in patterns:
            key = tuple(
                (idx, line.note, line.instrument)
                for track in pattern.tracks
                for idx, line in track.lines.items()
            )
            if key not in rendered:
                rendered[key] = self._render_pattern(pattern)
            out.append(rendered[key])
        return out

    def _render_pattern(self, pattern: Pattern)''')],
 "two patterns that have the same notes on the same lines, but with other panning or on other tracks","the second is written like the first",'''
import xrns.parts.song, zipfile
from xrns.writer import writer
song = xrns.parts.song.Song(tracks=2, instruments=1)
song.pattern_pool.add_note(0, 0, 5, "C-4", "00", None)
song.pattern_pool.add_note(1, 1, 5, "C-4", "00", None)
song.pattern_pool.add_note(2, 0, 5, "C-4", "00", "F0")
with open("s.xrns", "wb") as f:
    writer(f, song)
x = zipfile.ZipFile("s.xrns").read("Song.xml").decode()
finish(x.count("<Panning>F0</Panning>") == 1, x.count("Panning"))
''')
B("c14-name-memo","C14",[(N,'''        note = _NOTE_LOOKUP_XRNS[self.note]
        octave = self.octave
        if self.note == 14:
            octave += 1

        return f"{note}{octave}"''','''        key = self.octave * 10 + self.note
        if key not in _XRNS_NAMES:
            octave = self.octave
            if self.note == 14:
                octave += 1
            _XRNS_NAMES[key] = f"{_NOTE_LOOKUP_XRNS[self.note]}{octave}"
        return _XRNS_NAMES[key]'''),(N,"\nclass Note:\n","\n_XRNS_NAMES: typing.Dict[int, str] = {}\n\n\nclass Note:\n")],
 "a high note of one octave exported before a low one of the next (or the other way round)","the second gets the name of the first",'''
from vgm.ym2151.config import NoteConfig
from vgm.ym2151.note import Note
def name(octave, note):
    c = NoteConfig()
    c.octave, c.note, c.left, c.right = octave, note, True, True
    return Note(0, c, 0).xrns_note()
got = [name(3, 14), name(4, 4), name(2, 10), name(3, 0)]
finish(got == ["C-4", "E-4", "A-2", "C#3"], got)
''')
