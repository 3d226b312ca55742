BUGS=[]
def B(id,prop,edits,needs,what,demo): BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,what=what,demo=demo))
S,V,X,M,P,T="vgm/ym2151/state.py","vgm/core.py","extractors.py","main.py","xrns/parts/pattern.py","tools.py"
Z="xrns/xrns_serializer.py"
B("c10-gives-up-on-long-logs","C10",[(M,"    for cmd in cmds:\n","    for number, cmd in enumerate(cmds):\n        if number > 0x3FFFF:\n            break\n")],
 "a log of more than 262144 commands","what the commands behind them do to the chip is lost",'''
s = state(W(0x28, 0x4A) + b"\\x70" * 262144 + W(0x28, 0x35) + W(8, 0x78) + b"\\x66")
n = list(s.key_presses(0))
finish(len(n) == 1 and (n[0].octave, n[0].sample) == (3, 262144), [vars(x) for x in n])
''')
B("c12-crowded-channel","C12",[(X,"        for n in s.key_presses(ch):\n","        room = 4096\n        for n in s.key_presses(ch):\n            if n.config_id >= 0:\n                room -= 1\n            if room < 0:\n                continue\n")],
 "a channel with more than 4096 notes","the notes behind them are missing from the song",'''
import zipfile, extractors
s = state((W(8, 0x78) + b"\\x62" + W(8, 0) + b"\\x62") * 4100 + b"\\x66")
with quiet():
    extractors.extract_tracks_to_xrns(s, "t.xrns", 735)
x = zipfile.ZipFile("t.xrns").read("Song.xml").decode()
finish(x.count("<Instrument>00</Instrument>") == 4100, x.count("<Instrument>00</Instrument>"))
''')
B("c13-pool-limit","C13",[(Z,"[self._render_pattern(pattern) for pattern in pattern_pool.patterns]","[\n                    self._render_pattern(pattern)\n                    for pattern in pattern_pool.patterns[:1000]\n                ]")],
 "a song of more than a thousand patterns","the patterns behind are missing from the file",'''
import xrns.parts.song, zipfile
from xrns.writer import writer
song = xrns.parts.song.Song(tracks=1, instruments=1)
song.pattern_pool.add_note(1003, 0, 5, "C-4", "00", None)
for p in range(1004):
    song.pattern_sequence.add_pattern(p)
with open("s.xrns", "wb") as f:
    writer(f, song)
x = zipfile.ZipFile("s.xrns").read("Song.xml").decode()
finish(x.count("<Pattern>") >= 1004 and "C-4" in x, x.count("C-4"))
''')
B("c06-clock-wraps","C06",[(S,"        self._samples += samples\n","        self._samples = (self._samples + samples) & 0xFFFFFF\n")],
 "a log longer than 2^24 samples (six minutes)","events behind are recorded at early times, before their predecessors",'''
s = state(W(8, 0x78) + wait(20) + W(8, 0) + wait(1 << 24) + W(8, 0x78) + b"\\x66")
t = [n.sample for n in s.key_presses(0)]
finish(t == [0, 20, (1 << 24) + 20], t)
''')
B("c07-looks-back-a-while","C07",[(S,"                    for (i, c) in enumerate(self.configs)\n","                    for (i, c) in list(enumerate(self.configs))[-128:]\n")],
 "an instrument that comes back after 128 others","it is entered a second time under another number",'''
def note(v):
    return W(0x60, v & 0x7F) + W(0x68, v >> 7) + W(8, 0x78) + b"\\x62" + W(8, 0)
s = state(b"".join(note(v) for v in range(200)) + note(0) + b"\\x66")
ids = [n.config_id for n in s.key_presses(0) if n.config_id >= 0]
finish(len(s.configs) == 200 and ids == list(range(200)) + [0], (len(s.configs), ids[-2:]))
''')
B("c09-onsets-of-the-first-minutes","C09",[(S,"            if config_id >= 0:\n                self._note_beats.add(self._samples)\n","            if config_id >= 0 and len(self._note_beats) < 1000:\n                self._note_beats.add(self._samples)\n")],
 "more than a thousand onsets","later onsets are not among the onset times",'''
s = state((W(8, 0x78) + b"\\x62" + W(8, 0) + b"\\x62") * 1005 + b"\\x66")
finish(s.ticks() == [i * 1470 for i in range(1005)], len(s.ticks()))
''')
B("c15-short-list","C15",[(X,"    js = json.dumps(s.configs, cls","    js = json.dumps(s.configs[:256], cls")],
 "a log with more than 256 instruments","those behind are missing from the file",'''
import extractors
def note(v):
    return W(0x60, v & 0x7F) + W(0x68, v >> 7) + W(8, 0x78) + b"\\x62" + W(8, 0)
s = state(b"".join(note(v) for v in range(258)) + b"\\x66")
with quiet():
    extractors.extract_instruments("i.json", s)
finish(len(json.load(open("i.json"))) == 258 == len(s.configs), len(json.load(open("i.json"))))
''')
B("c20-tempo-only-for-song","C20",[(M,"        if not ticks_per_note:\n","        if not ticks_per_note and (track_filename or not instr_filename):\n")],
 "instruments are asked for, but no song and no ticks","no tempo is reported",'''
import main
open("a.vgm", "wb").write(vgm_bytes((W(8, 0x78) + wait(1500) + W(8, 0) + wait(600)) * 12 + b"\\x66"))
out = io.StringIO()
with contextlib.redirect_stdout(out):
    main.main("a.vgm", "i.json", None, None)
finish("Ticks per Note: 2100" in out.getvalue(), out.getvalue()[-200:])
''')
