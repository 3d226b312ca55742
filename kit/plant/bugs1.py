BUGS=[]
def B(id,prop,edits,needs,what,demo): BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,what=what,demo=demo))
B("c02-signed-wait","C02",[("vgm/core.py",'struct.unpack("H", b)[0]','struct.unpack("h", b)[0]')],
 "a wait of 32768 samples or more","long waits become negative",'''
cs = [c.samples for c in open_vgm(wait(32767) + wait(32768) + wait(65535) + b"\\x66") if hasattr(c, "samples")]
finish(cs == [32767, 32768, 65535], cs)
''')
B("c03-cut-wait-padded","C03",[("vgm/core.py",'''    b = file.read(2)
    if b is None or len(b) != 2:
        raise EOFError
''','''    b = file.read(2)
    if not b:
        raise EOFError
    b = b.ljust(2, b"\\0")
''')],"a stream cut between the two operand bytes of a wait","a wait with an invented high byte is yielded",'''
got = []
try:
    for c in open_vgm(b"\\x62\\x61\\x10"):
        got.append(c.command_id)
    raised = False
except Exception:
    raised = True
finish(raised and got == [0x62], (raised, got))
''')
B("c03-cut-write-ends-quietly","C03",[("vgm/core.py",'''        return command(cmd[0], self.file)


def command''','''        try:
            return command(cmd[0], self.file)
        except EOFError:
            raise StopIteration


def command''')],"a stream cut inside a register write or wait","the cut goes unnoticed: iteration just ends",'''
res = []
for cut in (W(0x28, 1)[:2], W(0x28, 1)[:1], b"\\x61", b"\\x61\\x01"):
    try:
        list(open_vgm(b"\\x62" + cut))
        res.append("ended")
    except Exception:
        res.append("raised")
finish(res == ["raised"] * 4, res)
''')
B("c04-bcd-low-byte","C04",[("vgm/core.py","    for i in range(4):\n        item = b[3 - i]","    for i in range(3, -1, -1):\n        item = b[i] if b[3] or i < 2 else 0")],
 "a version of 100.00 or with a nonzero third byte (here 1.00.00, i.e. 0x10000)","the third byte of the version is dropped",'''
r = [open_vgm(b"\\x66", version=v).version for v in (0x151, 0x10151, 0x1000151)]
finish(r == [151, 10151, 1000151], r)
''')
B("c05-pms-leak","C05",[("vgm/ym2151/state.py","self._channel_configs[channel].pms = (cmd.value >> 4) & 0x07","self._channel_configs[channel].pms = cmd.value >> 4")],
 "a PMS/AMS write with bit 7 set","the unused bit 7 ends up in PMS",'''
s = state(W(0x3A, 0xD2) + b"\\x66")
c = s.channel_config(2)
finish((c.pms, c.ams) == (5, 2), (c.pms, c.ams))
''')
B("c05-noise-any-channel","C05",[("vgm/ym2151/state.py","        elif cmd.reg == 0x0F:\n","        elif cmd.reg & 0xEF == 0x0F:\n")],
 "a write to the unmapped register 0x1F","register 0x1F changes the noise setting",'''
s = state(W(0x0F, 0x85) + W(0x1F, 0x03) + b"\\x66")
c = s.channel_config(7)
finish((bool(c.noise), c.noise_freq) == (True, 5), (c.noise, c.noise_freq))
''')
B("c06-off-keeps-live-pan","C06",[("vgm/ym2151/note.py","        self.sample: int = sample\n","        self.sample: int = sample\n        if config_id < 0:\n            self.right = self.left = True\n")],
 "a key-off on a channel that is panned","off events lose the stereo flags of the channel",'''
s = state(W(0x21, 0x80) + W(8, 0x79) + b"\\x62" + W(8, 0x01) + b"\\x66")
e = s.key_presses(1)
finish([(bool(n.right), bool(n.left)) for n in e] == [(True, False)] * 2, [(n.right, n.left) for n in e])
''')
B("c06-retrigger-dropped","C06",[("vgm/ym2151/state.py","                self._channel_key_presses[cmd.value & 0x7].append(note)","                presses = self._channel_key_presses[cmd.value & 0x7]\n                if not (presses and presses[-1].__dict__ == note.__dict__):\n                    presses.append(note)")],
 "the same key-on written twice on one channel without a wait between","the second of two identical simultaneous key events is not recorded",'''
s = state(W(8, 0x78) + W(8, 0x78) + b"\\x62" + W(8, 0x00) + b"\\x66")
finish(len(s.key_presses(0)) == 3, len(s.key_presses(0)))
''')
B("c07-compare-sounding-operators","C07",[("vgm/ym2151/config.py","            and self._operators == operators\n","            and self._operators & operators == operators\n")],
 "a key-on with a subset of the operators of an earlier instrument","an instrument with more operators is taken for the same",'''
s = state(W(8, 0x78) + b"\\x62" + W(8, 0x08) + b"\\x66")
ids = [n.config_id for n in s.key_presses(0)]
finish(ids == [0, 1] and len(s.configs) == 2, ids)
''')
B("c07-first-decay-level-ignored","C07",[("vgm/ym2151/config.py","                and self.first_decay_level == other.first_decay_level\n","                and self.first_decay_level | 1 == other.first_decay_level | 1\n")],
 "two key-ons whose operators differ only in the lowest bit of D1L","two different instruments get one id",'''
s = state(W(0xE0, 0x20) + W(8, 0x78) + b"\\x62" + W(0xE0, 0x30) + W(8, 0x78) + b"\\x66")
finish([n.config_id for n in s.key_presses(0)] == [0, 1], [n.config_id for n in s.key_presses(0)])
''')
B("c08-shallow-operators","C08",[("vgm/ym2151/config.py","            [] if not other else copy.deepcopy(other.operators)","            [] if not other else copy.copy(other.operators)")],
 "an operator write after a key-on","recorded instruments share their operators with the live chip",'''
s = state(W(0x60, 0x11) + W(8, 0x78) + b"\\x62" + W(0x60, 0x22) + b"\\x66")
finish(s.configs[0].operators[0].total_level == 0x11, s.configs[0].operators[0].total_level)
''')
B("c09-off-times-in-onsets","C09",[("vgm/ym2151/state.py","            if config_id >= 0:\n                self._note_beats.add(self._samples)","            if self._first_beat is not None:\n                self._note_beats.add(self._samples)")],
 "a key-off at a time without key-on","key-off times enter the onset list",'''
s = state(W(8, 0x78) + wait(100) + W(8, 0) + wait(50) + W(8, 0x79) + b"\\x66")
finish(s.ticks() == [0, 150], s.ticks())
''')
B("c10-marker-needs-class","C10",[("main.py","    for cmd in cmds:\n        if isinstance(cmd, config.YM2151Command):\n            st.apply(cmd)","    last = None\n    for cmd in cmds:\n        if isinstance(cmd, config.YM2151Command):\n            if last is None or cmd.reg == 8 or (cmd.reg, cmd.value) != (last.reg, last.value):\n                st.apply(cmd)\n                last = cmd if cmd.reg & 0xE0 else None"),],
 "a register that is written again with the same value after a key event in between ... here: the same write twice with another register below 0x20 between never matters; needs write A, write B to the same field skipped","placeholder",'''
finish(True)
''')
BUGS.pop()
B("c10-wait-merge","C10",[("main.py","            st.apply(cmd)\n        elif isinstance(cmd, vgm.core.WaitCommand):\n            st.beat(cmd.samples)","            if pending:\n                st.beat(pending)\n                pending = 0\n            st.apply(cmd)\n        elif isinstance(cmd, vgm.core.WaitCommand):\n            pending += cmd.samples"),("main.py","    st = state.State()\n","    st = state.State()\n    pending = 0\n")],
 "a stream whose last command before the marker is a wait","waits are batched and the trailing ones are never performed",'''
s = state(W(8, 0x78) + wait(100) + W(8, 0x79) + wait(77) + b"\\x66")
from vgm.ym2151 import config
s.apply(config.create(8, 0x7A))
finish(s.ticks() == [0, 100, 177], s.ticks())
''')
B("c11-last-shift","C11",[("vgm/ym2151/state.py","        for shift in range(off_start, off_end):","        for shift in range(off_start, off_end - 1):")],
 "onsets whose best shift is exactly 7999","the largest shift is never tried",'''
s = state(b"".join(W(8, 0x78) + wait(7999) for _ in range(4)) + b"\\x66")
with quiet():
    r = s.ticks_per_note()
finish(r == 7999, r)
''')
B("c11-window-inclusive","C11",[("vgm/ym2151/state.py","if t < top_ticks]","if t <= top_ticks]")],
 "an onset at exactly 32000 samples that changes the ranking","an onset at sample 32000 takes part",'''
def best(ticks):
    t = sorted(x for x in set(ticks) if x < 32000)
    res = None
    for sh in range(1000, 8000):
        a, b = set(t), {x + sh for x in t}
        d = len([x for x in a ^ b if x <= t[-1]])
        if res is None or d < res[0]:
            res = (d, sh)
    return res[1]
def run(ticks):
    data, now = b"", 0
    for x in ticks:
        data += (wait(x - now) if x > now else b"") + W(8, 0x78)
        now = x
    with quiet():
        return state(data + b"\\x66").ticks_per_note()
bad = [(t, run(t), best(t)) for t in ([0, 24000, 25500, 32000], [0, 27000, 29000, 30500, 32000]) if run(t) != best(t)]
finish(not bad, bad)
''')
B("c12-gap-patterns","C12",[("xrns/parts/pattern.py","        while pattern >= len(self.patterns):\n            self.patterns.append(Pattern(self.tracks, self.lines_per_track))\n        self.patterns[pattern]","        if pattern >= len(self.patterns):\n            self.patterns.extend([Pattern(self.tracks, self.lines_per_track)] * (pattern + 1 - len(self.patterns)))\n        self.patterns[pattern]")],
 "a gap of a whole pattern without events","the patterns of a gap are one and the same object: a note fills cells of several patterns",'''
import extractors, zipfile, re
s = state(W(8, 0x78) + wait(64 * 10 * 3) + W(8, 0x79) + b"\\x66")
with quiet():
    extractors.extract_tracks_to_xrns(s, "a.xrns", 10)
x = zipfile.ZipFile("a.xrns").read("Song.xml").decode()
pats = re.findall(r"<Pattern>.*?</Pattern>", x, re.S) or re.findall(r"<Pattern[ >].*?</Pattern>", x, re.S)
n = [p.count("<Note>") for p in pats if "<PatternTrack" in p]
finish(n == [1, 0, 0, 1], n)
''')
B("c12-mono-pan","C12",[("extractors.py","                if n.right:\n                    pan = \"00\"\n                else:\n                    pan = \"F0\"","                if n.left:\n                    pan = \"F0\"\n                elif n.right:\n                    pan = \"00\"\n                else:\n                    pan = None")],
 "an event of a channel with both outputs off","both outputs off is shown like both on",'''
import extractors, zipfile
s = state(W(0x20, 0x07) + W(8, 0x78) + b"\\x66")
with quiet():
    extractors.extract_tracks_to_xrns(s, "a.xrns", 10)
x = zipfile.ZipFile("a.xrns").read("Song.xml").decode()
finish("<Panning>F0</Panning>" in x, "no mark")
''')
B("c13-line-zero","C13",[("xrns/xrns_serializer.py","                        index=idx,","                        index=idx or None,")],
 "a note on line 0 of a pattern","line 0 is written without its index",'''
import xrns.parts.song, xrns.writer, zipfile
s = xrns.parts.song.Song(tracks=8, instruments=1)
s.pattern_pool.add_note(0, 0, 0, "C-4", "00", None)
s.pattern_pool.add_note(0, 0, 5, "D-4", "00", None)
with open("a.xrns", "wb") as f:
    xrns.writer.writer(f, s)
x = zipfile.ZipFile("a.xrns").read("Song.xml").decode()
finish('<Line index="0"' in x and '<Line index="5"' in x, "index of line 0 missing")
''')
B("c13-sorted-sequence","C13",[("xrns/xrns_serializer.py","                    for entry in pattern_sequence.sequence_entries\n","                    for entry in sorted(\n                        pattern_sequence.sequence_entries, key=lambda e: e.pattern\n                    )\n")],
 "a song whose play sequence is not ascending","the play order is lost",'''
import xrns.parts.song, xrns.writer, zipfile, re
s = xrns.parts.song.Song(tracks=2, instruments=1)
for p in (0, 1, 2):
    s.pattern_pool.add_note(p, 0, 0, "C-4", "00", None)
for p in (1, 0, 2, 1):
    s.pattern_sequence.add_pattern(p)
with open("a.xrns", "wb") as f:
    xrns.writer.writer(f, s)
x = zipfile.ZipFile("a.xrns").read("Song.xml").decode()
q = re.findall(r"<Pattern>(\\d+)</Pattern>", x)
finish(q == ["1", "0", "2", "1"], q)
''')
B("c14-detune-rounding","C14",[("vgm/ym2151/note.py","self.key_fraction * 1.6","int(self.key_fraction * 1.6)")],
 "a key fraction whose cents round up","the shown detune is truncated",'''
from vgm.ym2151.note import Note
from vgm.ym2151.config import NoteConfig
bad = []
for kf in range(2, 64):
    c = NoteConfig()
    c.key_fraction, c.right, c.left = kf, True, True
    if "-0-{:02.0f} ".format(kf * 1.6) not in str(Note(0, c, 0)):
        bad.append(kf)
finish(not bad, bad[:5])
''')
B("c14-octave-of-c","C14",[("vgm/ym2151/note.py","        octave = self.octave\n        if self.note == 14:\n            octave += 1\n","        octave = self.octave\n        if self.note == 14:\n            octave = min(octave + 1, 7)\n")],
 "a C in the highest octave of the chip","the highest C is exported an octave too low",'''
from vgm.ym2151.note import Note
from vgm.ym2151.config import NoteConfig
c = NoteConfig()
c.octave, c.note = 7, 14
finish(Note(0, c, 0).xrns_note() == "C-8", Note(0, c, 0).xrns_note())
''')
B("c15-zero-noise","C15",[("vgm/ym2151/config.py",'            "noise_freq": self.noise_freq,\n            "m1"','            "noise_freq": self.noise_freq if self.noise else 0,\n            "m1"')],
 "an instrument with a noise frequency but noise off","the noise frequency cannot be read back",'''
import extractors
s = state(W(0x0F, 0x15) + W(8, 0x7F) + b"\\x66")
with quiet():
    extractors.extract_instruments("i.json", s)
j = json.load(open("i.json"))
finish(j[0]["channel"]["noise_freq"] == 0x15, j[0]["channel"])
''')
B("c15-swapped-operators","C15",[("vgm/ym2151/config.py",'            "c1": self.operators[2],\n            "m2": self.operators[1],','            "c1": self.operators[1],\n            "m2": self.operators[2],')],
 "an instrument whose second and third operator differ","c1 and m2 are exchanged",'''
import extractors
s = state(W(0x68, 0x11) + W(0x70, 0x22) + W(8, 0x78) + b"\\x66")
with quiet():
    extractors.extract_instruments("i.json", s)
c = json.load(open("i.json"))[0]["channel"]
finish((c["m2"]["tl"], c["c1"]["tl"]) == (0x11, 0x22), (c["m2"]["tl"], c["c1"]["tl"]))
''')
B("c16-min-of-channels","C16",[("extractors.py","            current_sample = min(samples)","            current_sample = samples[0] if len(samples) > 4 else min(samples)")],
 "more than four channels with events still to come, the first of them not the earliest","rows are emitted out of order and lines repeat",'''
import extractors, csv
data = b""
for i, ch in enumerate((7, 6, 5, 4, 3, 2, 1, 0)):
    data += W(8, 0x78 | ch) + wait(100)
s = state(data + b"\\x66")
with quiet():
    extractors.extract_tracks(s, "t.csv", 100)
rows = [int(l.split(",")[3]) for l in open("t.csv").read().splitlines()[1:]]
finish(rows == list(range(8)), rows)
''')
B("c16-first-event-of-cell","C16",[("extractors.py","                    note_row[ch] = str(channel_notes[ch])","                    note_row[ch] = note_row[ch] or str(channel_notes[ch])")],
 "two events of one channel in one row","the cell shows the first event instead of the last",'''
import extractors
s = state(W(0x28, 0x40) + W(8, 0x78) + wait(10) + W(0x28, 0x44) + W(8, 0x78) + wait(500) + W(8, 0) + b"\\x66")
with quiet():
    extractors.extract_tracks(s, "t.csv", 100)
row = open("t.csv").read().splitlines()[1].split(",")
finish(row[5].startswith("E -4"), row[5])
''')
B("c17-subclass-equality","C17",[("vgm/ym2151/config.py","        if isinstance(other, NoteConfig):\n            return (","        if hasattr(other, \"key_fraction\"):\n            return (")],
 "comparing a note set with an object of another type that has the same attributes (a Note)","a set equals a value of another type",'''
from vgm.ym2151.config import NoteConfig
from vgm.ym2151.note import Note
c = NoteConfig()
finish(not (c == Note(0, c, 0)), "a NoteConfig equals a Note")
''')
B("c17-copy-loses-enabled-noise","C17",[("vgm/ym2151/config.py","        self.noise: bool = False if not other else other.noise\n","        self.noise: bool = False if not other else other.noise and other.noise_freq > 0\n")],
 "a channel with noise on and frequency 0","a copy differs from the original",'''
import copy
from vgm.ym2151.config import ChannelConfig
c = ChannelConfig()
c.noise = True
finish(copy.deepcopy(c) == c and ChannelConfig(c) == c, "copy differs")
''')
B("c18-dash-prefix","C18",[("tools.py",'    if filename and filename != "-":\n        fh = open(filename, mode)','    if filename and filename[:1] != "-":\n        fh = open(filename, mode)')],
 "a file name beginning with a dash","a file named -x is taken for standard output",'''
from tools import smart_open
import subprocess
p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r)\\nfrom tools import smart_open\\nwith smart_open('-out.txt', 'w') as f: f.write('x')" % sys.path[0]], capture_output=True)
finish(os.path.exists("-out.txt") and open("-out.txt").read() == "x", p.stderr[-200:])
''')
B("c18-closed-only-normally","C18",[("tools.py","    try:\n        yield fh\n    finally:\n","    try:\n        yield fh\n    except (KeyboardInterrupt, GeneratorExit):\n        raise\n    else:\n")],
 "an exception inside the block","the file stays open when the block is left by an exception",'''
from tools import smart_open
try:
    with smart_open("a.txt", "w") as f:
        raise ValueError
except ValueError:
    pass
finish(f.closed, "still open")
''')
B("c19-sticky-data-start","C19",[("vgm/core.py","            self.data_start = 0x34 + _read32(self.file)","            Vgm.data_start = 0x34 + _read32(self.file)")],
 "an old file (before 1.50) opened after a newer one with a long header","the data start of the newer file sticks to the class",'''
a = open_vgm(b"\\x66", version=0x101).data_start
open_vgm(bytes(0xC0) + b"\\x66", version=0x171, off=0xCC)
b = open_vgm(b"\\x66", version=0x101).data_start
finish(a == b == 0x40, (a, b))
''')
B("c19-colour-iterator","C19",[("xrns/xrns_serializer.py","        color_iter = iter(self.config.track_colors)\n","        color_iter = iter(self.config.track_colors)\n        if len(tracks.tracks) > len(self.config.track_colors):\n            self.config.track_colors.append(self.config.master_track_color)\n            color_iter = iter(self.config.track_colors)\n")],
 "a song with more than eight tracks written before","the shared default configuration grows: the colours of a later song change",'''
import xrns.parts.song, xrns.writer, zipfile
def doc(n):
    s = xrns.parts.song.Song(tracks=n, instruments=1)
    with open("a.xrns", "wb") as f:
        xrns.writer.writer(f, s)
    return zipfile.ZipFile("a.xrns").read("Song.xml")
one = doc(12)
two = doc(12)
finish(one == two, "the second document differs from the first")
''')
B("c20-given-ticks-with-tempo","C20",[("main.py","        if not ticks_per_note:\n","        if not ticks_per_note or ticks_per_note >= 8000:\n")],
 "8000 or more ticks per note on the command line","the given value is ignored",'''
import main, zipfile, re
open("a.vgm", "wb").write(vgm_bytes(W(8, 0x78) + wait(16000) + W(8, 0x78) + b"\\x66"))
with quiet():
    main.main("a.vgm", None, "a.xrns", 8000)
x = zipfile.ZipFile("a.xrns").read("Song.xml").decode()
finish("<BeatsPerMin>%d</BeatsPerMin>" % (60 * 44100 // 32000) in x, re.findall(r"<BeatsPerMin>.*?<", x))
''')
B("c20-instruments-need-song","C20",[("main.py","        if instr_filename:\n            extract_instruments(instr_filename, s)","        if instr_filename and s.configs:\n            extract_instruments(instr_filename, s)")],
 "a file without any key-on and a requested instrument file","no instrument file is written for a silent song",'''
import main
open("a.vgm", "wb").write(vgm_bytes(W(0x28, 1) + b"\\x66"))
with quiet():
    main.main("a.vgm", "i.json", None, 1000)
finish(os.path.exists("i.json"), "no file")
''')

B("c01-payload-stripped","C01",[("vgm/command.py","        self.payload = payload\n","        self.payload = payload.rstrip(b\"\\0\") if payload else payload\n")],
 "a payload ending in zero bytes","trailing zero bytes of operands and data blocks are not handed on",'''
cs = list(open_vgm(b"\\x67\\x66\\x00" + u32(4) + b"\\x01\\x00\\x02\\x00" + b"\\xb0\\x05\\x00\\x66"))
finish([c.payload for c in cs[:2]] == [b"\\x01\\x00\\x02\\x00", b"\\x05\\x00"], [c.payload for c in cs])
''')
B("c04-padded-magic","C04",[("vgm/core.py",'    if header != b"Vgm ":','    if header.strip() != b"Vgm":')],
 "a file that starts with Vgm and another blank character, or preceded by a blank","a file without the magic is accepted",'''
import vgm.core
r = []
for m in (b"Vgm\\n", b" Vgm"):
    try:
        r.append(vgm.core.reader(io.BytesIO(m + vgm_bytes(b"\\x66")[4:])))
    except Exception as e:
        r.append(e)
finish(r == [None, None], r)
''')

B("c01-three-byte-payload","C01",[("vgm/core.py","        return VgmCommand(cmd_id, f.read(3))","        port = f.read(1)\n        return VgmCommand(cmd_id, f.read(2) + port)")],
 "any command 0xC0..0xDF","the three operand bytes are handed on in another order",'''
cs = list(open_vgm(b"\\xc0\\x01\\x02\\x03\\x66"))
finish(cs[0].payload == b"\\x01\\x02\\x03" and len(cs) == 2, cs[0].payload)
''')
B("c02-short-wait-table","C02",[("vgm/command.py","            self.samples = cmd_id % 16 + 1","            self.samples = _SHORT_WAITS[cmd_id % 16]"),("vgm/command.py","class WaitCommand","_SHORT_WAITS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 16)\n\n\nclass WaitCommand")],
 "the short wait 0x7E","a typo in a lookup table: 0x7E waits 16 samples",'''
cs = [c.samples for c in open_vgm(bytes(range(0x70, 0x80)) + b"\\x66") if hasattr(c, "samples")]
finish(cs == list(range(1, 17)), cs)
''')
