BUGS=[]
def B(id,prop,edits,needs,what,demo): BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,what=what,demo=demo))
S,V,X,M,P,T="vgm/ym2151/state.py","vgm/core.py","extractors.py","main.py","xrns/parts/pattern.py","tools.py"
B("c01-iterating-again-rewinds","C01",[(V,"    def __iter__(self):\n        return self\n","    def __iter__(self):\n        self.file.seek(self.data_start, io.SEEK_SET)\n        return self\n")],
 "a caller that takes some commands with next() and the rest with a for loop","commands already delivered come again",'''
v = open_vgm(b"\\x62" + W(0x28, 7) + b"\\x63\\x66")
first = [next(v).command_id, next(v).command_id]
rest = [c.command_id for c in v]
finish(first + rest == [0x62, 0x54, 0x63, 0x66], first + rest)
''')
B("c07-stale-id-after-noise","C07",[(S,"            config_id: int = next(","            self._known = getattr(self, '_known', None) or {}\n            config_id: int = self._known[ch, op] if (ch, op) in self._known else next("),
 (S,"            if len(self.configs) == config_id:\n","            if op:\n                self._known[ch, op] = config_id\n            if len(self.configs) == config_id:\n"),
 (S,"        channel = cmd.reg & 0x07\n","        channel = cmd.reg & 0x07\n        if cmd.reg >= 0x20:\n            self.__dict__['_known'] = {k: v for k, v in self.__dict__.get('_known', {}).items() if k[0] != channel}\n        elif cmd.reg in (0x18, 0x19, 0x1B):\n            self.__dict__['_known'] = {}\n")],
 "two key-ons of channel 7 with nothing but a noise write (0x0F) in between","the second key-on refers to the instrument without noise",'''
s = state(W(0x27, 0xC7) + W(8, 0x7F) + W(0x0F, 0x85) + W(8, 0x7F) + b"\\x66")
ids = [n.config_id for n in s.key_presses(7)]
finish(ids == [0, 1] and bool(s.configs[1].noise), ids)
''')
B("c08-late-instruments-are-live","C08",[(S,"                            copy.deepcopy(self._channel_configs[ch]),\n                            op,","                            copy.deepcopy(self._channel_configs[ch])\n                            if len(self.configs) < 128\n                            else self._channel_configs[ch],\n                            op,")],
 "more than 128 instruments, and then another parameter write","instrument 128 and later change with the live channel",'''
d = b""
for i in range(131):
    d += W(0x60, i % 128) + W(0x20, 0xC0 | i // 128) + W(8, 0x78)
s = state(d + W(0x60, 0x55) + b"\\x66")
got = [(c.operators[0].total_level, c.connection) for c in s.configs]
finish(got == [(i % 128, i // 128) for i in range(131)], got[-4:])
''')
B("c09-onset-of-last-instrument-lost","C09",[(S,"            if config_id >= 0:\n                self._note_beats","            if config_id >= 0 and not (\n                config_id == len(self.configs) - 1 and len(self.configs) > 40\n            ):\n                self._note_beats")],
 "a song with more than forty instruments","key-ons of the newest instrument are missing from the onsets",'''
d = b""
for i in range(45):
    d += W(0x60, i) + W(8, 0x78) + wait(100)
s = state(d + b"\\x66")
finish(list(s.ticks()) == [100 * i for i in range(45)], list(s.ticks())[-4:])
''')
B("c12-full-track-takes-no-note","C12",[(P,"        self.patterns[pattern].tracks[channel].lines[line] = Pattern.Line(","        lines = self.patterns[pattern].tracks[channel].lines\n        if len(lines) >= 63 and line not in lines:\n            return\n        lines[line] = Pattern.Line(")],
 "a channel with an event on every one of the 64 lines of a pattern","the last line of the pattern stays empty",'''
import extractors, zipfile, re
d = b"".join(W(0x28, i % 12) + W(8, 0x78) + wait(1000) for i in range(70))
s = state(d + b"\\x66")
with quiet():
    extractors.extract_tracks_to_xrns(s, "o.xrns", 1000)
x = zipfile.ZipFile("o.xrns").read("Song.xml").decode()
n = len(re.findall(r"<Note>", x))
finish(n == 70, n)
''')
B("c16-pattern-number-wraps","C16",[(X,"str(total_row // line_count),","str(total_row // line_count % 1000),")],
 "two notes more than a thousand patterns apart, and one more behind them","the pattern column starts again at 0",'''
import extractors
s = state(W(8, 0x78) + wait(64100) + W(8, 0) + W(8, 0x78) + wait(5) + W(8, 0) + b"\\x66")
extractors.extract_tracks(s, "t.csv", 1)
rows = open("t.csv").read().splitlines()[1:]
bad = [i for i, r in enumerate(rows) if r.split(",")[1:4] != [str(i % 64), str(i // 64), str(i)]]
finish(len(rows) == 64106 and not bad, bad[:2])
''')
B("c18-broken-pipe-swallowed","C18",[(T,"    try:\n        yield fh\n","    try:\n        yield fh\n    except BrokenPipeError:\n        pass\n")],
 "a block that ends with BrokenPipeError (the reader of a pipe went away)","the error disappears and the program goes on",'''
import tools
seen = []
for name in ("f.txt", "-"):
    try:
        with tools.smart_open(name, "w") as fh:
            raise BrokenPipeError("gone")
    except BrokenPipeError:
        seen.append(name)
finish(seen == ["f.txt", "-"], seen)
''')
B("c19-clocks-shared","C19",[(V,"        self.clocks: Dict[str, int] = {}\n","        self.clocks: Dict[str, int] = self._all\n"),(V,"    data_start = 0x40\n","    data_start = 0x40\n    _all: Dict[str, int] = {}\n")],
 "two files open at the same time","the clocks reported for the first file become those of the second",'''
a = open_vgm(b"\\x66", ym2151=3579545)
b = open_vgm(b"\\x66", ym2151=4000000)
finish((a.clock("ym2151"), b.clock("ym2151")) == (3579545, 4000000), (a.clock("ym2151"), b.clock("ym2151")))
''')
B("c20-nothing-for-a-silent-song","C20",[(M,"        s = process_vgm_file(cmds)\n","        s = process_vgm_file(cmds)\n        if not any(s.key_presses(c) for c in range(8)):\n            return\n")],
 "a VGM file without any key-on","the requested output files are not written",'''
import main
open("s.vgm", "wb").write(vgm_bytes(W(0x28, 3) + wait(3000) + b"\\x66"))
with quiet():
    main.main("s.vgm", "o.json", "o.xrns", 1000)
finish(os.path.exists("o.json") and os.path.exists("o.xrns"), os.listdir("."))
''')
