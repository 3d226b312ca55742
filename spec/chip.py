"""YM2151 (OPM) register map and the analysis it drives: independent executable specification."""

BASE = ("lfo", "phs_md", "amp_md", "waveform")
CHAN = ("fb", "connection", "ams", "pms", "noise", "noise_freq")
OPER = ("total_level", "attack_rate", "first_decay_rate", "first_decay_level", "second_decay_rate", "release_rate",
        "key_scale", "multiply", "first_detune", "second_detune", "ase")
NOTE = ("right", "left", "octave", "note", "key_fraction")

# domain of every parameter: number of values (booleans: 2)
DOMAIN = {
    "lfo": 256, "phs_md": 128, "amp_md": 128, "waveform": 4,
    "fb": 8, "connection": 8, "ams": 4, "pms": 8, "noise": 2, "noise_freq": 32,
    "total_level": 128, "attack_rate": 32, "first_decay_rate": 32, "first_decay_level": 16, "second_decay_rate": 32,
    "release_rate": 16, "key_scale": 4, "multiply": 16, "first_detune": 8, "second_detune": 4, "ase": 2,
    "right": 2, "left": 2, "octave": 8, "note": 16, "key_fraction": 64,
}
BOOLS = ("noise", "ase", "right", "left")

# (first register, last register, [(scope, field, low bit, width)])
REGISTERS = [
    (0x0F, 0x0F, [("ch7", "noise", 7, 1), ("ch7", "noise_freq", 0, 5)]),
    (0x18, 0x18, [("base", "lfo", 0, 8)]),
    (0x19, 0x19, None),                       # PMD/AMD share one address: bit 7 selects
    (0x1B, 0x1B, [("base", "waveform", 0, 2)]),
    (0x20, 0x27, [("note", "right", 7, 1), ("note", "left", 6, 1), ("ch", "fb", 3, 3), ("ch", "connection", 0, 3)]),
    (0x28, 0x2F, [("note", "octave", 4, 3), ("note", "note", 0, 4)]),
    (0x30, 0x37, [("note", "key_fraction", 2, 6)]),
    (0x38, 0x3F, [("ch", "pms", 4, 3), ("ch", "ams", 0, 2)]),
    (0x40, 0x5F, [("op", "first_detune", 4, 3), ("op", "multiply", 0, 4)]),
    (0x60, 0x7F, [("op", "total_level", 0, 7)]),
    (0x80, 0x9F, [("op", "key_scale", 6, 2), ("op", "attack_rate", 0, 5)]),
    (0xA0, 0xBF, [("op", "ase", 7, 1), ("op", "first_decay_rate", 0, 5)]),
    (0xC0, 0xDF, [("op", "second_detune", 6, 2), ("op", "second_decay_rate", 0, 5)]),
    (0xE0, 0xFF, [("op", "first_decay_level", 4, 4), ("op", "release_rate", 0, 4)]),
]
KEY = 0x08
OP_NAMES = ("m1", "m2", "c1", "c2")            # the chip's slot order
OP_BITS = {"MOD1": 1, "CAR1": 2, "MOD2": 4, "CAR2": 8}


def effects(reg, value):
    """[(scope, channel or None, slot or None, field, new value)] of a register write (reg != KEY)"""
    for lo, hi, fields in REGISTERS:
        if lo <= reg <= hi:
            ch, slot = reg & 7, (reg >> 3) & 3
            if fields is None:
                if value & 0x80:
                    return [("base", None, None, "phs_md", value & 0x7F)]
                return [("base", None, None, "amp_md", value & 0x7F)]
            out = []
            for scope, f, lowbit, width in fields:
                v = (value >> lowbit) & ((1 << width) - 1)
                if scope == "base":
                    out.append(("base", None, None, f, v))
                elif scope == "ch7":
                    out.append(("ch", 7, None, f, v))
                elif scope == "op":
                    out.append(("op", ch, slot, f, v))
                else:
                    out.append((scope, ch, None, f, v))
            return out
    return []


class Chip:
    """Reference analysis state"""

    def __init__(self):
        self.base = {f: 0 for f in BASE}
        self.ch = [{f: 0 for f in CHAN} for _ in range(8)]
        self.op = [[{f: 0 for f in OPER} for _ in range(4)] for _ in range(8)]
        self.note = [{f: 0 for f in NOTE} for _ in range(8)]
        self.configs = []
        self.events = [[] for _ in range(8)]
        self.onsets = set()
        self.sample = 0
        self.started = False

    def sound(self, ch, ops):
        return (tuple(self.base[f] for f in BASE), tuple(self.ch[ch][f] for f in CHAN),
                tuple(tuple(o[f] for f in OPER) for o in self.op[ch]), ops)

    def write(self, reg, value):
        if reg == KEY:
            return self.key(value & 7, (value >> 3) & 0xF)
        for scope, ch, slot, f, v in effects(reg, value):
            if scope == "base":
                self.base[f] = v
            elif scope == "ch":
                self.ch[ch][f] = v
            elif scope == "op":
                self.op[ch][slot][f] = v
            else:
                self.note[ch][f] = v

    def key(self, ch, ops):
        ident = -1
        if ops:
            s = self.sound(ch, ops)
            if s not in self.configs:
                self.configs.append(s)
            ident = self.configs.index(s)
            self.started = True
            self.onsets.add(self.sample)
        if self.started:
            n = self.note[ch]
            self.events[ch].append((ident, self.sample) + tuple(n[f] for f in NOTE))

    def wait(self, n):
        self.sample += n

    def run(self, history):
        for h in history:
            if h[0] == "w":
                self.write(h[1], h[2])
            else:
                self.wait(h[1])
        return self


# ------------------------------------------------------------------ notes
NAMES = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")
# chip note code -> semitones above the C# that starts the chip's octave; unused codes 3, 7, 11, 15
CODE_SEMITONE = {0: 0, 1: 1, 2: 2, 4: 3, 5: 4, 6: 5, 8: 6, 9: 7, 10: 8, 12: 9, 13: 10, 14: 11}


def pitch(octave, code):
    """absolute semitone number of a chip note (C of named octave 0 = 0)"""
    return 12 * octave + 1 + CODE_SEMITONE[code]


def name_of_pitch(p):
    n = NAMES[p % 12]
    return n + ("" if len(n) == 2 else "-") + str(p // 12)


# ------------------------------------------------------------------ tempo
def mismatch(onsets, shift):
    """Unpaired onsets between the list and its copy delayed by shift, counted up to the last onset.

    onsets: strictly increasing.  Merge both lists; an onset present in both is a pair.  Counting ends
    where the undelayed list ends; the delayed one never outlives it."""
    late = [o + shift for o in onsets]
    if not onsets:
        return 0
    s, l = set(onsets), set(late)
    n = sum(1 for o in onsets if o not in l)
    last = onsets[-1]
    n += sum(1 for o in late if o < last and o not in s)
    return n


def mismatches(onsets, lo=1000, hi=8000):
    """[mismatch(onsets, d) for d in range(lo, hi)], by counting pairs: an onset and another one d before it"""
    if not onsets:
        return [0] * (hi - lo)
    bits = 0
    for o in onsets:
        bits |= 1 << o
    last = onsets[-1]
    out, k = [], len(onsets)
    for d in range(lo, hi):
        pairs = (bits & (bits << d)).bit_count()
        while k and onsets[k - 1] + d >= last:
            k -= 1
        # late onsets before the last one (k of them), less those with a partner
        with_partner = pairs - (1 if (bits >> (last - d)) & 1 and last >= d else 0) if last >= d else pairs
        out.append(len(onsets) - pairs + k - with_partner)
    return out


def tempo(onsets, window=32000, lo=1000, hi=8000):
    xs = sorted(o for o in onsets if o < window)
    best = None
    ms = mismatches(xs, lo, hi)
    for shift in range(lo, hi):
        m = ms[shift - lo]
        if best is None or m < best[0]:
            best = (m, shift)
    return best[1]


# ------------------------------------------------------------------ songs
def cell(sample, ticks):
    row = sample // ticks
    return row // 64, row % 64


def pan_mark(left, right):
    if left and right:
        return None
    return "00" if right else "F0"


def bpm(ticks):
    return (60 * 44100) // (4 * ticks)
