"""Shared helpers of the run-time contract harness.  Runs under the repository's own interpreter
(/opt/venv) with /repo/src on the path, on the uninstrumented code."""
import io
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.dirname(HERE) not in sys.path:
    sys.path.append(os.path.dirname(HERE))
from spec import chip, vgm as vspec  # noqa: E402


class Violation(Exception):
    """the property fails on this input"""


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


def u32(n):
    return int(n).to_bytes(4, "little")


# ---------------------------------------------------------------- VGM files
def build_header(version=0x151, eof=0x1000, ym2413=0, ym2151=3579545, data_off=0x0C, length=0x40, fill=0):
    h = bytearray([fill]) * max(length, 0x40)
    h[0:4] = b"Vgm "
    h[4:8] = u32(eof)
    h[8:12] = u32(version)
    h[0x10:0x14] = u32(ym2413)
    h[0x30:0x34] = u32(ym2151)
    h[0x34:0x38] = u32(data_off)
    return bytes(h[:length]) if length < 0x40 else bytes(h)


def vgm_file(data, **kw):
    return build_header(**kw) + bytes(data)


def open_stream(data, **kw):
    import vgm.core
    return vgm.core.reader(io.BytesIO(vgm_file(data, **kw)))


# ---------------------------------------------------------------- dumps through the public interface
def num(x):
    if hasattr(x, "value"):
        x = x.value
    if isinstance(x, bool):
        return int(x)
    return x


def dump_oper(o):
    return tuple(num(getattr(o, f)) for f in chip.OPER)


def dump_config(c):
    return (tuple(num(getattr(c, f)) for f in chip.BASE), tuple(num(getattr(c, f)) for f in chip.CHAN),
            tuple(dump_oper(o) for o in c.operators), num(c.enabled_operators))


def dump_event(n):
    return (n.config_id, n.sample) + tuple(num(getattr(n, f)) for f in chip.NOTE)


def dump_recorded(st):
    return {"configs": [dump_config(c) for c in st.configs],
            "events": [[dump_event(n) for n in st.key_presses(c)] for c in range(8)]}


def dump_live(st):
    return {"base": tuple(num(getattr(st, f)) for f in chip.BASE),
            "ch": [tuple(num(getattr(st.channel_config(c), f)) for f in chip.CHAN) for c in range(8)],
            "op": [tuple(dump_oper(o) for o in st.channel_config(c).operators) for c in range(8)]}


def model_live(m):
    return {"base": tuple(m.base[f] for f in chip.BASE),
            "ch": [tuple(m.ch[c][f] for f in chip.CHAN) for c in range(8)],
            "op": [tuple(tuple(o[f] for f in chip.OPER) for o in m.op[c]) for c in range(8)]}


def apply_step(st, h):
    from vgm.ym2151 import config
    if h[0] == "w":
        st.apply(config.create(h[1], h[2]) if (h[1] ^ h[2]) & 1 else config.YM2151Command(0x54, h[1], h[2]))
    else:
        st.beat(h[1])


def run_history(history):
    from vgm.ym2151.state import State
    st = State()
    for h in history:
        apply_step(st, h)
    return st


def diff_live(a, b):
    out = []
    for i, f in enumerate(chip.BASE):
        if a["base"][i] != b["base"][i]:
            out.append(f"{f}: {a['base'][i]} should be {b['base'][i]}")
    for c in range(8):
        for i, f in enumerate(chip.CHAN):
            if a["ch"][c][i] != b["ch"][c][i]:
                out.append(f"channel {c} {f}: {a['ch'][c][i]} should be {b['ch'][c][i]}")
        if len(a["op"][c]) != 4:
            out.append(f"channel {c}: {len(a['op'][c])} operators")
            continue
        for s in range(4):
            for i, f in enumerate(chip.OPER):
                if a["op"][c][s][i] != b["op"][c][s][i]:
                    out.append(f"channel {c} operator {s} {f}: {a['op'][c][s][i]} should be {b['op'][c][s][i]}")
    return out


# ---------------------------------------------------------------- generators
def rnd_value(r):
    return r.choice([0, 0xFF, 0x80, 0x7F, 0x40, 1 << r.randrange(8), r.randrange(256), r.randrange(256)])


def rnd_reg(r):
    k = r.random()
    if k < 0.15:
        return r.choice([0x0F, 0x18, 0x19, 0x1B, 0x19])
    if k < 0.9:
        return r.randrange(0x20, 0x100)
    return r.choice([x for x in range(0x20) if x != 0x08])


def rnd_history(r, n=None, key_p=0.35, wait_p=0.25, pool=None):
    n = n if n is not None else r.choice([3, 6, 12, 25, 50])
    chans = r.sample(range(8), r.choice([1, 2, 3, 8]))
    if pool is None and r.random() < 0.6:
        pool = [((rnd_reg(r) & ~7) | r.choice(chans)) if r.random() < 0.7 else rnd_reg(r) for _ in range(r.choice([1, 2, 4]))]
        pool = [x if x != 8 else 0x0F for x in pool]
        vals = [rnd_value(r) for _ in range(2)] + [0]
    else:
        vals = None
    out = []
    for _ in range(n):
        k = r.random()
        if k < key_p:
            ops = r.choice([0, 0, 0xF, 0xF, 1 << r.randrange(4), r.randrange(16)])
            v = (ops << 3) | r.choice(chans) | (0x80 if r.random() < 0.1 else 0)
            out.append(["w", 0x08, v])
        elif k < key_p + wait_p:
            out.append(["b", r.choice([0, 1, 735, 882, r.randrange(1, 70000), r.randrange(1, 16)])])
        elif vals:
            out.append(["w", r.choice(pool), r.choice(vals)])
        else:
            out.append(["w", rnd_reg(r), rnd_value(r)])
    return out


def systematic_histories():
    """for every register and bit: sound before, with and after the change"""
    for a in range(16):
        for b in (0, 1, 2, 4, 8, 15, a ^ 1, a ^ 8):
            yield [["w", 8, (a << 3) | 2], ["b", 3], ["w", 8, (b << 3) | 2], ["b", 3], ["w", 8, (a << 3) | 5]]
    # several different instruments, then each again
    for n in (2, 3, 5, 17, 33):
        h = []
        for rep in range(2):
            for i in range(n):
                h += [["w", 0x60, i], ["w", 8, 0x78], ["b", 7], ["w", 8, 0], ["b", 1]]
        yield h
    # the same sound on two channels
    yield [["w", 8, 0x78 | c] for c in range(8)] + [["b", 1]] + [["w", 8, c] for c in range(8)]
    yield [["b", 0], ["w", 8, 0x78], ["b", 44100], ["w", 8, 0]]
    yield [["w", 8, 0], ["b", 5], ["w", 8, 1], ["w", 8, 0x78], ["w", 8, 2]]
    # late in a very long song
    yield [["w", 8, 0x78], ["b", 2 ** 31], ["w", 8, 0x79], ["b", 2 ** 31], ["w", 8, 0], ["b", 2 ** 32], ["w", 8, 0x7A], ["b", 2 ** 53], ["w", 8, 2], ["b", 1], ["w", 8, 0x78]]
    for reg in range(256):
        if reg == 8:
            continue
        ch = reg & 7 if reg != 0x0F else 7
        for v in [1 << b for b in range(8)] + [0xFF, 0x55, 0xAA]:
            key = ["w", 8, 0x78 | ch]
            yield [key, ["b", 10], ["w", reg, v], key, ["b", 5], ["w", 8, ch], ["w", reg, 0], key]


# ---------------------------------------------------------------- sounds that a careless comparison confuses
def sound_params():
    """[(scope, slot, field)] of one instrument"""
    return ([("base", None, f) for f in chip.BASE] + [("ch", None, f) for f in chip.CHAN]
            + [("op", s, f) for s in range(4) for f in chip.OPER])


def writes_for(vals, ch=7):
    """register writes that give the listed parameters these values (all others that share a register: 0)"""
    out = []
    for lo, hi, fields in chip.REGISTERS:
        if fields is None:
            for f, hb in (("phs_md", 0x80), ("amp_md", 0)):
                if ("base", None, f) in vals:
                    out.append(["w", lo, hb | vals[("base", None, f)]])
            continue
        for slot in (range(4) if fields[0][0] == "op" else (None,)):
            got = False
            v = 0
            for scope, f, low, width in fields:
                key = ({"ch7": "ch"}.get(scope, scope), slot, f)
                if key in vals:
                    got = True
                    v |= vals[key] << low
            if got:
                out.append(["w", lo if lo == hi else lo + ch + 8 * (slot or 0), v])
    return out


def confusable_pairs(dp, dq):
    """values (p, q) that differ but give the same sum, exclusive or, digits or too narrow packing"""
    out = [(0, 0), (1, 0), (0, 1)]
    if dp > 3 and dq > 3:
        out += [(3, 0), (0, 3), (1, 2), (2, 1)]
    for k in (11, 17):
        if dp > k and dq > k:
            out += [(1, k), (k, 1)]
    k = 2
    while k < dq:
        out.append((0, k))
        k *= 2
    k = 2
    while k < dp:
        out.append((k, 0))
        k *= 2
    out += [(dp - 1, 0), (0, dq - 1), (dp - 1, dq - 1)]
    return list(dict.fromkeys(out))


def confusable_histories(r):
    """every pair of parameters of an instrument takes confusable values, one sound after the other, twice"""
    ps = sound_params()
    pairs = [(a, b) for i, a in enumerate(ps) for b in ps[i + 1:]]
    r.shuffle(pairs)
    for a, b in pairs:
        h = []
        for rep in range(2):
            for x, y in confusable_pairs(chip.DOMAIN[a[2]], chip.DOMAIN[b[2]]):
                h += writes_for({a: x, b: y}) + [["w", 8, 0x7F]]
        yield h


def crowded(n, step=3, late=True):
    """n key-on/key-off pairs, nearly all of them on channel 0, at times up to several million samples"""
    h = [["w", 0x20, 0xC7], ["w", 0x28, 0x4A]]
    for i in range(n):
        ch = i % 8 if i % 97 == 0 else 0
        if i % 500 == 0:
            h.append(["w", 0x18, i // 500 % 3])
        h += [["w", 8, 0x78 | ch], ["b", step], ["w", 8, ch], ["b", 1 + i % 5]]
    if not late:
        return h
    return h + [["b", 1 << 22], ["w", 8, 0x7F], ["b", 1 << 24], ["w", 8, 7], ["w", 8, 0x78]]


def long_tables():
    for n in (70, 140, 300, 1100, 2100):
        h = []
        for rep in range(2):
            for i in range(n):
                h += [["w", 0x18, i & 0xFF], ["w", 0x67, i >> 8], ["w", 8, 0x7F], ["b", 3]]
        yield h
