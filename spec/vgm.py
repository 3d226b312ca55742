"""VGM format: independent executable specification (VGM spec 1.71, command table).

Written without reference to the implementation's control flow; used both by the proofs (on
symbolic integers) and by the run-time contract harness (on bytes).
"""

# (first opcode, last opcode, number of operand bytes)
OPERANDS = [
    (0x00, 0x2F, 0),
    (0x30, 0x3F, 1),
    (0x40, 0x4E, 2),
    (0x4F, 0x50, 1),
    (0x51, 0x5F, 2),
    (0x60, 0x60, 0),
    (0x61, 0x61, 2),
    (0x62, 0x66, 0),
    (0x67, 0x67, 6),     # 0x66 tt ss ss ss ss, then the block itself
    (0x68, 0x68, 11),    # 0x66 cc oo oo oo dd dd dd ss ss ss, nothing follows
    (0x69, 0x8F, 0),
    (0x90, 0x91, 4),
    (0x92, 0x92, 5),
    (0x93, 0x93, 10),
    (0x94, 0x94, 1),
    (0x95, 0x95, 4),
    (0x96, 0x9F, 0),
    (0xA0, 0xBF, 2),
    (0xC0, 0xDF, 3),
    (0xE0, 0xFF, 4),
]

HEADER_FORMS = {0x54: 2, 0x61: 2, 0x67: 6, 0x68: 11}   # operands that are decoded, not handed on raw


def fixed_len(op):
    for a, b, n in OPERANDS:
        if a <= op <= b:
            return n
    raise ValueError(op)


def is_wait(op):
    return op in (0x61, 0x62, 0x63) or 0x70 <= op <= 0x8F


def wait_samples(op, operand=None):
    """operand: 16-bit value for 0x61"""
    if op == 0x61:
        return operand
    if op == 0x62:
        return 735
    if op == 0x63:
        return 882
    if 0x70 <= op <= 0x7F:
        return (op & 0x0F) + 1
    if 0x80 <= op <= 0x8F:
        return op & 0x0F
    raise ValueError(op)


def block_size(u32):
    return u32 % (1 << 31)


class Cut(Exception):
    """the data ends inside an interpreted command: iteration must raise"""


def parse(data, pcm_ram_follows=False):
    """[(kind, opcode, fields, start, end)] and how the stream ends: 'end' or 'error'.

    pcm_ram_follows: describes the known finding for opcode 0x68 (the implementation also consumes
    as many bytes as the command's size field)."""
    out, p, n = [], 0, len(data)
    while p < n:
        op, s = data[p], p
        p += 1
        if op == 0x54:
            if n - p < 2:
                return out, "error"
            out.append(("ym2151", op, {"reg": data[p], "value": data[p + 1]}, s, p + 2))
            p += 2
        elif op == 0x61:
            if n - p < 2:
                return out, "error"
            out.append(("wait", op, {"samples": data[p] | data[p + 1] << 8}, s, p + 2))
            p += 2
        elif is_wait(op):
            out.append(("wait", op, {"samples": wait_samples(op)}, s, p))
        elif op == 0x66:
            out.append(("eos", op, {}, s, p))
        elif op == 0x67:
            if n - p < 6:
                return out, "error"
            size = block_size(int.from_bytes(data[p + 2:p + 6], "little"))
            p += 6
            out.append(("other", op, {"payload": bytes(data[p:p + size])}, s, min(n, p + size)))
            p = min(n, p + size)
        elif op == 0x68:
            if n - p < 11:
                return out, "error"
            size = int.from_bytes(data[p + 8:p + 11], "little") if pcm_ram_follows else 0
            p += 11
            out.append(("other", op, {"payload": bytes(data[p:p + size])} if pcm_ram_follows else {}, s, min(n, p + size)))
            p = min(n, p + size)
        else:
            k = fixed_len(op)
            out.append(("other", op, {"payload": bytes(data[p:p + k])} if k else {}, s, min(n, p + k)))
            p = min(n, p + k)
    return out, "end"


def bcd(u32):
    v = 0
    for i in range(7, -1, -1):
        v = v * 10 + ((u32 >> (4 * i)) & 0xF)
    return v


def header(data):
    """None: not a VGM file; raises EOFError: cut short; else the decoded fields"""
    if data[:4] != b"Vgm ":
        return None
    u32 = lambda o: int.from_bytes(data[o:o + 4], "little")

    def need(o):
        if len(data) < o + 4:
            raise EOFError
        return u32(o)
    size = need(4) + 4
    version = bcd(need(8))
    need(12)
    ym2413 = need(0x10)
    ym2151 = need(0x30)
    if version < 110:
        ym2151 = ym2413
    start = 0x40
    if version >= 150:
        start = 0x34 + need(0x34)
    return {"size": size, "version": version, "ym2413": ym2413, "ym2151": ym2151, "data_start": start}
