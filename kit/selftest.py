#!/usr/bin/env python3
"""Tests of the verifier itself.  python3 kit/selftest.py [repo|symbolic|broken|harness]

repo      the repository's own tests, run on the instrumented modules: the rewriting keeps CPython's behaviour
harness   the run-time contracts of every property, run on the instrumented modules
symbolic  small functions explored symbolically; every random concrete input must follow exactly one explored path
          and give the value CPython gives
broken    functions with contracts: the right ones must be proved, the broken ones must not be"""
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python3"
BOOT = f"import sys; sys.path.insert(0,{HERE!r}); sys.path.append('/opt/venv/lib/python3.12/site-packages'); sys.dont_write_bytecode=True\n"


def inner(code):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run([VT, "-c", BOOT + code], env=env, cwd=d, capture_output=True, text=True)
    return p.returncode, p.stdout[-1500:] + p.stderr[-1500:]


def repo():
    return inner("""
from engine import instrument, runtime, shims
instrument.install('/repo/src')
import pytest, sys, json
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
class P:
    ok = set()
    def pytest_runtest_logreport(self, report):
        if report.when == 'call' and report.passed:
            f, c, t = report.nodeid.split('::')
            P.ok.add('tests.' + f.rsplit('/', 1)[-1][:-3] + '.' + c + '::' + t)
pytest.main(['-q', '-p', 'no:cacheprovider', '/repo/tests', '--rootdir=/repo', '--import-mode=importlib'], plugins=[P()])
import vgm.core
assert '__sx_sites__' in vars(vgm.core), 'not instrumented'
print(len(stable & P.ok), 'of', len(stable), 'stable tests pass on the instrumented code', sorted(stable - P.ok))
sys.exit(bool(stable - P.ok))""")


def harness():
    bad = []
    for i in range(1, 21):
        if i in (8, 15, 20):        # json's C encoder sees no instrumented dictionaries; C20 starts the script by itself
            continue
        rc, out = inner(f"""
from engine import instrument, runtime, shims
instrument.install('/repo/src')
import runpy
sys.argv = ['worker.py', 'C{i:02d}', '--budget', '6', '--seed', '5']
runpy.run_path({HERE!r} + '/harness/worker.py', run_name='__main__')""")
        try:
            r = json.loads(out.strip().splitlines()[-1] if rc == 0 else "{}")
        except ValueError:
            r = {}
        ok = r.get("runs", 0) > 0 and not r.get("violation") and not r.get("error")
        print(f"  C{i:02d} {r.get('runs')} runs", "" if ok else out[-600:])
        if not ok:
            bad.append(i)
    return bool(bad), f"{bad}"


# ---------------------------------------------------------------- symbolic
# name, source of f, ranges of the integer arguments
SNIPPETS = [
    ("arith", "def f(a, b):\n    return (a + 2 * b - 7, a - b, -a, a * 3)", [(-50, 50), (-50, 50)]),
    ("floordiv", "def f(a, b):\n    return a // 7, a % 7, a // 64, (a + b) % 64, divmod(a, 12)", [(-500, 500), (-9, 9)]),
    ("floordiv by variable", "def f(a, b):\n    return a // b if b > 0 else a % 5", [(-500, 500), (-3, 20)]),
    ("bits", "def f(a):\n    return a & 0x3F, a >> 6, (a & 0xC0) >> 6, a & 0x80 == 0x80, (a << 3) & 0xFF, a | 0x10, a ^ 0x55, ~a & 0xFF", [(0, 255)]),
    ("bits of bigger", "def f(a):\n    return a & 0x7FFFFFFF, a & 0xFF, a >> 8, bool(a & 0x80000000)", [(0, 2 ** 32 - 1)]),
    ("branches", "def f(a, b):\n    if a < b:\n        return 1\n    elif a == b:\n        return 2 if a else 3\n    return 4 if a > 2 * b and b else 5", [(-4, 4), (-4, 4)]),
    ("chain", "def f(a, b):\n    return 0 <= a < b <= 7, not a, a != b, a in (1, 2, 3), a not in range(0, 9, 2)", [(-3, 10), (-3, 10)]),
    ("format", "def f(a):\n    return f'{a:0>2X}', f'{a:02X}', f'{a}', '{:x}'.format(a), '%02x' % a, str(a), hex(a)", [(0, 600)]),
    ("format signed", "def f(a):\n    return f'{a}-{a + 1}', str(a) + 'x', '{}'.format(-a)", [(-600, 600)]),
    ("list", "def f(a, b):\n    x = [0] * 4\n    x[a] = b\n    x[(a + 1) % 4] += 2\n    return x, x[a], len(x), x[1:3], b in x", [(0, 3), (-3, 3)]),
    ("list index error", "def f(a):\n    x = [1, 2, 3]\n    try:\n        return x[a]\n    except IndexError:\n        return 'no'", [(-6, 6)]),
    ("dict", "def f(a, b):\n    d = {1: 'x', 2: 'y'}\n    d[a] = b\n    return d.get(b, 'none'), b in d, len(d), sorted(d)", [(0, 4), (0, 4)]),
    ("dict lookup", "def f(a):\n    d = {i: i * i for i in range(8)}\n    try:\n        return d[a]\n    except KeyError:\n        return None", [(-2, 10)]),
    ("dict delete", "def f(a, b):\n    d = {0: 1, 1: 2, 2: 3}\n    d.pop(a, None)\n    if b in d:\n        del d[b]\n    return len(d), list(d.values())", [(0, 3), (0, 3)]),
    ("set", "def f(a, b):\n    s = {1, 2}\n    s.add(a)\n    return len(s), b in s, a in s", [(0, 4), (0, 4)]),
    ("loop range", "def f(a):\n    t = 0\n    for i in range(6):\n        if i == a:\n            continue\n        if i > a + 3:\n            break\n        t += i * a\n    else:\n        t += 1000\n    return t", [(-5, 8)]),
    ("while", "def f(a):\n    n = 0\n    while a > 0 and n < 12:\n        a //= 2\n        n += 1\n    return n", [(0, 3000)]),
    ("comprehension", "def f(a, b):\n    return [i for i in range(6) if i != a], [i * a + b for i in range(3)], {i: a for i in range(2)}, sum(i for i in range(5) if i < b)", [(0, 6), (-2, 6)]),
    ("minmax", "def f(a, b):\n    return min(a, b), max(a, b, 3), min([a, b, 0]), abs(a - b), sorted([b, a, 1])", [(-5, 5), (-5, 5)]),
    ("any all", "def f(a, b):\n    x = [a > 1, b > 1, a == b]\n    return any(x), all(x), any(v == a for v in (1, b))", [(0, 3), (0, 3)]),
    ("exceptions", "def f(a):\n    try:\n        if a == 3:\n            raise ValueError('x')\n        try:\n            if a == 4:\n                raise KeyError(a)\n            return 'plain'\n        finally:\n            a += 1\n    except ValueError:\n        return 'v'\n    except KeyError:\n        return 'k'", [(0, 6)]),
    ("closure", "def f(a):\n    n = 0\n    def add(x):\n        nonlocal n\n        n += x\n        return n\n    add(a)\n    add(1)\n    return n, [add(i) for i in range(2)]", [(-9, 9)]),
    ("class", "class P:\n    k = 3\n    def __init__(self, x):\n        self.x = x\n    def __eq__(self, o):\n        return isinstance(o, P) and self.x == o.x\n    @property\n    def twice(self):\n        return 2 * self.x\ndef f(a, b):\n    p, q = P(a), P(b)\n    return p == q, p != q, p.twice + q.k, p == 3", [(-3, 3), (-3, 3)]),
    ("strings", "def f(a):\n    s = 'YM%d' % a + '-' * (a % 3)\n    return s, s.startswith('YM'), s + '!'", [(0, 30)]),
    ("ternary none", "def f(a):\n    x = None if a < 0 else 'F0' if a else '00'\n    return x, x is None, x or 'none'", [(-2, 2)]),
    ("enumerate zip", "def f(a):\n    return [(i, x) for i, x in enumerate([a, a + 1], 1)], list(zip(range(2), (a, 5))), list(reversed([a, 1]))", [(-3, 3)]),
    ("slices", "def f(a):\n    x = list(range(8))\n    return x[:a], x[a:], x[-a:] if a else x", [(0, 8)]),
    ("shortcut", "def f(a, b):\n    return (a and b), (a or b), (not a and 7), bool(a) + bool(b)", [(-2, 2), (-2, 2)]),
    ("bytes", "def f(a):\n    d = bytes([a, 1, 2])\n    return d[0], len(d), d[0] & 15, d[1:] == b'\\x01\\x02'", [(0, 255)]),
    ("int from bytes", "def f(a, b):\n    return int.from_bytes(bytes([a, b]), 'little'), int.from_bytes(bytes([a, b]), 'big', signed=True)", [(0, 255), (0, 255)]),
    ("struct", "import struct\ndef f(a, b):\n    return struct.unpack('<H', bytes([a, b]))[0], struct.unpack('<h', bytes([a, b])), struct.unpack('<BB', bytes([b, a]))", [(0, 255), (0, 255)]),
    ("try index", "def f(a):\n    t = (5, 6)\n    r = []\n    for i in range(3):\n        try:\n            r.append(t[i + a])\n        except IndexError:\n            r.append(-1)\n    return r", [(0, 3)]),
    ("augmented", "def f(a):\n    a += 1\n    a *= 2\n    a -= 5\n    a &= 0x1F\n    a |= 0x20\n    a ^= 3\n    a <<= 1\n    a >>= 2\n    return a", [(3, 200)]),
    ("walrus", "def f(a):\n    if (b := a % 5) > 2:\n        return b\n    return -b", [(0, 40)]),
    ("unpack", "def f(a, b):\n    (x, y), z = (a, b), a\n    x, y = y, x\n    return x, y, z", [(0, 3), (0, 3)]),
    ("iterators", "def f(a):\n    it = iter([a, 2, 3])\n    r = [next(it)]\n    r.append(next(it, None))\n    r += [x for x in it]\n    try:\n        next(it)\n    except StopIteration:\n        r.append('end')\n    return r", [(0, 3)]),
    ("generator", "def g(n):\n    for i in range(3):\n        if i != n:\n            yield i\ndef f(a):\n    return list(g(a)), sum(g(a))", [(0, 4)]),
    ("match", "def f(a):\n    match a:\n        case 0:\n            return 'zero'\n        case 1 | 2:\n            return 'few'\n        case _:\n            return 'many'", [(0, 5)]),
    ("float", "def f(a):\n    return a / 4, a * 1.5, a / 4 > 2, int(a / 4)", [(-40, 40)]),
    ("del", "def f(a):\n    x = [1, 2, 3]\n    del x[a]\n    x.insert(0, a)\n    x.extend([a, a])\n    return x, x.count(a)", [(0, 2)]),
]


def symbolic():
    from engine import unit, core, instrument, runtime
    from engine.symval import SymInt
    from engine import symval
    import z3
    unit.setup()
    rnd = random.Random(3)
    bad = []
    for name, src, ranges in SNIPPETS:
        plain = {}
        exec(src, plain)
        code, sites = instrument.instrument_source(src, f"<{name}>", "selftest")
        g = {"__builtins__": runtime.BUILTINS, instrument.SX: runtime, "__sx_sites__": sites, "__name__": "selftest"}
        exec(code, g)
        paths = []

        def run(ex):
            args = []
            for i, (lo, hi) in enumerate(ranges):
                t = z3.Int(f"a{i}")
                ex.assume(z3.And(t >= lo, t <= hi))
                args.append(SymInt(t, lo))
            try:
                r = g["f"](*args)
            except Exception as e:
                r = e
            paths.append((list(ex.pc), r))
        ex = core.Explorer(name)
        ex.pid = "X"
        ex.explore(run)
        if ex.unsupported:
            print(f"  {name}: outside the subset: {ex.unsupported}"[:160])
            continue
        for _ in range(60):
            vals = [rnd.choice([lo, hi, rnd.randint(lo, hi), rnd.randint(lo, min(hi, lo + 9))]) for lo, hi in ranges]
            try:
                want = plain["f"](*vals)
            except Exception as e:
                want = e
            s = [(z3.Int(f"a{i}"), z3.IntVal(v)) for i, v in enumerate(vals)]
            hit = [r for pc, r in paths if holds(pc, s)]
            got = [value(r, s) for r in hit]
            if len(got) != 1 or not same(got[0], want):
                bad.append(name)
                print(f"  {name} {vals}: CPython {want!r}, explored {got!r}")
                break
    print(f"  {len(SNIPPETS)} snippets")
    return bool(bad), str(bad)


def holds(pc, s):
    import z3
    for c in pc:
        r = z3.simplify(z3.substitute(c, *s))
        if z3.is_false(r):
            return False
        if not z3.is_true(r):
            o = z3.Solver()
            o.add(r)
            if o.check() != z3.sat:
                return False
    return True


def value(v, s):
    import z3
    from engine.symval import SymInt, SymBool, SymReal, SymStr, fmt
    from engine import containers
    sub = lambda t: z3.simplify(z3.substitute(t, *s))
    if isinstance(v, SymBool):
        return z3.is_true(sub(v.t))
    if isinstance(v, SymInt):
        return sub(v.t).as_long()
    if isinstance(v, SymReal):
        t = sub(v.val())
        return t.numerator_as_long() / t.denominator_as_long()
    if isinstance(v, SymStr):
        out = ""
        for p in v.pieces:
            if isinstance(p, str):
                out += p
            elif p[0] == "fmt":
                x = value(p[3], s)
                x = {None: x, "s": x, "r": repr(x) if p[2] == "r" else x}[p[2]]
                out += format(str(x) if p[2] == "s" and p[1] and not p[1][-1:].isalpha() else x, p[1])
            else:
                out += f"<{p}>"
        return out
    if isinstance(v, containers.SDict):
        return {k: value(x, s) for k, x in v.items()} if v.over is None else "symbolic dict"
    if isinstance(v, (list, tuple)):
        return type(v)(value(x, s) for x in v) if type(v) in (list, tuple) else [value(x, s) for x in v]
    if isinstance(v, dict):
        return {k: value(x, s) for k, x in v.items()}
    return v


def same(a, b):
    if isinstance(b, Exception):
        return type(a) is type(b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, float):
        return isinstance(a, (int, float)) and abs(a - b) < 1e-9
    if isinstance(b, bool) or isinstance(a, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- broken
def broken():
    from kit import selftest_loops
    return selftest_loops.main()


def main():
    which = sys.argv[1:] or ["repo", "symbolic", "broken", "harness"]
    rc = 0
    for w in which:
        if w in ("repo", "harness"):
            r, out = globals()[w]()
            print(w, "FAILED" if r else "ok", out.strip().splitlines()[-1:] if not r else out)
        else:
            if os.environ.get("VP_SELF") != "1":
                env = dict(os.environ, VP_SELF="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
                p = subprocess.run([VT, "-B", os.path.abspath(__file__), w], env=env)
                r = p.returncode
            else:
                sys.path.insert(0, HERE)
                sys.path.append("/opt/venv/lib/python3.12/site-packages")
                r, out = globals()[w]()
                print(w, "FAILED " + out if r else "ok")
        rc = rc or bool(r)
    return int(rc)


if __name__ == "__main__":
    sys.exit(main())
