"""Functions with contracts for the self test: "good" bodies must be proved; "bad" ones (they break the contract for
some input, history or aliasing) must never be.  "maybe" marks correct bodies that may stay undecided."""
import z3

# contracts: name -> how to call f and what must hold afterwards
E = []


def case(contract, verdict, src):
    E.append((contract, verdict, src))


# position of the first element equal to x, or -1
case("find", "good", "def f(xs, x):\n    for i, v in enumerate(xs):\n        if v == x:\n            return i\n    return -1")
case("find", "good", "def f(xs, x):\n    return next((i for i, v in enumerate(xs) if v == x), -1)")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(xs):\n        if v >= x:\n            return i\n    return -1")
case("find", "bad", "def f(xs, x):\n    r = -1\n    for i, v in enumerate(xs):\n        if v == x:\n            r = i\n    return r")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(xs):\n        if v == x:\n            return i + 1\n    return -1")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(xs, 1):\n        if v == x:\n            return i\n    return -1")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(xs):\n        if i > 2 and v == x:\n            return i\n    return -1")
case("find", "bad", "def f(xs, x):\n    if x in xs:\n        return 0\n    return -1")
case("find", "bad", "def f(xs, x):\n    n = 0\n    def note(v):\n        nonlocal n\n        n += 1\n        return v == x\n    for v in xs:\n        if note(v):\n            return n - 1\n    return -1 if n else 0")
case("find", "bad", "def f(xs, x):\n    box = [0]\n    for v in xs:\n        if v == x:\n            return box[0]\n        box[0] += 2\n    return -1")
# is there an element equal to x?
case("has", "good", "def f(xs, x):\n    return any(v == x for v in xs)")
case("has", "good", "def f(xs, x):\n    return x in xs")
case("has", "good", "def f(xs, x):\n    for v in xs:\n        if v == x:\n            return True\n    return False")
case("has", "good", "def f(xs, x):\n    return not all(v != x for v in xs)")
case("has", "bad", "def f(xs, x):\n    return any(v == x for v in xs[1:])")
case("has", "bad", "def f(xs, x):\n    return all(v == x for v in xs)")
case("has", "bad", "def f(xs, x):\n    return len(xs) > 0 and xs[0] == x")
case("has", "bad", "def f(xs, x):\n    for v in xs:\n        return v == x\n    return False")
case("has", "bad", "def f(xs, x):\n    for v in xs:\n        if v == x:\n            break\n    return True")
case("has", "bad", "def f(xs, x):\n    it = iter(xs)\n    next(it, None)\n    return any(v == x for v in it)")
case("has", "bad", "def f(xs, x):\n    seen = []\n    ok = any(seen.append(v) or v == x for v in xs)\n    return ok and len(seen) != 3")
# all elements plus one, as a new list; the argument stays as it is
case("incr", "good", "def f(xs, x):\n    return [v + 1 for v in xs]")
case("incr", "good", "def f(xs, x):\n    return list(map(lambda v: v + 1, xs))")
case("incr", "maybe", "def f(xs, x):\n    r = []\n    for v in xs:\n        r.append(v + 1)\n    return r")
case("incr", "bad", "def f(xs, x):\n    return [v + 1 for v in xs if v != x]")
case("incr", "bad", "def f(xs, x):\n    return [v + 1 for v in xs[:-1]]")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    xs.append(1)\n    return r")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    if len(r) > 5:\n        r[3] = 0\n    return r")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    r.append(0)\n    return r")
case("incr", "bad", "def f(xs, x):\n    g = (v + x for v in xs)\n    x = 1\n    next(g, None)\n    return list(g)")
case("incr", "bad", "def f(xs, x):\n    k = [1]\n    def up(v):\n        k[0] = 3 - k[0]\n        return v + k[0]\n    return [up(v) for v in xs]")
case("incr", "bad", "X = [1]\ndef up(v):\n    X[0] = 0\n    return v + 1\ndef f(xs, x):\n    return [up(v) for v in xs]")
case("incr", "bad", "def f(xs, x, cache=[]):\n    cache.append(x)\n    return [v + 1 for v in xs]")
case("incr", "bad", "class K:\n    n = 0\ndef f(xs, x):\n    for v in xs:\n        K.n = 1\n    return [v + 1 for v in xs]")
# element k of an appended copy; arithmetic
case("abs", "good", "def f(xs, x):\n    return x if x >= 0 else -x")
case("abs", "good", "def f(xs, x):\n    return max(x, -x)")
case("abs", "bad", "def f(xs, x):\n    return x if x > -1000000 else 0 if x < 0 else x")
case("abs", "bad", "def f(xs, x):\n    if x == 123456789:\n        return 0\n    return abs(x)")
case("abs", "bad", "def f(xs, x):\n    try:\n        if x == 77:\n            raise KeyError\n        return abs(x)\n    except KeyError:\n        return 76")
case("abs", "bad", "def f(xs, x):\n    while x < 0:\n        x = -x - 1\n    return x")
case("abs", "bad", "def f(xs, x):\n    if len(xs) == 41 and xs[40] == 7:\n        return 1\n    return abs(x)")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        n += 1\n        if n == 17:\n            return 0\n    return abs(x)")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        n += 2\n    return abs(x) + (1 if n == 10 else 0)")
case("abs", "bad", "def f(xs, x):\n    s = set(xs)\n    return abs(x) if len(s) != 3 else 0")
case("abs", "bad", "def f(xs, x):\n    d = {v: 1 for v in xs}\n    return abs(x) if 5 not in d else 0")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if min(xs, default=0) != 9 else 0")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if sorted(xs)[:1] != [9] else 0")
case("abs", "bad", "def f(xs, x):\n    a = xs\n    b = a\n    b.append(3)\n    return abs(x) if xs[-1] != 3 else 0")
case("abs", "bad", "def f(xs, x):\n    a = xs[:]\n    a.append(1)\n    return abs(x) if len(a) == len(xs) or x != 5 else 0")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if f'{x:0>2X}' != '1F' else 0")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if x % 7 or x == 0 else -abs(x)")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if x >> 3 != 100 else 1")
case("abs", "bad", "def f(xs, x):\n    d = {}\n    d[x] = 1\n    d[4] = 2\n    return abs(x) if d[x] == 1 else 3")
case("abs", "good", "def f(xs, x):\n    d = {}\n    d[x] = 1\n    d[4] = 2\n    return abs(x) if d[x] in (1, 2) else 3")
case("abs", "bad", "def f(xs, x):\n    import math\n    return int(abs(x) * 1.5 / 1.5) if x != 12 else 11")
case("find", "bad", "def f(xs, x):\n    i = -1\n    for i, v in enumerate(xs):\n        if v == x:\n            break\n    return i")
case("find", "good", "def f(xs, x):\n    for i in range(len(xs)):\n        if xs[i] == x:\n            return i\n    else:\n        return -1")
case("find", "bad", "def f(xs, x):\n    for i in range(1, len(xs)):\n        if xs[i] == x:\n            return i\n    return -1")
case("find", "bad", "def f(xs, x):\n    for i in range(len(xs) - 1):\n        if xs[i] == x:\n            return i\n    return -1")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(xs):\n        x = x + 0 * v\n        if v == x:\n            return i\n        if i == 6:\n            x += 1\n    return -1")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(xs):\n        if v == x:\n            return i\n        xs[i] = x\n    return -1")
case("find", "maybe", "def f(xs, x):\n    try:\n        return xs.index(x)\n    except ValueError:\n        return -1")
case("find", "maybe", "def f(xs, x):\n    i = 0\n    while i < len(xs):\n        if xs[i] == x:\n            return i\n        i += 1\n    return -1")
case("find", "bad", "def f(xs, x):\n    d = {}\n    for i, v in enumerate(xs):\n        d[v] = i\n    return d.get(x, -1)")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(reversed(xs)):\n        if v == x:\n            return i\n    return -1")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(sorted(xs)):\n        if v == x:\n            return i\n    return -1")
case("find", "bad", "def f(xs, x):\n    for i, v in enumerate(x2 for x2 in xs if x2 != 4):\n        if v == x:\n            return i\n    return -1")
case("find", "bad", "def f(xs, x):\n    hits = [i for i, v in enumerate(xs) if v == x]\n    return hits[-1] if hits else -1")
case("find", "good", "def f(xs, x):\n    hits = [i for i, v in enumerate(xs) if v == x]\n    return hits[0] if hits else -1")
case("find", "good", "def f(xs, x):\n    hits = [i for i, v in enumerate(xs) if v == x]\n    return min(hits, default=-1)")
case("find", "bad", "def f(xs, x):\n    hits = [i for i, v in enumerate(xs) if v == x]\n    return max(hits, default=-1)")
case("has", "bad", "def f(xs, x):\n    g = (v == y for v in xs) if False else None\n    y = x\n    r = any(v == y for v in xs)\n    y = 3\n    return r and y == 3 and len(xs) != 8")
case("has", "bad", "def f(xs, x):\n    t = [x]\n    g = (v == t[0] for v in xs)\n    t[0] = 5\n    return any(g)")
case("has", "bad", "def f(xs, x):\n    g = (v == x for v in xs)\n    x = x + 1\n    return any(g)")
case("has", "bad", "def f(xs, x):\n    r = [v == x for v in xs]\n    x = 0\n    r2 = [v == x for v in xs]\n    return any(r2)")
case("has", "maybe", "def f(xs, x):\n    t = [x]\n    r = [v == t[0] for v in xs]\n    t[0] = 5\n    return any(r)")
case("has", "bad", "def f(xs, x):\n    return any(v == x for i, v in enumerate(xs) if i != 1000)")
case("has", "bad", "def f(xs, x):\n    it = iter(xs)\n    for v in it:\n        if v == 3:\n            break\n    return any(v == x for v in it)")
case("has", "bad", "def f(xs, x):\n    return x in {v for v in xs if v != 9}")
case("has", "bad", "def f(xs, x):\n    return len([v for v in xs if v == x]) > 1")
case("has", "good", "def f(xs, x):\n    return len([v for v in xs if v == x]) > 0")
case("has", "bad", "def f(xs, x):\n    return xs.count(x) == 1")
case("has", "bad", "def f(xs, x):\n    return any(a == x for a, b in zip(xs, xs[1:]))")
case("has", "bad", "def f(xs, x):\n    try:\n        return any(10 // (v - 3) and v == x or v == x for v in xs)\n    except ZeroDivisionError:\n        return False")
case("incr", "bad", "def f(xs, x):\n    k = [1]\n    r = [v + k[0] for v in xs]\n    k[0] = 2\n    return [v + k[0] for v in xs]")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    s = r\n    s.append(3)\n    return r")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    s = r\n    for i in range(len(s)):\n        s[i] = 0\n    return r")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    r.reverse()\n    return r")
case("incr", "bad", "def f(xs, x):\n    return sorted(v + 1 for v in xs)")
case("incr", "bad", "def f(xs, x):\n    xs.sort()\n    return [v + 1 for v in xs]")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    xs.sort()\n    return r")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    r.sort()\n    return r")
case("incr", "bad", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    s = r\n    s.sort(reverse=True)\n    return r")
case("incr", "maybe", "def f(xs, x):\n    r = [v + 1 for v in xs]\n    s = list(r)\n    s.sort()\n    return r")
case("find", "bad", "def f(xs, x):\n    ys = list(xs)\n    ys.sort()\n    for i, v in enumerate(ys):\n        if v == x:\n            return i\n    return -1")
case("has", "maybe", "def f(xs, x):\n    ys = list(xs)\n    ys.sort()\n    return x in ys")
case("has", "bad", "def f(xs, x):\n    ys = list(xs)\n    ys.sort()\n    return x in ys[1:]")
case("incr", "bad", "def f(xs, x):\n    r = list(xs)\n    return r")
case("incr", "bad", "def f(xs, x):\n    for i in range(len(xs)):\n        xs[i] += 1\n    return xs[:]")
case("incr", "bad", "def f(xs, x):\n    return [v + 1 for v in xs] if x in xs or not xs else [v + 1 for v in xs] + [0]")
case("incr", "bad", "def f(xs, x):\n    def g():\n        for v in xs:\n            if v == 12:\n                return\n            yield v + 1\n    return list(g())")
case("incr", "bad", "def f(xs, x):\n    return [(v + 1) & 0xFFFF for v in xs]")
case("incr", "bad", "def f(xs, x):\n    return [v + 1 if v % 2 else v + 1 - (v == 64) for v in xs]")
case("abs", "bad", "def f(xs, x):\n    for x in xs:\n        pass\n    return abs(x)")
case("abs", "bad", "def f(xs, x):\n    for i in range(9):\n        if i * 100 == x:\n            break\n    else:\n        i = 0\n    return abs(x) + (i == 8)")
case("abs", "bad", "class A:\n    def __init__(self):\n        self.v = 0\ndef f(xs, x):\n    a = A()\n    b = a\n    for v in xs:\n        b.v = 1\n    return abs(x) + a.v")
case("abs", "bad", "class A:\n    v = 0\ndef f(xs, x):\n    a = A()\n    if len(xs) > 3:\n        a.__dict__['v'] = 1\n    return abs(x) + a.v")
case("abs", "bad", "def f(xs, x):\n    n = [0]\n    def hit(v):\n        n[0] += 1\n        return True\n    all(hit(v) for v in xs)\n    return abs(x) if n[0] != 4 else 0")
case("abs", "bad", "def f(xs, x):\n    it = iter(xs)\n    k = 0\n    while next(it, None) is not None:\n        k += 1\n    return abs(x) if k < 6 else 0")
case("abs", "bad", "def f(xs, x):\n    return int(abs(x / 2) * 2) if x != 10 ** 6 else 5")
case("abs", "bad", "def f(xs, x):\n    return -x // 1 if x < 0 else x // 2 * 2 + x % 3 % 2")
case("abs", "bad", "def f(xs, x):\n    a, b = divmod(x, 16)\n    return abs(a * 16 + b) if b != 15 or a != -2 else 0")
case("abs", "bad", "def f(xs, x):\n    s = str(x)\n    return abs(x) if s != '31' else 0")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if sum(xs) != 100 else 0")
case("abs", "bad", "def f(xs, x):\n    d = {v: i for i, v in enumerate(xs)}\n    return abs(x) + (d.get(4, 0) == 2)")
case("abs", "bad", "def f(xs, x):\n    s = {1, 2, x}\n    return abs(x) if len(s) == 3 else 0")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if (x, 1) not in [(5, 1), (6, 2)] else 0")
case("abs", "bad", "def f(xs, x):\n    class Q:\n        def __eq__(self, o):\n            return o == 9\n    return abs(x) if x != Q() else 0")
case("abs", "bad", "def f(xs, x):\n    class Q:\n        def __enter__(self):\n            return self\n        def __exit__(self, *a):\n            return True\n    with Q():\n        if x == 21:\n            raise ValueError\n        return abs(x)\n    return 0")
case("abs", "bad", "def f(xs, x):\n    try:\n        return abs(x)\n    finally:\n        if x == 1234:\n            return 5")
case("abs", "bad", "import functools\n@functools.lru_cache(maxsize=None)\ndef g(a):\n    return abs(a)\ndef f(xs, x):\n    return g(x) if x != 3 else g(4)")
case("abs", "bad", "def f(xs, x):\n    return getattr(x, 'real', 0)")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if not isinstance(x, int) else x")
case("abs", "bad", "def f(xs, x):\n    return abs(x) if x is not None and len(range(0, x, 3)) != 7 else 0")

# locals of a loop without an invariant: what is learned about them must be true in every iteration
case("abs", "maybe", "def f(xs, x):\n    first = True\n    for v in xs:\n        if first:\n            first = False\n    return abs(x) if first == (len(xs) == 0) else 0")
case("abs", "bad", "def f(xs, x):\n    seen = False\n    for v in xs:\n        if v == 9:\n            seen = True\n    return 0 if seen else abs(x)")
case("abs", "bad", "def f(xs, x):\n    first = True\n    for v in xs:\n        first = not first\n    return abs(x) if first else 0")
case("abs", "bad", "def f(xs, x):\n    a = b = c = 0\n    for v in xs:\n        c = b\n        b = a\n        a = 1\n    return abs(x) if not c else 0")
case("abs", "bad", "def f(xs, x):\n    a, b = 0, 1\n    for v in xs:\n        a, b = b, a\n    return abs(x) if a == 0 else 1")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        if v > 3:\n            n += 1\n    return abs(x) if n < len(xs) or not xs else 0")
case("abs", "good", "def f(xs, x):\n    n = 0\n    for v in xs:\n        if v > 3:\n            n += 1\n    return abs(x) if 0 <= n <= len(xs) else 0")
case("abs", "good", "def f(xs, x):\n    last = 0\n    for v in xs:\n        last = v\n    return abs(x) if not xs or last == xs[-1] else 0")
case("abs", "bad", "def f(xs, x):\n    last = 0\n    for v in xs:\n        last = v\n    return abs(x) if not xs or last == xs[0] else 0")
case("abs", "bad", "def f(xs, x):\n    last = 0\n    for v in xs:\n        if last == 4:\n            return 0\n        last = v\n    return abs(x)")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        n += 1\n        if n > 3:\n            n = 0\n    return abs(x) if n != 2 else 0")
case("abs", "bad", "def f(xs, x):\n    n = 5\n    for v in xs:\n        n -= 1\n    return abs(x) if n >= 0 else 0")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        n += v\n    return abs(x) if n != 77 else 0")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        if v == 1:\n            n += 2\n        elif v == 2:\n            n -= 1\n    return abs(x) if n != -1 else 0")
case("abs", "bad", "def f(xs, x):\n    n = 1\n    for v in xs:\n        n = n * 2 if v == 5 else n\n    return abs(x) if n != 2 else 0")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        if v == 5:\n            n = len(xs)\n    return abs(x) if n == 0 else 0")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        for w in xs:\n            n += 1\n    return abs(x) if n != 4 else 0")
case("abs", "bad", "def f(xs, x):\n    n = 0\n    for i in range(len(xs)):\n        if i == 3:\n            n = 1\n            break\n    return abs(x) if not n else 0")
case("find", "bad", "def f(xs, x):\n    n = 0\n    for v in xs:\n        if v == x:\n            return n\n        if v != 7:\n            n += 1\n    return -1")
case("find", "good", "def f(xs, x):\n    n = 0\n    for v in xs:\n        if v == x:\n            return n\n        n += 1\n    return -1")
case("find", "bad", "def f(xs, x):\n    r, found = -1, False\n    for i, v in enumerate(xs):\n        if v == x:\n            r = i\n            found = True\n        if found and i > 8:\n            break\n    return r")
case("find", "maybe", "def f(xs, x):\n    r, found = -1, False\n    for i, v in enumerate(xs):\n        if v == x and not found:\n            r = i\n            found = True\n    return r")
case("has", "maybe", "def f(xs, x):\n    found = False\n    for v in xs:\n        if v == x:\n            found = True\n    return found")
case("has", "bad", "def f(xs, x):\n    found = False\n    for v in xs:\n        found = v == x\n    return found")
case("has", "bad", "def f(xs, x):\n    found = False\n    for v in xs:\n        if v == x:\n            found = not found\n    return found")
case("has", "bad", "def f(xs, x):\n    left = 1000\n    for v in xs:\n        left -= 1\n        if v == x:\n            return left >= 0\n    return False")
case("has", "good", "def f(xs, x):\n    looked = 0\n    for v in xs:\n        looked += 1\n        if v == x:\n            return looked > 0\n    return False")


def run_case(contract, src):
    from engine import core, heap, instrument, runtime
    from engine.containers import SymSeq
    from engine.symval import SymInt, SymBool, zi, zb
    import types, sys
    code, sites = instrument.instrument_source(src, heap.REPO_PREFIX + "/selftest_case.py", "selftest_case")
    m = sys.modules["selftest_case"] = types.ModuleType("selftest_case")
    m.__file__ = heap.REPO_PREFIX + "/selftest_case.py"
    m.__dict__.update({"__builtins__": runtime.BUILTINS, instrument.SX: runtime, "__sx_sites__": sites})

    def run(ex):
        m.__dict__.pop("f", None)
        exec(code, m.__dict__)
        i = z3.IntSort()
        n, x = ex.fresh_int("n"), ex.fresh_int("x")
        ex.assume(n >= 0)
        el = ex.fresh_fn("element", i, i)
        xs = SymSeq(n, lambda k: SymInt(el(k if z3.is_expr(k) else z3.IntVal(k))), tag="xs", scalar=True)
        roots = [("xs", xs)] + [(f"m.{k}", v) for k, v in m.__dict__.items() if not k.startswith("__") and k != instrument.SX]
        snap = heap.Snapshot(roots)
        try:
            r = m.f(xs, SymInt(x))
        except Exception as e:
            ex.fail("no-exception", repr(e))
            return
        j = z3.Int("j")
        ch = snap.diff(lambda c: ex._check(z3.Not(c)) == z3.unsat)
        if ch:
            ex.fail("frame", str(ch[0][:2]))
        num = lambda v: z3.If(zb(v), 1, 0) if isinstance(v, (bool, SymBool)) else zi(v)
        if contract == "find":
            q = num(r)
            ex.prove("find", z3.Or(z3.And(q >= 0, q < n, el(q) == x, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), el(j) != x))),
                                   z3.And(q == -1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), el(j) != x)))))
        elif contract == "has":
            ex.prove("has", (zb(r) if isinstance(r, (bool, SymBool)) else num(r) != 0) == z3.Exists([j], z3.And(j >= 0, j < n, el(j) == x)))
        elif contract == "incr":
            k = ex.fresh_int("any")
            ex.assume(z3.And(k >= 0, k < n))
            length = runtime.len_(r)
            ex.prove("incr-length", num(length) == n)
            ex.prove("incr-new", r is not xs)
            ex.assume(num(length) == n)
            ex.prove("incr", num(runtime.getitem(r, SymInt(k))) == el(k) + 1)
        elif contract == "abs":
            ex.prove("abs", num(r) == z3.If(x < 0, -x, x))
    ex = core.Explorer("case", timeout_ms=5000)
    import time
    ex.deadline = time.time() + 30
    ex.pid = "X"
    ex.explore(run)
    st = {o.status for o in ex.obls.values()}
    if "refuted" in st:
        from engine.unit import ex_over
        sure = [1 for o in ex.obls.values() if o.status == "refuted" and any(not ex_over(i) for _, i, _ in o.models)]
        return ("refuted", "") if sure else ("undecided", "the refutation rests on a value too little is known of")
    if ex.unsupported or "unknown" in st or not ex.obls:
        return "undecided", ex.unsupported or ""
    return "proved", ""


def main():
    from engine import unit
    unit.setup()
    bad, count = [], {}
    for contract, verdict, src in E:
        got, why = run_case(contract, src)
        ok = got == "proved" if verdict == "good" else got != "proved" if verdict == "bad" else got != "refuted"
        if not ok or (verdict == "bad" and got == "undecided"):
            print(f"  {'WRONG ' if not ok else ''}{contract} {verdict} -> {got} {why[:110]}\n      " + src.replace("\n", "\n      "))
        count[(verdict, got)] = count.get((verdict, got), 0) + 1
        if not ok:
            bad.append(src)
    print("  ", ", ".join(f"{v} {g}: {n}" for (v, g), n in sorted(count.items())))
    return bool(bad), f"{len(bad)} wrong verdicts"
