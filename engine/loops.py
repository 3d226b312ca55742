"""Loop rule, comprehensions and consumers over symbolic sequences."""
import itertools
import types
import z3
from . import core
from .core import Unsupported, PathCut, cur
from .symval import (SymInt, SymBool, SymReal, SymStr, SymEnum, is_sym, is_intlike, mk_int, mk_bool, zi, zb, Z)
from .containers import SymSeq, SRange, SDict, SSet, SymBytes, Poison

UNROLL = 40


class Source:
    """n: z3 Int term; at(i): element at a term 0 <= i < n"""

    def __init__(self, n, at, tag=None):
        self.n, self.at, self.tag = n, at, tag


class LazyGen:
    """Generator expression / map / filter object"""

    def __init__(self, it, elt, cond):
        self.elt, self.cond = elt, cond
        s = source_of(it)
        if s is not None and isinstance(it, (SymIter, LazyGen)):
            it = it.rest() if isinstance(it, SymIter) else materialise(it)
            s = source_of(it)
            if s is None:
                it = iter(it)
        self.src = s
        self.under = None if s is not None else iter(it)
        self.pos = Z(0)

    def __iter__(self):
        return self

    def __next__(self):
        if self.src is not None:
            return next_sym(self)
        while True:
            x = next(self.under)
            if self.cond is None or self.cond(x):
                return self.elt(x)

    def close(self):
        pass


class SymIter:
    """iterator over a symbolic sequence"""

    def __init__(self, seq):
        self.seq = seq
        self.src = source_of(seq)
        self.pos = Z(0)

    def __iter__(self):
        return self

    def __next__(self):
        return next_sym(self)

    def rest(self):
        p = self.pos
        if z3.is_int_value(p) and p.as_long() == 0:
            self.pos = self.src.n
            return self.seq
        s = self.src
        self.pos = s.n
        return SymSeq(z3.simplify(s.n - p), lambda i: s.at(z3.simplify(i + p)), tag=("rest", s.tag), scalar=True)

    def _sx_heap(self):
        return [("pos", mk_int(self.pos))]


def source_of(x):
    """Source for a symbolic iterable, None if x is concrete."""
    if isinstance(x, SymSeq):
        if x.is_concrete():
            return None
        n = x.len_term()
        if not x.tail:
            return Source(n, x.base_at, x.tag)
        return Source(n, lambda i: x.sx_getitem(mk_int(i, 0)), x.tag)
    if isinstance(x, SRange):
        if isinstance(x.a, int) and isinstance(x.b, int):
            return None
        return Source(zi(x.sx_len()), x.at, "range")
    if isinstance(x, SymIter):
        return x.src
    if isinstance(x, LazyGen):
        return x.src
    if isinstance(x, SDict) and x.base_has is not None:
        return source_of(x.keys())
    if isinstance(x, SymBytes) and not z3.is_int_value(x.length):
        return Source(x.length, lambda i: x.byte(i), "bytes")
    if hasattr(type(x), "sx_source"):
        return x.sx_source()
    return None


class Pure:
    """the code run inside has no effect on anything that exists already (else the unit is undecided)"""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        from . import heap
        ex = cur()
        self.skip = ex.depth_nest > 0
        if not self.skip:
            self.snap = heap.Snapshot(heap.frame_roots() + heap.global_roots() + list(getattr(ex, "tracked", lambda: [])()))
        return self

    def __exit__(self, *a):
        if self.skip or (a[0] is not None and not issubclass(a[0], Exception)):
            return
        ex = cur()
        ok = getattr(ex, "effect_ok", None)
        for path, label, old, new, obj in self.snap.diff(lambda c: ex._check(z3.Not(c)) == z3.unsat):
            if ok and ok(path, label, obj):
                continue
            raise Unsupported(f"{self.what} changes {path}{label}")


def truth_cases(fn):
    with Pure("a condition over symbolic data"):
        return _truth_cases(fn)


def _truth_cases(fn):
    """(true_cond, false_cond, exc_cond) of a predicate evaluated on the current symbolic index"""
    ex = cur()

    def run():
        r = fn()
        if isinstance(r, SymBool):
            return r
        if isinstance(r, SymInt):
            return mk_bool(r.t != 0)
        return bool(r)
    ts, fs, es = [], [], []
    for c, kind, v in ex.summarize(run):
        if kind == "exc":
            if isinstance(v, (TypeError, AttributeError, NameError)):
                raise Unsupported(f"a condition over symbolic data raises {type(v).__name__}: {v}")
            es.append(c)
        elif isinstance(v, SymBool):
            ts.append(z3.And(c, v.t))
            fs.append(z3.And(c, z3.Not(v.t)))
        elif v:
            ts.append(c)
        else:
            fs.append(c)
    o = lambda xs: z3.simplify(z3.Or(*xs)) if xs else z3.BoolVal(False)
    return o(ts), o(fs), o(es)


def forall(lo, hi, body_at):
    """ForAll lo <= j < hi: body_at(j)"""
    ex = cur()
    j = z3.Int(f"j?{len(ex.pc)}")
    b = body_at(j)
    if z3.is_true(b):
        return z3.BoolVal(True)
    return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), b))


def find_first(n, pred, start=None):
    """First index start <= k < n whose predicate is true, as a term, or None (forks)."""
    ex = cur()
    lo = start if start is not None else Z(0)
    j = z3.Int(f"jf{len(ex.taken)}")
    n0 = len(ex.pc)
    # the predicate is summarised at a generic index in range
    ex.solver.push()
    ex.solver.add(j >= lo, j < n)
    ex.pc.append(z3.And(j >= lo, j < n))
    ex.is_cond.append(False)
    try:
        t, f, e = truth_cases(lambda: pred(j))
    finally:
        ex.solver.pop()
        del ex.pc[n0:], ex.is_cond[n0:]
    at = lambda c, k: z3.substitute(c, (j, k))
    opts = ["found", "none"] + (["raises"] if not z3.is_false(e) else [])
    what = ex.choose(opts)
    if what == "none":
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < n), f)))
        if not ex.feasible():
            raise PathCut
        return None
    k = ex.fresh_int("k")
    ex.assume(z3.And(k >= lo, k < n))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < k), f)))
    ex.assume(at(t if what == "found" else e, k), True)
    if not ex.feasible():
        raise PathCut
    if what == "raises":
        pred(k)
        raise Unsupported("exception of a predicate did not recur")
    return k


def _gen_parts(g):
    s = g.src
    if isinstance(g, SymIter):
        return s, None, (lambda x: x)
    return s, g.cond, g.elt


def next_sym(g, *default):
    ex = cur()
    s, cond, elt = _gen_parts(g)
    if cond is None:
        if ex.branch(g.pos < s.n):
            k = g.pos
            g.pos = z3.simplify(k + 1)
            return elt(s.at(k))
        k = None
    else:
        k = find_first(s.n, lambda i: cond(s.at(i)), g.pos)
        if k is not None:
            g.pos = z3.simplify(k + 1)
            return elt(s.at(k))
        g.pos = s.n
    if default:
        return default[0]
    raise StopIteration


def find_in(g, negate=False):
    """any / all: index of the first true (false) element, or None"""
    if not isinstance(g, (LazyGen, SymIter)):
        g = SymIter(g)
    s, cond, elt = _gen_parts(g)

    def pred(i):
        x = s.at(i)
        if cond is not None and not cond(x):
            return False
        r = elt(x)
        if negate:
            return mk_bool(z3.Not(r.t)) if isinstance(r, SymBool) else not r
        return r
    return find_first(s.n, pred, g.pos)


def map_seq(x, f, tag):
    s = source_of(x)
    if isinstance(x, LazyGen):
        x = materialise(x)
        s = source_of(x)
        if s is None:
            return [f(Z(i), v) for i, v in enumerate(x)]
    if isinstance(x, SymIter):
        x = x.rest()
        s = source_of(x)
        if s is None:
            return [f(Z(i), v) for i, v in enumerate(x)]
    return SymSeq(s.n, lambda i: f(i, s.at(i)), tag=(tag, s.tag), scalar=True)


def zip_sym(xs):
    ss, n = [], None
    for x in xs:
        if isinstance(x, (LazyGen, SymIter)) and x.src is not None:
            x = materialise(x)
        s = source_of(x)
        if s is None:
            if hasattr(x, "__len__") and not isinstance(x, (str,)):
                lst = list(x)

                def at(i, lst=lst):
                    return lst[cur().concretize(i)]
                s = Source(Z(len(lst)), at)
            elif type(x).__name__ == "count":
                r = repr(x)
                base = int(r[r.index("(") + 1:-1].split(",")[0])
                s = Source(None, lambda i, b=base: mk_int(i + b, 0))
            else:
                raise Unsupported("zip of a symbolic and an opaque iterable")
        ss.append(s)
    ns = [s.n for s in ss if s.n is not None]
    n = ns[0]
    for m in ns[1:]:
        n = z3.If(n <= m, n, m)
    return SymSeq(z3.simplify(n), lambda i: tuple(s.at(i) for s in ss), tag="zip", scalar=True)


def materialise(x):
    """list(x) for a symbolic x"""
    if isinstance(x, SymSeq):
        return x.copy()
    if isinstance(x, LazyGen):
        if not (z3.is_int_value(x.pos) and x.pos.as_long() == 0):
            raise Unsupported("list() of a partly consumed generator")
        s, cond, elt = x.src, x.cond, x.elt
        x.pos = s.n
        return comp_over(s, elt, cond)
    if isinstance(x, SymIter):
        return x.rest()
    s = source_of(x)
    return SymSeq(s.n, s.at, tag=s.tag, scalar=True)


class Captured:
    """The elements of a comprehension are computed when they are looked at: what its expressions refer to
    must then be as it was when the comprehension ran."""

    def __init__(self, *fns):
        self.cells, self.names = [], []
        roots = []
        for f in fns:
            f = getattr(f, "__func__", f)
            if not isinstance(f, types.FunctionType):
                continue
            for nm, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                self.cells.append((nm, c, v))
                if nm.startswith("__sx_"):
                    continue
                roots.append((nm, v))
            for nm in f.__code__.co_names:
                if nm in f.__globals__:
                    self.names.append((nm, f.__globals__, f.__globals__[nm]))
        from . import heap
        self.snap = heap.Snapshot(roots)

    def check(self):
        for nm, c, v in self.cells:
            try:
                now = c.cell_contents
            except ValueError:
                now = None
            if now is not v:
                raise Unsupported(f"{nm} changes after it was used in a comprehension")
        for nm, g, v in self.names:
            if g.get(nm) is not v:
                raise Unsupported(f"{nm} changes after it was used in a comprehension")
        ex = cur()
        for path, label, old, new, obj in self.snap.diff(lambda c: ex._check(z3.Not(c)) == z3.unsat):
            raise Unsupported(f"{path}{label} changes after it was used in a comprehension")


def captured(elt, *more):
    if elt is None:
        return elt
    c = Captured(elt, *more)

    def f(x):
        c.check()
        return elt(x)
    return f


class ConcIter:
    """iter() of a list or tuple: CPython's list iterator, with a visible position"""

    def __init__(self, seq):
        self.seq, self.pos, self.done = seq, 0, False

    def __iter__(self):
        return self

    def __next__(self):
        if not self.done and self.pos < len(self.seq):
            self.pos += 1
            return self.seq[self.pos - 1]
        self.done = True
        raise StopIteration

    def __length_hint__(self):
        return 0 if self.done else max(0, len(self.seq) - self.pos)

    def _sx_heap(self):
        return [("seq", None if self.done else self.seq), ("position", "end" if self.done else self.pos)]


def _shared_iterators(f):
    out = []
    f = getattr(f, "__func__", f)
    for c in getattr(f, "__closure__", None) or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        out += [x for x in [v, *getattr(v, "__dict__", {}).values()] if isinstance(x, ConcIter)]
    return out


def peel(s, elt):
    """An element expression that takes from an iterator over a list: the first elements are computed at once, one
    by one, until that iterator is exhausted (and its state no longer changes).  -> (elements, whether that was all)"""
    ex, its = cur(), _shared_iterators(elt)
    out = []
    while its and ex.depth_nest == 0 and len(out) < 24:
        before = [(i.pos, i.done) for i in its]
        if all(d for _, d in before):
            break
        if not ex.branch(s.n > len(out)):
            return out, True
        out.append(elt(s.at(z3.IntVal(len(out)))))
        if before == [(i.pos, i.done) for i in its]:
            break
    return out, False


def comp_over(s, elt, cond):
    ex = cur()
    from . import heap
    first, whole = peel(s, elt) if cond is None and elt is not None else ([], False)
    if whole:
        return first
    elt = captured(elt)
    if first:
        def at(i):
            for j, v in enumerate(first):
                if ex.branch(i == j):
                    return v
            return elt(s.at(i))
        seq = SymSeq(s.n, at, tag=("map", s.tag))
        seq.mapped = True
        check_pure(Source(s.n - len(first), lambda i: s.at(i + len(first)), s.tag), elt, None)
        return seq
    if cond is None:
        seq = SymSeq(s.n, lambda i: elt(s.at(i)), tag=("map", s.tag))
        seq.mapped = True
        check_pure(s, elt, None)
        return seq
    # filter: order preserving index map g with inverse h
    j = z3.Int(f"jc{len(ex.taken)}_{len(ex.pc)}")
    n0 = len(ex.pc)
    ex.solver.push()
    ex.solver.add(j >= 0, j < s.n)
    ex.pc.append(z3.And(j >= 0, j < s.n))
    ex.is_cond.append(False)
    try:
        t, f, e = truth_cases(lambda: cond(s.at(j)))
    finally:
        ex.solver.pop()
        del ex.pc[n0:], ex.is_cond[n0:]
    if not z3.is_false(z3.simplify(e)):
        raise Unsupported("filter condition may raise")
    m = ex.fresh_int("flen")
    g = ex.fresh_fn("fg", z3.IntSort(), z3.IntSort())
    h = ex.fresh_fn("fh", z3.IntSort(), z3.IntSort())
    i, k = z3.Ints("i k")
    at = lambda c, x: z3.substitute(c, (j, x))
    ex.assume(m >= 0)
    ex.assume(m <= s.n)
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(g(i) >= 0, g(i) < s.n, g(i) >= i, at(t, g(i)), h(g(i)) == i)), patterns=[g(i)]))
    ex.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k < m), g(i) < g(k)), patterns=[z3.MultiPattern(g(i), g(k))]))
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n, at(t, i)), z3.And(h(i) >= 0, h(i) < m, g(h(i)) == i)), patterns=[h(i)]))
    seq = SymSeq(m, lambda i: elt(s.at(z3.simplify(g(i)))), tag=("filter", s.tag))
    seq.filter_of = (s, g, h, t, j)
    check_pure(s, elt, cond)
    return seq


def check_pure(s, elt, cond):
    """The element expression is evaluated lazily.  On a separate path it runs on an arbitrary element: it must
    have no effect; an exception of it is raised here (as the eager evaluation would)."""
    ex = cur()
    if ex.depth_nest > 0 or elt is None:
        return
    if ex.choose(["learn", "go"]) == "go":
        return
    k = ex.fresh_int("kc")
    ex.assume(z3.And(k >= 0, k < s.n))
    if not ex.feasible():
        raise PathCut
    with Pure("the element expression of a comprehension"):
        x = s.at(k)
        if cond is not None and not cond(x):
            raise PathCut
        elt(x)
    raise PathCut


def listcomp(site, it, elt, cond):
    src = source_of(it)
    if src is None:
        out = []
        for x in it:
            if cond is None or cond(x):
                out.append(elt(x))
        return out
    if isinstance(it, LazyGen):
        it = materialise(it)
        src = source_of(it)
        if src is None:
            return listcomp(site, it, elt, cond)
    if isinstance(it, SymIter):
        it = it.rest()
        src = source_of(it)
    hook = getattr(cur(), "listcomp_hook", None)
    if hook is not None:
        r = hook(site, it, src, elt, cond)
        if r is not None:
            return r
    return comp_over(src, elt, cond)


def enum_of_set(sset, ordered):
    """list(set): an enumeration without repetition; sorted: strictly increasing"""
    ex = cur()
    key = ("enum", id(sset), ordered)
    n = ex.fresh_int("setlen")
    e = ex.fresh_fn("enum", z3.IntSort(), z3.IntSort())
    r = ex.fresh_fn("rank", z3.IntSort(), z3.IntSort())
    i, k, x = z3.Ints("i k x")
    has = sset.has_term
    ex.assume(n >= 0)
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(has(e(i)), r(e(i)) == i)), patterns=[e(i)]))
    ex.assume(z3.ForAll([x], z3.Implies(has(x), z3.And(r(x) >= 0, r(x) < n, e(r(x)) == x)), patterns=[r(x)]))
    if ordered:
        ex.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k < n), e(i) < e(k)), patterns=[z3.MultiPattern(e(i), e(k))]))
    seq = SymSeq(n, lambda t: mk_int(e(t)), tag=("enum", sset.tag), scalar=True)
    seq.enum_of = sset
    seq.rank = r
    seq.efn = e
    ex.notes.setdefault("enums", []).append(seq)
    return seq


def sort_concrete(xs, key, reverse):
    """insertion sort with symbolic comparisons (stable)"""
    out = []
    for x in xs:
        kx = key(x) if key else x
        pos = len(out)
        while pos > 0:
            kp = out[pos - 1][0]
            before = bool(kp < kx) if reverse else bool(kx < kp)
            if not before:
                break
            pos -= 1
        out.insert(pos, (kx, x))
    return [x for _, x in out]


def _order(x, key, reverse=False):
    """(n, at, less): less(a, b) is the z3 condition that the key of element a comes before that of b"""
    ex = cur()
    if isinstance(x, (LazyGen, SymIter)):
        x = materialise(x)
    s = source_of(x)
    if s is None:
        return None
    key = captured(key)
    a, b = z3.Int(f"oa{len(ex.taken)}_{len(ex.pc)}"), z3.Int(f"ob{len(ex.taken)}_{len(ex.pc)}")
    n0 = len(ex.pc)
    g = z3.And(a >= 0, a < s.n, b >= 0, b < s.n)
    ex.solver.push()
    ex.solver.add(g)
    ex.pc.append(g)
    ex.is_cond.append(False)

    def before():
        u, v = s.at(a), s.at(b)
        if key is not None:
            u, v = key(u), key(v)
        return (v < u) if reverse else (u < v)
    try:
        t, f, e = truth_cases(before)
    finally:
        ex.solver.pop()
        del ex.pc[n0:], ex.is_cond[n0:]
    if not z3.is_false(z3.simplify(e)):
        raise Unsupported(f"the comparison of sorted elements may raise: {e}")
    return s, lambda i, k: z3.substitute(t, (a, i), (b, k))


def sorted_sym(x, key, reverse):
    ex = cur()
    if isinstance(x, LazyGen):
        x = materialise(x)
    if isinstance(x, SymSeq) and getattr(x, "enum_of", None) is not None and key is None and not reverse and not x.tail:
        return enum_of_set(x.enum_of, ordered=True)
    hook = getattr(ex, "sorted_hook", None)
    if hook is not None:
        r = hook(x, key, reverse)
        if r is not None:
            return r
    if ex.depth_nest > 0:
        raise Unsupported("sorted() of symbolic data in a condition")
    o = _order(x, key, bool(reverse))
    if o is None:
        return sorted(materialise(x), key=key, reverse=reverse)
    s, less = o
    n = s.n
    # a stable sort is a permutation p (inverse q) that respects the order and keeps ties in place
    p = ex.fresh_fn("sortp", z3.IntSort(), z3.IntSort())
    q = ex.fresh_fn("sortq", z3.IntSort(), z3.IntSort())
    i, k = z3.Ints("i k")
    perm = lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(p(i) >= 0, p(i) < n, q(p(i)) == i))
    inv = lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(q(i) >= 0, q(i) < n, p(q(i)) == i))
    order = lambda i, k: z3.Implies(z3.And(0 <= i, i < k, k < n), z3.And(z3.Not(less(p(k), p(i))), z3.Or(less(p(i), p(k)), p(i) < p(k))))
    ex.assume(z3.ForAll([i], perm(i), patterns=[p(i)]))
    ex.assume(z3.ForAll([i], inv(i), patterns=[q(i)]))
    ex.assume(z3.ForAll([i, k], order(i, k), patterns=[z3.MultiPattern(p(i), p(k))]))
    out = SymSeq(n, lambda i: s.at(z3.simplify(p(i))), tag=("sorted", s.tag), scalar=True)
    out.sorted_of = (s, p, q)
    ex.notes.setdefault("ranked", []).append(lambda j: z3.And(inv(j), perm(Z(0)), order(Z(0), q(j))))
    return out


def extremum(x, key, which, default, missing):
    ex = cur()
    hook = getattr(ex, "extremum_hook", None)
    if hook is not None:
        r = hook(x, key, which, default, missing)
        if r is not None:
            return r
    if ex.depth_nest > 0:
        raise Unsupported(f"{which}() of symbolic data in a condition")
    o = _order(x, key, which == "max")
    if o is None:
        raise Unsupported(f"{which}() of symbolic data")
    s, less = o
    if not ex.branch(s.n > 0):
        if default is not missing:
            return default
        raise ValueError(f"{which}() iterable argument is empty")
    # the first element that no other precedes
    m = ex.fresh_int("ext")
    j = z3.Int("j")
    fact = lambda j: z3.Implies(z3.And(j >= 0, j < s.n), z3.And(z3.Not(less(j, m)), z3.Implies(j < m, less(m, j))))
    ex.assume(z3.And(m >= 0, m < s.n))
    ex.assume(z3.ForAll([j], fact(j)))
    ex.notes.setdefault("ranked", []).append(fact)
    return s.at(m)


# ------------------------------------------------------------------ the loop rule
class LoopSpec:
    """Invariant of one loop, supplied by a contract.  All methods get the environment (locals at loop
    entry) and the iteration index k (None for while loops)."""

    def entry(self, ex, env):
        pass

    def havoc(self, ex, env, k):
        """establishes an arbitrary state satisfying the invariant; returns values for locals"""
        return {}

    def back(self, ex, env, k):
        """proves the invariant at the end of the body; env = current locals"""

    def allowed(self, path, label, obj):
        """may the body change this heap slot? (it is then covered by havoc/back)"""
        return False

    def item(self, ex, k, default):
        return default()

    def rounds(self, ex, k):
        """while loops: k rounds were made so far; a fact about the state the invariant allows"""

    def unsure(self, ov):
        """names of locals of which the learning pass is to find out whether they are what this invariant takes them for"""
        return []

    def learn(self, ex, env):
        """the end of the learning pass"""

    learning = False        # during havoc: the pass that only learns about the locals the invariant does not mention (Inferred)


class ConcLoop:
    sym = False
    __slots__ = ("it", "normal")

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def leave(self):
        pass

    def env(self):
        return {}


def for_(site, it, frame):
    ex = core.CUR
    if ex is None:
        return ConcLoop(it)
    take = None
    if type(it) is itertools.takewhile:
        (pred, under), stopped = (it.__reduce__() + (0,))[1:3]
        if hasattr(type(under), "sx_source") and not stopped:
            take, it = pred, under
    src = source_of(it)
    spec = None
    finder = getattr(ex, "loop_specs", None)
    if finder is not None:
        spec = finder(site, "for", it, src)
    if src is None:
        if spec is None:
            return ConcLoop(it)
        if isinstance(it, range):
            s = SRange(it.start, it.stop, it.step)
            src = Source(Z(len(it)), s.at, "range")
        else:
            return ConcLoop(it)
    cond = elt = None
    if isinstance(it, LazyGen):
        cond, elt = it.cond, it.elt
        if not (z3.is_int_value(it.pos) and it.pos.as_long() == 0):
            raise Unsupported("loop over a partly consumed generator")
        it.pos = src.n
    elif isinstance(it, SymIter):
        rest = it.rest()
        src = source_of(rest)
        if src is None:
            return ConcLoop(list(rest))
    loop = SymFor(ex, site, src, spec, frame, cond, elt)
    loop.take = take
    return loop


def _locals(frame, names):
    d = frame.f_locals
    return {n: d[n] for n in names if n in d}


class Inferred:
    """What the loop rule finds out by itself about the plain locals of a loop that no invariant speaks of.

    A learning pass over the body of an arbitrary iteration compares such a local before and after it: unchanged; changed by a
    constant; set to a value that depends on the iteration alone.  The pass that proves uses this as the invariant, and proves it
    again at the end of the body.  Anything else is an unknown value of which too little is known (core.fresh_weak)."""

    def __init__(self, site, table, entry):
        self.site, self.aff, self.entry, self.hv = site, table["aff"], entry, {}
        self.before = dict(core.CUR.fresh_n)        # what exists before anything is forgotten

    def names(self, known=()):
        e = self.entry
        return [nm for nm in self.site.names if nm in e and nm not in known and (isinstance(e[nm], (bool, SymBool)) or is_intlike(e[nm]))]

    def start(self, ex, names, k, given=None):
        """values of the locals at the start of iteration k; given (the learning pass): what the invariant takes further ones for"""
        self.k, self.hv = k, {}
        for nm in names:
            self.hv[nm] = self.at(ex, nm, k, given is not None)
        out = dict(self.hv)
        self.hv.update(given or {})
        return out

    def at(self, ex, nm, k, learning=False):
        v = self.entry[nm]
        a = self.aff.get(nm, ("any",))
        boolean = isinstance(v, (bool, SymBool))
        if not learning:
            if a[0] == "const":
                return v
            if a[0] == "step":
                return mk_int(z3.simplify(zi(v) + k * Z(a[1])))
            if a[0] == "becomes":
                t = z3.substitute(a[2], (a[1], k - 1))
                return mk_bool(z3.simplify(z3.If(k == 0, zb(v), t))) if boolean else mk_int(z3.simplify(z3.If(k == 0, zi(v), t)))
        t = ex.fresh_weak(nm, boolean)
        if a[0] == "range" and not learning:
            ex.assume(self.within(v, a, t, k))
        return SymBool(t) if boolean else SymInt(t)

    @staticmethod
    def within(v, a, t, k):
        return z3.And(t >= zi(v) + k * Z(a[1]), t <= zi(v) + k * Z(a[2]))

    def learn(self, ex, now):
        kn = self.k.decl().name()
        for nm, old in self.hv.items():
            new = now.get(nm)
            boolean = isinstance(self.entry[nm], (bool, SymBool))
            d = ("any",)
            if new is old:
                d = ("const",)
            elif boolean and isinstance(new, (bool, SymBool)) or not boolean and is_intlike(new) and not isinstance(new, (bool, SymBool)):
                t = z3.simplify(zb(new) if boolean else zi(new))
                df = None if boolean else z3.simplify(t - zi(old))
                if t.eq(zb(old) if boolean else zi(old)):
                    d = ("const",)
                elif df is not None and z3.is_int_value(df):
                    d = ("step", df.as_long())
                elif all(u == kn or self.old(u) for u in _symbols(t)):
                    d = ("becomes", self.k, t)
            prev = self.aff.get(nm)
            self.aff[nm] = d if prev is None or _same_rule(prev, d) else _joined(prev, d)

    def old(self, name):
        base, _, i = name.rpartition("!")
        if base and i.isdigit():
            return int(i) < self.before.get(base, 0)
        return name in self.before or name not in core.CUR.fresh_n

    def check(self, ex, now):
        """the invariant found holds after the iteration as well"""
        for nm in self.hv:
            a = self.aff.get(nm, ("any",))
            if a[0] == "any":
                continue
            if a[0] == "range":
                new = now.get(nm)
                if not is_intlike(new) or ex._check(z3.Not(self.within(self.entry[nm], a, zi(new), self.k + 1))) != z3.unsat:
                    raise Unsupported("loop variable classification failed")
                continue
            new, want = now.get(nm), self.at(ex, nm, self.k + 1)
            if new is want:
                continue
            boolean = isinstance(self.entry[nm], (bool, SymBool))
            if isinstance(new, (bool, SymBool)) != boolean or not (boolean or is_intlike(new)):
                raise Unsupported("loop variable classification failed")
            c = (zb(new) == zb(want)) if boolean else (zi(new) == zi(want))
            if ex._check(z3.Not(c)) != z3.unsat:
                raise Unsupported("loop variable classification failed")


def _joined(a, b):
    """changed by one of several constants (booleans have none)"""
    steps = {"const": lambda r: (0, 0), "step": lambda r: (r[1], r[1]), "range": lambda r: r[1:]}
    if a[0] not in steps or b[0] not in steps:
        return ("any",)
    x, y = steps[a[0]](a), steps[b[0]](b)
    return ("range", min(x[0], y[0]), max(x[1], y[1]))


def _same_rule(a, b):
    if a[0] != b[0]:
        return False
    if a[0] != "becomes":
        return a == b
    return z3.substitute(b[2], (b[1], a[1])).eq(a[2])


class SymFor:
    sym = True

    def __init__(self, ex, site, src, spec, frame, cond, elt):
        self.ex, self.site, self.src, self.spec, self.frame = ex, site, src, spec, frame
        self.cond, self.elt = cond, elt
        self.state = "start"
        self.take = None
        self._env = {}
        self.normal = False

    def __iter__(self):
        return self

    def env(self):
        return self._env

    def leave(self):
        if self.state == "learn":
            raise PathCut

    # -- entry
    def __next__(self):
        ex = self.ex
        if self.state == "start":
            return self._first()
        if self.state in ("learn", "arbitrary"):
            self._back()
        raise StopIteration

    def _first(self):
        ex = self.ex
        self.entry_locals = dict(self.frame.f_locals)
        self.n = z3.simplify(self.src.n)
        key = ("for", self.site.module, self.site.func, self.site.line, self.site.ordinal, ex.decision_key(), len(ex.pc))
        self.table = ex.loop_table.setdefault(key, {"cont": [], "aff": {}, "back": 0})
        self.inf = Inferred(self.site, self.table, self.entry_locals)
        if self.spec is not None:
            self.spec.entry(ex, self.entry_locals)
            self.phase = ex.choose(["learn", "arbitrary", "exhaust"] if self.inf.names() else ["arbitrary", "exhaust"])
        else:
            self.phase = ex.choose(["learn", "arbitrary", "exhaust"])
        k = ex.fresh_int("k") if self.phase != "exhaust" else self.n
        self.k = k
        if self.phase != "exhaust":
            ex.assume(z3.And(k >= 0, k < self.n))
        else:
            ex.assume(self.n >= 0)
        if self.phase != "learn" and self.spec is None:
            self._assume_cont(k)
        if self.spec is not None:
            self.spec.learning = self.phase == "learn"
            ov = self.spec.havoc(ex, self.entry_locals, k) or {}
            self._env = {}
            own = self.inf.names(ov)
            given = {nm: ov[nm] for nm in self.spec.unsure(ov)} if self.phase == "learn" else None
            if self.phase == "learn" and not own and not given:
                raise PathCut
            found = self.inf.start(ex, own, k, given)
            for nm in self.site.names:
                if nm in ov:
                    self._env[nm] = ov[nm]
                elif nm in found:
                    self._env[nm] = found[nm]
                else:
                    self._env[nm] = Poison(f"local {nm} of {self.site.func} after a loop iteration")
            for nm, v in ov.items():
                self._env[nm] = v
            _unaliased(self.frame, self.site, self.entry_locals, ov)
        else:
            self._env = self._havoc(k)
        if not ex.feasible():
            raise PathCut
        self.state = self.phase
        if self.phase == "exhaust":
            raise StopIteration
        if self.phase == "learn":
            ex.depth_summary += 1
        from . import heap
        self.snap = heap.Snapshot(heap.frame_roots() + heap.global_roots() + list(getattr(ex, "tracked", lambda: [])()))
        ex.notes.setdefault("snaps", []).append((self.snap, self.site))
        self.pc0 = len(ex.pc)
        self.names0 = dict(ex.fresh_n)
        return self._item(k)

    def _item(self, k):
        ex = self.ex
        if self.spec is not None:
            x = self.spec.item(ex, k, lambda: self.src.at(k))
        else:
            x = self.src.at(k)
        if self.cond is not None and not self.cond(x):
            self._back(skip=True)
        if self.elt is not None:
            x = self.elt(x)
        if self.take is not None and not self.take(x):
            self.leave()
            raise StopIteration
        return x

    def _havoc(self, k):
        """a loop without an invariant of its own: plain locals by inference, other locals stay what they are or are forgotten"""
        own = self.inf.names()
        env = self.inf.start(self.ex, own, k, {} if self.phase == "learn" else None)
        for nm in self.site.names:
            if nm in own:
                continue
            aff = self.table["aff"].get(nm)
            if nm in self.entry_locals and (self.phase == "learn" or aff is not None and aff[0] == "const"):
                continue                       # compared by identity at the back edge
            env[nm] = Poison(f"local {nm} of {self.site.func} after a loop iteration")
        return env

    def _back(self, skip=False):
        ex = self.ex
        now = self.frame.f_locals
        if skip:
            now = {**now, **self._env}
        if self.state == "learn" and self.spec is not None:
            self.inf.learn(ex, now)
            self.spec.learn(ex, now)
            raise PathCut
        if self.state == "learn":
            conds = [c for c, b in zip(ex.pc[self.pc0:], ex.is_cond[self.pc0:]) if b]
            fresh = {x for x in ex.fresh_n if ex.fresh_n[x] != self.names0.get(x)}
            self.inf.learn(ex, now)
            for nm in self.site.names:
                if nm in self.entry_locals and nm not in self.inf.hv and not (skip or now.get(nm) is self.entry_locals[nm]):
                    self.table["aff"][nm] = ("any",)
                elif nm in self.entry_locals:
                    self.table["aff"].setdefault(nm, ("const",))
            self.table["cont"].append((self.k, conds, fresh, {v.t.decl().name(): (nm, v.t) for nm, v in self.inf.hv.items() if is_sym(v)}))
            self.table["back"] += 1
            raise PathCut
        # arbitrary iteration: effects and invariant
        changes = self.snap.diff(lambda c: ex._check(z3.Not(c)) == z3.unsat)
        for path, label, old, new, obj in changes:
            own = path.startswith(f"{self.frame.f_code.co_name}:")
            if self.spec is not None and self.spec.allowed(path, label, obj):
                continue
            raise Unsupported(f"loop at {self.site.func}:{self.site.line} changes {path}{label} (no invariant for it)")
        if self.spec is not None:
            self.inf.check(ex, now)
            self.spec.back(ex, dict(now), self.k)
        else:
            self.inf.check(ex, now)
            for nm in () if skip else self.site.names:
                if nm in self.entry_locals and nm not in self.inf.hv and self.table["aff"].get(nm, ("any",))[0] == "const" and now.get(nm) is not self.entry_locals[nm]:
                    raise Unsupported("loop variable classification failed")
        raise PathCut

    def _assume_cont(self, k):
        """every earlier iteration took a continuing path of the body"""
        ex = self.ex
        conts = self.table["cont"]
        j = z3.Int(f"jl{len(ex.pc)}")
        disj = []
        for kk, conds, fresh, hv in conts:
            cs = []
            for c in conds:
                names = _consts(c)
                subs = [(kk, j)]
                ok = True
                for nmz in names:
                    if nmz in hv:
                        nm, t = hv[nmz]
                        aff = self.table["aff"].get(nm, ("any",))
                        v = self.entry_locals[nm]
                        if aff[0] in ("const", "step", "becomes"):
                            x = self.inf.at(ex, nm, j)
                            subs.append((t, zi(x) if t.sort() == z3.IntSort() else zb(x)))
                        else:
                            ok = False
                    elif nmz.split("!")[0] in fresh and nmz != kk.decl().name():
                        ok = False
                if ok:
                    cs.append(z3.substitute(c, *subs))
            disj.append(z3.And(*cs) if cs else z3.BoolVal(True))
        body = z3.simplify(z3.Or(*disj)) if disj else z3.BoolVal(False)
        if not z3.is_true(body):
            ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), body)))


def _symbols(t):
    """names of the uninterpreted constants and functions in t"""
    seen, out, work = set(), set(), [t]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            work.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            work.extend(x.children())
    return out


def _consts(t):
    seen, out, work = set(), set(), [t]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            work.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            work.extend(x.children())
    return out


def _unaliased(frame, site, old, new):
    """a mutable local that the invariant replaces must not be reachable in any other way"""
    from . import heap
    for nm, v in new.items():
        if nm in site.names or nm not in old or old[nm] is v or isinstance(v, Poison) or heap.is_atom(old[nm]):
            continue
        skip = f"{frame.f_code.co_name}:{nm}"
        roots = [(p, o) for p, o in heap.frame_roots() if not (p == skip and o is old[nm])]
        if id(old[nm]) in heap.Snapshot(roots + heap.global_roots()).objs:
            raise Unsupported(f"{nm} can be reached in another way than by its name")


class While:
    def __init__(self, ex, site, spec, frame):
        self.ex, self.site, self.spec, self.frame = ex, site, spec, frame
        self.sym = False
        self.normal = False
        self.n = 0
        self._env = {}
        self.state = "start"

    def env(self):
        return self._env

    def leave(self):
        if self.state == "learn":
            raise PathCut
        self.state = "left"

    def head(self):
        ex = self.ex
        if self.spec is None:
            self.n += 1
            if self.n > UNROLL and len(ex.taken) > getattr(self, "t0", 0):
                raise Unsupported(f"while loop at {self.site.func}:{self.site.line} has no invariant")
            if self.n == 1:
                self.t0 = len(ex.taken)
            if self.n > 200000:
                raise Unsupported("while loop does not end")
            return
        if self.state == "start":
            env = dict(self.frame.f_locals)
            self.entry_locals = env
            key = ("while", self.site.module, self.site.func, self.site.line, self.site.ordinal, ex.decision_key(), len(ex.pc))
            self.spec.entry(ex, env)
            self.inf = Inferred(self.site, ex.loop_table.setdefault(key, {"aff": {}}), env)
            phase = ex.choose(["learn", "body"]) if self.inf.names() else "body"
            self.spec.learning = phase == "learn"
            ov = self.spec.havoc(ex, env, None) or {}
            own = self.inf.names(ov)
            given = {nm: ov[nm] for nm in self.spec.unsure(ov)} if phase == "learn" else None
            if phase == "learn" and not own and not given:
                raise PathCut
            found = {}
            if own or given:
                k = ex.fresh_int("k")               # the number of rounds so far
                ex.assume(k >= 0)
                self.spec.rounds(ex, k)
                found = self.inf.start(ex, own, k, given)
            self._env = {}
            for nm in self.site.names:
                self._env[nm] = ov[nm] if nm in ov else found[nm] if nm in found else Poison(f"local {nm} of {self.site.func} in a while loop")
            self._env.update(ov)
            _unaliased(self.frame, self.site, env, ov)
            self.sym = True
            if not ex.feasible():
                raise PathCut
            from . import heap
            self.snap = heap.Snapshot(heap.frame_roots() + heap.global_roots() + list(getattr(ex, "tracked", lambda: [])()))
            ex.notes.setdefault("snaps", []).append((self.snap, self.site))
            self.state = phase
            if phase == "learn":
                ex.depth_summary += 1
            return
        if self.state == "learn":
            self.inf.learn(ex, self.frame.f_locals)
            self.spec.learn(ex, self.frame.f_locals)
            raise PathCut
        if self.state == "body":
            changes = self.snap.diff(lambda c: ex._check(z3.Not(c)) == z3.unsat)
            for path, label, old, new, obj in changes:
                if self.spec.allowed(path, label, obj):
                    continue
                raise Unsupported(f"loop at {self.site.func}:{self.site.line} changes {path}{label} (no invariant for it)")
            if self.inf.hv:
                self.inf.check(ex, self.frame.f_locals)
            self.spec.back(ex, dict(self.frame.f_locals), None)
            raise PathCut
        raise Unsupported("while loop re-entered")


def while_(site, frame):
    ex = core.CUR
    if ex is None:
        return WhilePlain()
    finder = getattr(ex, "loop_specs", None)
    spec = finder(site, "while", None, None) if finder is not None else None
    return While(ex, site, spec, frame)


class WhilePlain:
    sym = False
    normal = False

    def head(self):
        pass

    def env(self):
        return {}

    def leave(self):
        pass
