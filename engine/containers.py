"""Symbolic containers: sequences, dictionaries, sets, byte strings and files of unbounded size."""
import itertools
import z3
from . import core
from .core import Unsupported, PathCut, cur
from .symval import (SymInt, SymBool, SymReal, SymStr, SymEnum, is_sym, is_intlike, mk_int, mk_bool, zi, zb, Z)


class Poison:
    """A value the loop rule forgot; touching it leaves the verified subset."""
    __slots__ = ("_why",)

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _die(self, *a, **k):
        raise Unsupported("value not described by a loop invariant: " + object.__getattribute__(self, "_why"))

    def __getattr__(self, n):
        self._die()


for _n in ("add radd sub rsub mul rmul eq ne lt le gt ge bool len iter getitem setitem call hash index int str repr "
           "contains next format and or floordiv mod truediv").split():
    setattr(Poison, f"__{_n}__", Poison._die)


def plain(v):
    from . import heap
    return all(plain(x) for x in v) if type(v) is tuple else (is_sym(v) and isinstance(v, (SymInt, SymBool, SymReal))) or isinstance(v, (int, bool, str, bytes, type(None)))


class SymSeq:
    """List with a symbolic prefix (length base_len, element i given by base_elem) and a concrete tail."""
    enum_of = rank = efn = filter_of = sorted_of = None
    mapped = False

    def __init__(self, base_len=0, base_elem=None, tag=None, tail=(), scalar=False, lo=0):
        self.base_len = base_len          # int or z3 Int term
        self.base_elem = base_elem        # z3 Int term -> value
        self.tag = tag
        self.tail = list(tail)
        self.scalar = scalar              # elements are immutable values: no identity needed
        self.cache = []                   # [(idx term, value)] newest last
        self.log = []                     # structural mutations other than append
        self.frozen_appends = 0

    # -- length
    def len_term(self):
        return z3.simplify(zi(self.base_len) + len(self.tail))

    def sx_len(self):
        return mk_int(self.len_term(), len(self.tail))

    def __len__(self):
        n = self.sx_len()
        return n if isinstance(n, int) else cur().concretize(n.t)

    def __bool__(self):
        if self.tail:
            return True
        return cur().branch(zi(self.base_len) > 0)

    # -- elements
    def base_at(self, i):
        """element i of the prefix; caller guarantees 0 <= i < base_len"""
        i = z3.simplify(i)
        for j, v in reversed(self.cache):
            if j.eq(i):
                return v
        ex = cur()
        if not (self.scalar and not self.log):
            for j, v in reversed(self.cache):
                if ex.branch(i == j):
                    return v
        names = dict(ex.fresh_n)
        v = self.base_elem(i)
        if not self.scalar and not (plain(v) and ex.fresh_n == names):      # a value that depends on the position alone needs no identity
            e = (i, v)
            self.cache.append(e)
            from . import heap
            heap.materialised(ex, self, e, v)
        return v

    def forget(self, entry):
        self.cache = [e for e in self.cache if e is not entry]

    def _norm(self, i, n):
        """python index -> non-negative term, or raises IndexError"""
        ex = cur()
        t = zi(i)
        if ex.branch(t >= 0):
            if ex.branch(t < n):
                return z3.simplify(t)
            raise IndexError("list index out of range")
        if ex.branch(t + n >= 0):
            return z3.simplify(t + n)
        raise IndexError("list index out of range")

    def sx_getitem(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        if not is_intlike(i):
            raise TypeError("list indices must be integers or slices")
        n = self.len_term()
        t = self._norm(i, n)
        ex = cur()
        if not self.tail or ex.branch(t < zi(self.base_len)):
            return self.base_at(t)
        off = z3.simplify(t - zi(self.base_len))
        k = ex.concretize(off)
        return self.tail[k]

    __getitem__ = sx_getitem

    def slice(self, s):
        lo, hi, st = s.start, s.stop, s.step
        if lo is None and hi is None and st is None:
            return self.copy()
        ex = cur()
        n = self.sx_len()
        if st is None or st == 1:
            a = 0 if lo is None else lo
            b = n if hi is None else hi
            if isinstance(a, int) and a >= 0 and isinstance(b, int) and b >= 0 and b - a <= 64:
                out = []
                for k in range(a, b):
                    if not bool(k < n):
                        break
                    out.append(self.sx_getitem(k))
                return out
            # general non-negative bounds: a view
            def clamp(x):
                if isinstance(x, int) and x < 0:
                    x = n + x
                    return mk_int(z3.If(zi(x) < 0, Z(0), zi(x)), 0)
                if ex.branch(zi(x) < 0):
                    x = n + x
                    return mk_int(z3.If(zi(x) < 0, Z(0), zi(x)), 0)
                return mk_int(z3.If(zi(x) > zi(n), zi(n), zi(x)), 0)
            a, b = clamp(a), clamp(b)
            ln = z3.simplify(z3.If(zi(b) > zi(a), zi(b) - zi(a), Z(0)))
            return SymSeq(ln, lambda i, a=a: self.sx_getitem(mk_int(i + zi(a), 0)), tag=("slice", self.tag), scalar=True)
        raise Unsupported("slice with a step on a symbolic list")

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice assignment on a symbolic list")
        n = self.len_term()
        t = self._norm(i, n)
        ex = cur()
        if not self.tail or ex.branch(t < zi(self.base_len)):
            self.cache.append((t, v))
            self.log.append(("set", t, v))
            return
        self.tail[ex.concretize(z3.simplify(t - zi(self.base_len)))] = v

    def append(self, v):
        self.tail.append(v)

    def extend(self, it):
        if isinstance(it, SymSeq):
            if (isinstance(it.base_len, int) and it.base_len == 0):
                self.tail.extend(it.tail)
                return
            r = self + it
            self.__dict__.update({k: v for k, v in r.__dict__.items() if k != "tag"})
            return
        from .runtime import concrete_iter
        self.tail.extend(concrete_iter(it))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def pop(self, *a):
        if self.tail and (not a or a[0] == -1):
            return self.tail.pop()
        raise Unsupported("pop from a symbolic list")

    def sort(self, *, key=None, reverse=False):
        """in place: the content becomes that of sorted()"""
        from .runtime import sorted_
        if self.log:
            raise Unsupported("sorting a modified symbolic list")
        old = object.__new__(type(self))
        old.__dict__.update(self.__dict__, tail=list(self.tail), cache=list(self.cache), log=[])
        if isinstance(old.base_len, int) and old.base_len == 0:
            old = old.tail
        r = sorted_(old, key=key, reverse=reverse)
        if not isinstance(r, SymSeq):
            r = SymSeq(0, None, None, list(r))
        self.__dict__.clear()
        self.__dict__.update(r.__dict__)

    def copy(self):
        c = SymSeq(self.base_len, None, self.tag, list(self.tail), self.scalar)
        c.base_elem = lambda i: self_base(i)
        src_cache = list(self.cache)
        logged = list(self.log)

        def self_base(i):
            if not logged and not self.log:
                return self.base_at(i)
            raise Unsupported("copy of a modified symbolic list")
        c.scalar = True
        return c

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy as _c
        if self.log:
            raise Unsupported("deepcopy of a modified symbolic list")
        tail = [_c.deepcopy(x, memo) for x in self.tail]
        if self.scalar:
            return SymSeq(self.base_len, self.base_elem, self.tag, tail, True)
        return SymSeq(self.base_len, lambda i: _c.deepcopy(self.base_at(i)), ("deepcopy", self.tag), tail)

    def __add__(self, o):
        if isinstance(o, list):
            c = self.copy()
            c.tail = c.tail + o
            return c
        if isinstance(o, SymSeq):
            a, b = self.copy(), o.copy()
            n = a.len_term()
            ex = cur()

            def el(i):
                if ex.branch(i < n):
                    return a.sx_getitem(mk_int(i, 0))
                return b.sx_getitem(mk_int(i - n, 0))
            return SymSeq(z3.simplify(n + b.len_term()), el, ("concat",), scalar=True)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return SymSeq(0, None, None, o) + self
        return NotImplemented

    def __iter__(self):
        if isinstance(self.base_len, int) and self.base_len == 0:
            return iter(self.tail)
        n = z3.simplify(zi(self.base_len))
        if z3.is_int_value(n):
            return iter([self.sx_getitem(i) for i in range(n.as_long() + len(self.tail))])
        raise Unsupported("iteration over a symbolic list outside a verified loop")

    def is_concrete(self):
        return z3.is_int_value(z3.simplify(zi(self.base_len)))

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic list")

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of symbolic lists")

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"list method {n} on a symbolic list")

    def _sx_state(self):
        return (("base", id(self.base_elem), self.base_len if isinstance(self.base_len, int) else self.base_len.hash()),
                list(self.tail), [v for _, _, v in self.log])

    def _sx_children(self):
        return list(self.tail) + [v for _, v in self.cache]

    def _sx_restore(self, st):
        raise Unsupported("symbolic list in global state")


class SRange:
    """range() with symbolic bounds, or a large concrete one treated by the loop rule."""

    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step

    def sx_len(self):
        a, b, s = zi(self.a), zi(self.b), self.step
        if s > 0:
            return mk_int(z3.If(b > a, (b - a + Z(s - 1)) / Z(s), Z(0)), 0)
        return mk_int(z3.If(a > b, (a - b + Z(-s - 1)) / Z(-s), Z(0)), 0)

    def __len__(self):
        n = self.sx_len()
        return n if isinstance(n, int) else cur().concretize(n.t)

    def __bool__(self):
        return bool(self.sx_len() > 0)

    def sx_getitem(self, i):
        n = self.sx_len()
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic range")
        if bool(i < 0):
            i = i + n
        if not bool(i < n) or bool(i < 0):
            raise IndexError("range object index out of range")
        return self.a + i * self.step

    __getitem__ = sx_getitem

    def at(self, k):
        lo = None
        if self.step > 0:
            from .symval import rng
            lo = rng(self.a)[0]
        return mk_int(zi(self.a) + k * Z(self.step), lo)

    def __contains__(self, x):
        if not is_intlike(x):
            return False
        t, a, b, s = zi(x), zi(self.a), zi(self.b), self.step
        if s > 0:
            c = z3.And(t >= a, t < b)
        else:
            c = z3.And(t <= a, t > b)
        if abs(s) != 1:
            c = z3.And(c, (t - a) % Z(abs(s)) == 0)
        return cur().branch(c)

    @property
    def start(self):
        return self.a

    @property
    def stop(self):
        return self.b

    def __iter__(self):
        if isinstance(self.a, int) and isinstance(self.b, int):
            return iter(range(self.a, self.b, self.step))
        raise Unsupported("iteration over a symbolic range outside a verified loop")

    def __eq__(self, o):
        raise Unsupported("comparison of ranges")

    __hash__ = None


_DEL = object()
_MISSING = object()


_DICTS = itertools.count()


class SDict:
    """Dictionary; keys may be symbolic; optional symbolic base content."""

    def __init__(self, items=(), base_has=None, base_get=None, base_order=None, tag=None):
        self.conc = {}          # used while all keys are concrete and there is no base
        self.over = None        # list of [key, value] once symbolic keys or a base are involved
        self.base_has, self.base_get, self.base_order = base_has, base_get, base_order
        self.base_pos = None
        self.base_cache = []
        self.tag = tag
        if base_has is not None:
            self.over = []
        for k, v in items:
            self[k] = v

    def _symkey(self, k):
        return isinstance(k, (SymInt, SymBool, SymStr)) or isinstance(k, tuple) and any(self._symkey(x) for x in k)

    def _spill(self):
        if self.over is None:
            self.over = [[k, v] for k, v in self.conc.items()]

    @staticmethod
    def keyeq(a, b):
        """decides equality of keys (forks if needed)"""
        if a is b:
            return True
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                return False
            return all(SDict.keyeq(x, y) for x, y in zip(a, b))
        return bool(a == b)

    def _find(self, k):
        """returns ('over', entry) | ('base', None) | None"""
        if isinstance(k, SymEnum):
            k = k.concrete()
        if self.over is None:
            if not self._symkey(k):
                try:
                    return ("conc", self.conc[k]) if k in self.conc else None
                except TypeError:
                    raise
            for kk, v in self.conc.items():
                if type(kk) is str and is_intlike(k):
                    continue
                if self.keyeq(kk, k):
                    return ("conc", v)
            return None
        for e in reversed(self.over):
            if self.keyeq(e[0], k):
                return None if e[1] is _DEL else ("over", e)
        if self.base_has is not None and is_intlike(k):
            if cur().branch(self.base_has(zi(k))):
                return ("base", None)
        return None

    def _base_value(self, k):
        t = z3.simplify(zi(k))
        for j, v in self.base_cache:
            if j.eq(t):
                return v
        for j, v in self.base_cache:
            if cur().branch(j == t):
                return v
        v = self.base_get(t)
        e = (t, v)
        self.base_cache.append(e)
        from . import heap
        heap.materialised(cur(), self, e, v)
        return v

    def forget(self, entry):
        self.base_cache = [e for e in self.base_cache if e is not entry]

    def get(self, k, d=None):
        r = self._find(k)
        if r is None:
            return d
        if r[0] == "conc":
            return r[1]
        if r[0] == "over":
            return r[1][1]
        return self._base_value(k)

    def sx_getitem(self, k):
        r = self.get(k, _MISSING)
        if r is _MISSING:
            raise KeyError(k if not is_sym(k) else "<symbolic>")
        return r

    __getitem__ = sx_getitem

    def __setitem__(self, k, v):
        if isinstance(k, SymEnum):
            k = k.concrete()
        if self.over is None and not self._symkey(k):
            self.conc[k] = v
            return
        self._spill()
        for e in reversed(self.over):
            if self.keyeq(e[0], k):
                if e[1] is _DEL:
                    break
                e[1] = v
                return
        self.over.append([k, v])

    def __delitem__(self, k):
        if self.over is None and not self._symkey(k):
            del self.conc[k]
            return
        r = self._find(k)
        if r is None:
            raise KeyError("<symbolic>")
        self._spill()
        if self.base_has is not None:
            self.over.append([k, _DEL])
        else:
            self.over = [e for e in self.over if e is not r[1]] if r[0] == "over" else [e for e in self.over if not self.keyeq(e[0], k)]

    def __contains__(self, k):
        return self._find(k) is not None

    def setdefault(self, k, d=None):
        r = self.get(k, _MISSING)
        if r is _MISSING:
            self[k] = d
            return d
        return r

    def pop(self, k, *d):
        r = self.get(k, _MISSING)
        if r is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return r

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, SDict):
                if o.base_has is not None:
                    raise Unsupported("update from a symbolic dictionary")
                for k, v in o.items():
                    self[k] = v
            elif hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _entries(self):
        if self.over is None:
            return list(self.conc.items())
        if self.base_has is not None:
            return None
        return [(k, v) for k, v in self.over if v is not _DEL]

    def _view(self, f, tag):
        e = self._entries()
        if e is not None:
            return [f(k, v) for k, v in e]
        if self.over:
            raise Unsupported("iteration over a modified symbolic dictionary")
        if self.base_order is None:
            raise Unsupported("iteration over a symbolic dictionary")
        n, key = self.base_order

        def at(i):
            k = key(i)
            self._enumerated(i, k)
            return f(mk_int(k), self._base_value(k))
        return SymSeq(n, at, tag=(tag, self.tag), scalar=True)

    def _enumerated(self, i, k):
        """the enumeration lists members, each once"""
        if self.base_pos is None:       # no fresh symbol of the path: it may be wanted inside a summary
            self.base_pos = z3.Function(f"position_in_dict{next(_DICTS)}", z3.IntSort(), z3.IntSort())
        i = i if z3.is_expr(i) else Z(i)
        cur().assume(z3.Implies(z3.And(i >= 0, i < self.base_order[0]), z3.And(self.base_has(k), self.base_pos(k) == i)))

    def items(self):
        return self._view(lambda k, v: (k, v), "items")

    def keys(self):
        return self._view(lambda k, v: k, "keys")

    def values(self):
        return self._view(lambda k, v: v, "values")

    def __iter__(self):
        return iter(self.keys())

    def sx_len(self):
        e = self._entries()
        if e is not None:
            return len(e)
        if self.over or self.base_order is None:
            raise Unsupported("length of a symbolic dictionary")
        return mk_int(zi(self.base_order[0]), 0)

    def __len__(self):
        n = self.sx_len()
        return n if isinstance(n, int) else cur().concretize(n.t)

    def __bool__(self):
        n = self.sx_len()
        return bool(n > 0)

    def copy(self):
        if self.base_has is not None:
            raise Unsupported("copy of a symbolic dictionary")
        return SDict(self._entries())

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _c
        if self.base_has is not None:
            raise Unsupported("deepcopy of a symbolic dictionary")
        return SDict([(k, _c.deepcopy(v, memo)) for k, v in self._entries()])

    def clear(self):
        if self.base_has is not None:
            raise Unsupported("clear of a symbolic dictionary")
        self.conc, self.over = {}, None

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, (SDict, dict)):
            a, b = self._entries(), (o._entries() if isinstance(o, SDict) else list(o.items()))
            if a is None or b is None:
                raise Unsupported("comparison of symbolic dictionaries")
            if len(a) != len(b):
                return False
            for k, v in a:
                w = o.get(k, _MISSING)
                if w is _MISSING or not bool(v == w):
                    return False
            return True
        return NotImplemented

    __hash__ = None

    def __or__(self, o):
        c = self.copy()
        c.update(o)
        return c

    def _sx_state(self):
        return (("base", id(self.base_has)), [x for e in (self.over if self.over is not None else self.conc.items()) for x in e])

    def _sx_children(self):
        out = []
        for k, v in (self.over if self.over is not None else self.conc.items()):
            out += [k, v]
        return out + [v for _, v in self.base_cache]

    def _sx_save(self):
        return (dict(self.conc), None if self.over is None else [list(e) for e in self.over])

    def _sx_load(self, st):
        self.conc = dict(st[0])
        self.over = None if st[1] is None else [list(e) for e in st[1]]


class SSet:
    """Set; optional symbolic base predicate over integers."""

    def __init__(self, items=(), base_has=None, tag=None):
        self.base_has = base_has
        self.tag = tag
        self.elems = []
        for x in items:
            self.add(x)

    def _known(self, x):
        if isinstance(x, SymEnum):
            x = x.concrete()
        for e in self.elems:
            if not is_sym(e) and not is_sym(x) and not isinstance(x, tuple):
                if e == x:
                    return True
                continue
            if SDict.keyeq(e, x):
                return True
        return False

    def add(self, x):
        hash_ok(x)
        if not is_sym(x):
            if self.base_has is None and not any(is_sym(e) for e in self.elems):
                if x in self.elems:
                    return
                self.elems.append(x)
                return
        if self.base_has is not None:
            # adding an element that is already there is harmless: keep it syntactically
            for e in self.elems:
                if is_intlike(e) and is_intlike(x) and zi(e).eq(zi(x)):
                    return
            self.elems.append(x)
            return
        if not self._known(x):
            self.elems.append(x)

    def has_term(self, t):
        """z3 membership predicate for an integer term"""
        c = [zi(e) == t for e in self.elems]
        if self.base_has is not None:
            c.append(self.base_has(t))
        return z3.Or(*c) if c else z3.BoolVal(False)

    def __contains__(self, x):
        if is_intlike(x) and all(is_intlike(e) for e in self.elems):
            return cur().branch(self.has_term(zi(x)))
        return self._known(x)

    def update(self, *its):
        from .runtime import concrete_iter
        for it in its:
            for x in concrete_iter(it):
                self.add(x)

    def discard(self, x):
        if self.base_has is not None or any(is_sym(e) for e in self.elems) or is_sym(x):
            raise Unsupported("removal from a symbolic set")
        self.elems = [e for e in self.elems if e != x]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        self.base_has, self.elems = None, []

    def __iter__(self):
        if self.base_has is not None:
            raise Unsupported("iteration over a symbolic set")
        return iter(list(self.elems))

    def sx_len(self):
        if self.base_has is not None:
            raise Unsupported("length of a symbolic set")
        return len(self.elems)

    def __len__(self):
        return self.sx_len()

    def __bool__(self):
        if self.elems:
            return True
        if self.base_has is None:
            return False
        raise Unsupported("emptiness of a symbolic set")

    def copy(self):
        s = SSet((), self.base_has, self.tag)
        s.elems = list(self.elems)
        return s

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __or__(self, o):
        c = self.copy()
        c.update(o)
        return c

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if o is self:
            return True
        if self.base_has is None and not any(is_sym(e) for e in self.elems):
            try:
                return set(self.elems) == set(o)
            except TypeError:
                pass
        raise Unsupported("comparison of symbolic sets")

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"set method {n}")

    def _sx_state(self):
        return (("base", id(self.base_has)), list(self.elems))

    def _sx_children(self):
        return list(self.elems)

    def _sx_save(self):
        return (self.base_has, list(self.elems))

    def _sx_load(self, st):
        self.base_has, self.elems = st[0], list(st[1])


def hash_ok(x):
    if isinstance(x, (list, dict, set, SymSeq, SDict, SSet)):
        raise TypeError(f"unhashable type: '{type(x).__name__}'")


class SymBytes:
    """bytes: content[off .. off+length)"""

    def __init__(self, content, off, length):
        self.content, self.off, self.length = content, z3.simplify(zi(off)), z3.simplify(zi(length))

    def sx_len(self):
        return mk_int(self.length, 0)

    def __len__(self):
        n = self.sx_len()
        return n if isinstance(n, int) else cur().concretize(n.t)

    def __bool__(self):
        return cur().branch(self.length > 0)

    def byte(self, i):
        t = z3.simplify(self.content(z3.simplify(self.off + i)))
        if z3.is_int_value(t):
            return t.as_long()
        ex = cur()
        seen = ex.notes.setdefault("bytes", set())
        h = t.sexpr()
        if h not in seen:
            seen.add(h)
            ex.assume(z3.And(t >= 0, t <= 255))
        return SymInt(t, 0, 255)

    def sx_getitem(self, i):
        ex = cur()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if i.step == -1 and i.start is None and i.stop is None:
                    c, o, n = self.content, self.off, self.length
                    return SymBytes(lambda j: c(z3.simplify(o + n - 1 - j)), 0, n)
                raise Unsupported("bytes slice with a step")
            n = mk_int(self.length, 0)

            def norm(x, dflt):
                if x is None:
                    return dflt
                if bool(x < 0):
                    x = x + n
                    return 0 if bool(x < 0) else x
                return n if bool(x > n) else x
            a, b = norm(i.start, 0), norm(i.stop, n)
            if not bool(a < b):
                return b""
            return SymBytes(self.content, self.off + zi(a), zi(b) - zi(a))
        t = zi(i)
        if ex.branch(t < 0):
            t = t + self.length
        if ex.branch(z3.And(t >= 0, t < self.length)):
            return self.byte(t)
        raise IndexError("index out of range")

    __getitem__ = sx_getitem

    def __iter__(self):
        n = len(self)
        return iter([self.byte(Z(k)) for k in range(n)])

    def _eq(self, o):
        if isinstance(o, (bytes, bytearray)):
            if not cur().branch(self.length == len(o)):
                return z3.BoolVal(False)
            return z3.And(*[zi(self.byte(Z(k))) == o[k] for k in range(len(o))]) if o else z3.BoolVal(True)
        if isinstance(o, SymBytes):
            if o.content is self.content and o.off.eq(self.off) and o.length.eq(self.length):
                return z3.BoolVal(True)
            raise Unsupported("comparison of symbolic byte strings")
        return None

    def __eq__(self, o):
        t = self._eq(o)
        return NotImplemented if t is None else mk_bool(t)

    def __ne__(self, o):
        t = self._eq(o)
        return NotImplemented if t is None else mk_bool(z3.Not(t))

    def startswith(self, p):
        if not isinstance(p, bytes):
            raise Unsupported("startswith")
        if not cur().branch(self.length >= len(p)):
            return False
        return self.sx_getitem(slice(0, len(p))) == p

    def __hash__(self):
        return hash(bytes(self))

    def __bytes__(self):
        return bytes([int(x) for x in self])

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __add__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        if isinstance(o, SymBytes) and o.content is self.content and o.off.eq(z3.simplify(self.off + self.length)):
            return SymBytes(self.content, self.off, self.length + o.length)
        if isinstance(o, (bytes, bytearray)):
            o = const_bytes(o)
        if not isinstance(o, SymBytes):
            return NotImplemented
        c1, o1, n1, c2, o2 = self.content, self.off, self.length, o.content, o.off
        return SymBytes(lambda i: z3.If(i < n1, c1(z3.simplify(o1 + i)), c2(z3.simplify(o2 + i - n1))), 0, n1 + o.length)

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return self if not o else const_bytes(o) + self
        return NotImplemented

    def _strip(self, chars, left, right):
        if chars is None:
            chars = b" \t\n\r\x0b\x0c"
        if not isinstance(chars, (bytes, bytearray)):
            raise Unsupported("strip")
        ex = cur()
        c, o, n = self.content, self.off, self.length
        isin = lambda t: z3.Or(*[t == x for x in chars]) if chars else z3.BoolVal(False)
        a, b = Z(0), n
        i = z3.Int("strip_i")
        if left:
            a = ex.fresh_int("lstrip")
            ex.assume(z3.And(a >= 0, a <= n, z3.Or(a == n, z3.Not(isin(c(o + a)))),
                             z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a), isin(c(o + i))))))
        if right:
            b = ex.fresh_int("rstrip")
            ex.assume(z3.And(b >= a, b <= n, z3.Or(b == a, z3.Not(isin(c(o + b - 1)))),
                             z3.ForAll([i], z3.Implies(z3.And(i >= b, i < n), isin(c(o + i))))))
        return SymBytes(c, o + a, b - a)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _just(self, width, fill, left):
        if not (isinstance(fill, bytes) and len(fill) == 1):
            raise TypeError("fill byte")
        if cur().branch(self.length >= zi(width)):
            return self
        pad = SymBytes(lambda i: Z(fill[0]), 0, zi(width) - self.length)
        return self + pad if left else pad + self

    def ljust(self, width, fill=b" "):
        return self._just(width, fill, True)

    def rjust(self, width, fill=b" "):
        return self._just(width, fill, False)

    def hex(self):
        return bytes(self).hex()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"bytes method {n}")


def const_bytes(b):
    b = bytes(b)

    def content(i):
        t = Z(0)
        for k in range(len(b) - 1, -1, -1):
            t = z3.If(i == k, Z(b[k]), t)
        return t
    return SymBytes(content, 0, len(b))


class SymTuple(tuple):
    pass


class SymFile:
    """A seekable binary file with symbolic content of symbolic length (contract of the io dependency:
    read(n) returns the next min(n, remaining) bytes and advances by as many; seek sets the position)."""

    def __init__(self, content, length, pos=0, name="file"):
        self.content, self.length, self.pos, self.name = content, zi(length), mk_int(zi(pos)), name
        self.ops = []
        self.closed = 0

    def read(self, n=-1):
        ex = cur()
        if self.closed:
            raise ValueError("read of closed file")
        p = zi(self.pos)
        rem = z3.simplify(z3.If(self.length > p, self.length - p, Z(0)))
        if n is None or (isinstance(n, int) and n < 0):
            ln = rem
        else:
            t = zi(n)
            if not isinstance(n, int) and not (isinstance(n, SymInt) and n.lo is not None and n.lo >= 0) and ex.branch(t < 0):
                ln = rem
            elif ex.branch(t <= rem):
                ln = t
            else:
                ln = rem
        b = SymBytes(self.content, p, ln)
        self.pos = mk_int(p + ln, 0)
        self.ops.append(("read", n))
        L = z3.simplify(b.length)
        if z3.is_int_value(L) and L.as_long() == 0:
            return b""
        return b

    def seek(self, off, whence=0):
        w = whence
        if not isinstance(w, int):
            w = int(w)
        if w == 0:
            if cur().branch(zi(off) < 0):
                raise ValueError("negative seek value")
            self.pos = mk_int(zi(off), 0)
        elif w == 1:
            self.pos = mk_int(zi(self.pos) + zi(off))
            if cur().branch(zi(self.pos) < 0):
                self.pos = 0
        elif w == 2:
            self.pos = mk_int(self.length + zi(off))
        else:
            raise ValueError("invalid whence")
        self.ops.append(("seek", off, w))
        return self.pos

    def tell(self):
        return self.pos

    def seekable(self):
        return True

    def readable(self):
        return True

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __repr__(self):
        return f"<SymFile {self.name}>"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"file method {n}")

    def _sx_state(self):
        return (("pos", self.pos if isinstance(self.pos, int) else self.pos.t.hash(), self.closed, len(self.ops)),)

    def _sx_children(self):
        return []
