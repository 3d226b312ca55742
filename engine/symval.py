"""Symbolic scalar values: integers (mathematical), booleans, reals, strings, enum members."""
import enum
import re
import z3
from . import core
from .core import Unsupported, PathCut, cur

Z = z3.IntVal


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymReal, SymStr, SymEnum))


def mk_int(t, lo=None, hi=None):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t, lo, hi)


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def zi(x):
    """Python/symbolic int -> z3 Int term."""
    if isinstance(x, bool):
        return Z(1 if x else 0)
    if isinstance(x, int):
        return Z(int(x))
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, Z(1), Z(0))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not an integer: {type(x).__name__}")


def zb(x):
    """Python/symbolic truth value -> z3 Bool term (no fork)."""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymInt):
        return x.t != 0
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def is_intlike(x):
    return isinstance(x, (int, SymInt, SymBool)) and not isinstance(x, enum.Enum)


def rng(x):
    if isinstance(x, bool):
        return (int(x), int(x))
    if isinstance(x, int):
        return (x, x)
    if isinstance(x, SymInt):
        return (x.lo, x.hi)
    if isinstance(x, SymBool):
        return (0, 1)
    return (None, None)


def _mask_and(t, m, lo=None):
    """t & m for a constant m >= 0, exact for every integer t (two's complement)."""
    out = None
    bit = 0
    while m >> bit:
        if not (m >> bit) & 1:
            bit += 1
            continue
        w = 0
        while (m >> (bit + w)) & 1:
            w += 1
        part = t if bit == 0 else t / Z(1 << bit)
        part = part % Z(1 << w)
        if bit:
            part = part * Z(1 << bit)
        out = part if out is None else out + part
        bit += w
    return out if out is not None else Z(0)


def _bits_op(a, b, op):
    """bitwise op of two bounded non-negative symbolic ints, bit by bit"""
    (la, ha), (lb, hb) = rng(a), rng(b)
    if la is None or lb is None or la < 0 or lb < 0 or ha is None or hb is None:
        raise Unsupported("bitwise operation on unbounded symbolic integers")
    w = max(ha.bit_length(), hb.bit_length(), 1)
    if w > 40:
        raise Unsupported("bitwise operation on wide symbolic integers")
    ta, tb = zi(a), zi(b)
    s = Z(0)
    for i in range(w):
        x = (ta / Z(1 << i)) % 2
        y = (tb / Z(1 << i)) % 2
        if op == "&":
            r = z3.If(z3.And(x == 1, y == 1), Z(1 << i), Z(0))
        elif op == "|":
            r = z3.If(z3.Or(x == 1, y == 1), Z(1 << i), Z(0))
        else:
            r = z3.If(x != y, Z(1 << i), Z(0))
        s = s + r
    return mk_int(s, 0, (1 << w) - 1)


def _pow2_width(hi):
    return (1 << hi.bit_length()) - 1 if hi is not None and hi >= 0 else None


class SymInt:
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo=None, hi=None):
        self.t, self.lo, self.hi = t, lo, hi

    # arithmetic -----------------------------------------------------
    def __add__(self, o):
        if isinstance(o, (SymReal, float)):
            return SymReal.of(self) + o
        if not is_intlike(o):
            return NotImplemented
        (a, b), (c, d) = rng(self), rng(o)
        return mk_int(self.t + zi(o), None if a is None or c is None else a + c, None if b is None or d is None else b + d)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymReal, float)):
            return SymReal.of(self) - o
        if not is_intlike(o):
            return NotImplemented
        (a, b), (c, d) = rng(self), rng(o)
        return mk_int(self.t - zi(o), None if a is None or d is None else a - d, None if b is None or c is None else b - c)

    def __rsub__(self, o):
        if isinstance(o, float):
            return SymReal.of(o) - self
        if not is_intlike(o):
            return NotImplemented
        return mk_int(zi(o) - self.t)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        if isinstance(o, float):
            if self.lo is not None and self.hi is not None and self.hi - self.lo <= 256:
                return float(self.__index__()) * o      # small domain: exact float arithmetic
            return SymReal.of(self) * o
        if isinstance(o, SymReal):
            return o * self
        if not is_intlike(o):
            return NotImplemented
        (a, b), (c, d) = rng(self), rng(o)
        lo = hi = None
        if None not in (a, b, c, d):
            ps = (a * c, a * d, b * c, b * d)
            lo, hi = min(ps), max(ps)
        return mk_int(self.t * zi(o), lo, hi)

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.t, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __invert__(self):
        return mk_int(-self.t - 1)

    def __abs__(self):
        return mk_int(z3.If(self.t >= 0, self.t, -self.t), 0)

    def __floordiv__(self, o):
        if isinstance(o, (float, SymReal)):
            raise Unsupported("floor division of reals")
        if not is_intlike(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        if isinstance(o, (float, SymReal)):
            return SymReal.of(self) % o
        if not is_intlike(o):
            return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        if not is_intlike(o):
            return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        return (floordiv(self, o), mod(self, o))

    def __rdivmod__(self, o):
        return (floordiv(o, self), mod(o, self))

    def __truediv__(self, o):
        if isinstance(o, (SymReal, float)) or is_intlike(o):
            return SymReal.of(self) / o
        return NotImplemented

    def __rtruediv__(self, o):
        return SymReal.of(o) / self

    def __pow__(self, o, m=None):
        if m is None and isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("power of a symbolic integer")

    def __rpow__(self, o):
        return o ** self.__index__()

    # bits -------------------------------------------------------------
    def __and__(self, o):
        if not is_intlike(o):
            return NotImplemented
        if isinstance(o, int):
            o = int(o)
            if o >= 0:
                if self.lo is not None and self.hi is not None and self.lo >= 0:
                    w = _pow2_width(self.hi)
                    o &= w
                    if o == w:
                        return self
                hi = o
                return mk_int(_mask_and(self.t, o), 0, hi)
            # x & m with m < 0:  x - (x & ~m)
            return mk_int(self.t - _mask_and(self.t, ~o), 0 if self.lo is not None and self.lo >= 0 else None, self.hi)
        return _bits_op(self, o, "&")

    __rand__ = __and__

    def __or__(self, o):
        if not is_intlike(o):
            return NotImplemented
        if isinstance(o, int):
            o = int(o)
            if o >= 0:
                nn = self.lo is not None and self.lo >= 0
                hi = (_pow2_width(self.hi) | _pow2_width(o)) if nn and self.hi is not None else None
                return mk_int(self.t + Z(o) - _mask_and(self.t, o), max(self.lo, o) if nn else None, hi)
            raise Unsupported("bitwise or with a negative constant")
        return _bits_op(self, o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        if not is_intlike(o):
            return NotImplemented
        if isinstance(o, int) and int(o) >= 0:
            o = int(o)
            nn = self.lo is not None and self.lo >= 0
            hi = (_pow2_width(self.hi) | _pow2_width(o)) if nn and self.hi is not None else None
            return mk_int(self.t + Z(o) - 2 * _mask_and(self.t, o), 0 if nn else None, hi)
        return _bits_op(self, o, "^")

    __rxor__ = __xor__

    def __lshift__(self, o):
        k = o if isinstance(o, int) else o.__index__()
        if k < 0:
            raise ValueError("negative shift count")
        return self * (1 << k)

    def __rlshift__(self, o):
        if is_intlike(o):
            return o << self.__index__()
        return NotImplemented

    def __rshift__(self, o):
        k = o if isinstance(o, int) else o.__index__()
        if k < 0:
            raise ValueError("negative shift count")
        return floordiv(self, 1 << k)

    def __rrshift__(self, o):
        return o >> self.__index__()

    # comparison -------------------------------------------------------
    def _cmp(self, o, f):
        if isinstance(o, (SymReal, float)):
            return f(SymReal.of(self), o)
        if not is_intlike(o):
            return NotImplemented
        return mk_bool(f(self.t, zi(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __index__(self):
        return cur().concretize(self.t)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        if core.CUR is None:
            return f"SymInt({self.t})"
        return repr(self.__index__())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, *a, **k):
        return self.__index__().to_bytes(*a, **k)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self


def floordiv(a, b):
    if isinstance(b, int):
        d = int(b)
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if d > 0:
            lo, hi = rng(a)
            return mk_int(zi(a) / Z(d), None if lo is None else lo // d, None if hi is None else hi // d)
        return mk_int((-zi(a)) / Z(-d))
    tb = zi(b)
    ex = cur()
    if ex.branch(tb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if ex.branch(tb > 0):
        return mk_int(zi(a) / tb, 0 if rng(a)[0] is not None and rng(a)[0] >= 0 else None)
    return mk_int((-zi(a)) / (-tb))


def mod(a, b):
    if isinstance(b, int):
        d = int(b)
        if d == 0:
            raise ZeroDivisionError("integer modulo by zero")
        if d > 0:
            return mk_int(zi(a) % Z(d), 0, d - 1)
        return mk_int(-((-zi(a)) % Z(-d)))
    tb = zi(b)
    ex = cur()
    if ex.branch(tb == 0):
        raise ZeroDivisionError("integer modulo by zero")
    if ex.branch(tb > 0):
        return mk_int(zi(a) % tb, 0)
    return mk_int(-((-zi(a)) % (-tb)))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def _i(self):
        return SymInt(z3.If(self.t, Z(1), Z(0)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(self.t == zb(o))
        if is_intlike(o):
            return self._i() == o
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(self.t != zb(o))
        if is_intlike(o):
            return self._i() != o
        return NotImplemented

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(z3.And(self.t, zb(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(z3.Or(self.t, zb(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(self.t != zb(o))
        return self._i() ^ o

    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        if core.CUR is None:
            return f"SymBool({self.t})"
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _fwd(name):
    def f(self, *a):
        return getattr(self._i(), name)(*a)
    f.__name__ = name
    return f


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv mod rmod truediv rtruediv lshift rlshift rshift rrshift "
           "lt le gt ge neg pos abs invert").split():
    setattr(SymBool, f"__{_n}__", _fwd(f"__{_n}__"))


EXACT = 2 ** 51


class SymReal:
    """A float: num/den over the mathematical reals.

    How a float is rounded decides nothing as long as it is a whole number or one quotient of whole numbers, all
    below 2**51: comparisons, floors and roundings of such a value are those of the mathematical number.  `form` says
    so ("int", "quot"; None for anything else), `big` lists the whole numbers concerned.  Any other decision on a
    float is left open (both outcomes are explored) or refused.
    """
    __slots__ = ("num", "den", "form", "big")

    def __init__(self, num, den=None, form=None, big=()):
        self.num = num
        self.den = den if den is not None else z3.RealVal(1)
        self.form, self.big = form, big

    @classmethod
    def of(cls, x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, float):
            import fractions
            f = fractions.Fraction(x)
            return cls(z3.RealVal(str(f)), form="int" if f.denominator == 1 and abs(f) < EXACT else None)
        t = z3.ToReal(zi(x))
        lo, hi = rng(x)
        return cls(t, form="int", big=() if lo is not None and hi is not None and max(abs(lo), abs(hi)) < EXACT else (t,))

    def exact(self, *forms):
        if self.form not in forms:
            return False
        if not self.big:
            return True
        large = z3.Not(z3.And(*[z3.And(t < EXACT, t > -EXACT) for t in self.big]))
        return cur()._light(large) == z3.unsat or cur()._check(large) == z3.unsat

    def whole(self, what):
        """the value, where whole-number parts of it can be trusted"""
        if not self.exact("int", "quot"):
            raise Unsupported(f"{what} of rounded floating point data")
        return self.val()

    def val(self):
        return self.num / self.den

    def _one(self):
        return z3.is_rational_value(self.den) and self.den.as_fraction() == 1

    def _mixed(self, o, num, den):
        """result of a ring operation"""
        if self.form == o.form == "int" and self._one() and o._one():
            return SymReal(num, form="int", big=(*self.big, *o.big, num))
        return SymReal(num, den)

    def __add__(self, o):
        o = SymReal.of(o)
        if self.den.eq(o.den):
            return self._mixed(o, z3.simplify(self.num + o.num), self.den)
        return SymReal(self.num * o.den + o.num * self.den, self.den * o.den)

    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.num, self.den, self.form, self.big)

    def __sub__(self, o):
        return self + (-SymReal.of(o))

    def __rsub__(self, o):
        return SymReal.of(o) - self

    def __mul__(self, o):
        o = SymReal.of(o)
        return self._mixed(o, z3.simplify(self.num * o.num), z3.simplify(self.den * o.den))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymReal.of(o)
        if cur().branch(o.num == 0):
            raise ZeroDivisionError("division by zero")
        if self._one() and o._one():
            q = self.form == o.form == "int"
            return SymReal(self.num, o.num, "quot" if q else None, (*self.big, *o.big) if q else ())
        return SymReal(z3.simplify(self.num * o.den), z3.simplify(self.den * o.num))

    def __rtruediv__(self, o):
        return SymReal.of(o) / self

    def __mod__(self, o):
        o = SymReal.of(o)
        if cur().branch(o.num == 0):
            raise ZeroDivisionError("float modulo")
        return SymReal(self.val() - z3.ToReal(z3.ToInt(self.val() / o.val())) * o.val())

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return SymReal.of(o) % self

    def _cmp(self, o, f):
        o = SymReal.of(o)
        forms = (self.form, o.form)
        if not (self.exact("int", "quot") and o.exact("int", "quot") and (forms != ("quot", "quot") or self.den.eq(o.den))):
            ex = cur()
            ex.assumptions.add("a comparison of rounded floating point data may go either way")
            ex.notes["approx"] = True
            return mk_bool(ex.fresh_bool("float_comparison"))
        if self.den.eq(o.den):
            if self._one():
                return mk_bool(f(self.num, o.num))
            if cur().branch(self.den > 0):
                return mk_bool(f(self.num, o.num))
            return mk_bool(f(o.num, self.num))
        a, b = self.num * o.den, o.num * self.den
        if cur().branch(z3.simplify(self.den * o.den) > 0):
            return mk_bool(f(a, b))
        return mk_bool(f(b, a))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isinstance(o, (SymReal, float)) and not is_intlike(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not isinstance(o, (SymReal, float)) and not is_intlike(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __format__(self, spec):
        raise Unsupported("formatting a symbolic real outside instrumented code")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<real>"

    def floor(self):
        return mk_int(z3.ToInt(self.num / self.den))


# ---------------------------------------------------------------- strings
def text_code(s):
    """the token of a known text (tokens name texts injectively)"""
    return z3.IntVal(int.from_bytes(b"\1" + s.encode("utf-8", "surrogatepass"), "big"))


def ordinary_names(ex):
    """the names of the unit are nonempty and designate no standard stream"""
    ex.token_nonempty = lambda t: z3.BoolVal(True)
    ex.token_eq = lambda t, s: z3.BoolVal(False) if s in ("", "-") else t == text_code(s)


class SymStr:
    """A string made of literal pieces and rendered values.

    pieces: list of str | ("fmt", spec, conv, value) | ("tok", z3 Int term)  -- a token is an
    arbitrary string identified by an integer (uninterpreted injective naming).
    """
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = out

    @staticmethod
    def make(pieces):
        s = SymStr(pieces)
        if not s.pieces:
            return ""
        if len(s.pieces) == 1 and isinstance(s.pieces[0], str):
            return s.pieces[0]
        return s

    @staticmethod
    def token(term):
        return SymStr([("tok", term)])

    @staticmethod
    def lift(x):
        return x.pieces if isinstance(x, SymStr) else [x]

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr.make(self.pieces + SymStr.lift(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr.make(SymStr.lift(o) + self.pieces)

    def eq_term(self, o):
        """z3 term implying equality; exact when shapes align; None if undetermined."""
        a, b = self.pieces, SymStr.lift(o)
        if not isinstance(o, (str, SymStr)):
            return z3.BoolVal(False)
        if len(a) == len(b) and all(type(x) is type(y) for x, y in zip(a, b)):
            cs, exact = [], True
            for x, y in zip(a, b):
                if isinstance(x, str):
                    if x != y:
                        return None
                elif x[0] == "tok" and y[0] == "tok":
                    cs.append(x[1] == y[1])
                elif x[0] == "fmt" and y[0] == "fmt" and x[1:3] == y[1:3]:
                    cs.append(_val_eq(x[3], y[3]))
                else:
                    return None
            return z3.And(*cs) if cs else z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and not isinstance(x[0], str) and x[0][0] == "tok" and all(isinstance(i, str) for i in y):
                hook = getattr(cur(), "token_eq", None)
                if hook:
                    return hook(x[0][1], "".join(y))
        return None

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        t = self.eq_term(o)
        if t is None:
            if isinstance(o, str) and o == "" and any(isinstance(p, str) or p[0] == "fmt" for p in self.pieces):
                return False
            raise Unsupported("comparison of symbolic strings of different shape")
        if not exact_eq(self.pieces, SymStr.lift(o)):
            if cur()._check(z3.Not(t)) == z3.unsat:
                return True
            raise Unsupported("texts with different parts may be equal")
        return mk_bool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))

    def __bool__(self):
        if any(isinstance(p, str) or p[0] == "fmt" for p in self.pieces):
            return True
        hook = getattr(cur(), "token_nonempty", None)
        if hook:
            return cur().branch(hook(self.pieces[0][1]))
        raise Unsupported("truth of an unknown string")

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __str__(self):
        raise Unsupported("symbolic string used where a concrete one is needed")

    def __format__(self, spec):
        raise Unsupported("symbolic string used where a concrete one is needed")

    def __repr__(self):
        return "SymStr" + repr(self.pieces)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def startswith(self, p):
        if self.pieces and isinstance(self.pieces[0], str) and isinstance(p, str) and len(self.pieces[0]) >= len(p):
            return self.pieces[0].startswith(p)
        raise Unsupported("startswith on a symbolic string")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"string method {name} on a symbolic string")


def exact_eq(a, b):
    """for two texts of one shape: do they differ whenever a part differs?"""
    if len(a) != len(b) or any(isinstance(x, str) != isinstance(y, str) for x, y in zip(a, b)):
        return len(a) <= 1 and len(b) <= 1          # a token against a known text
    parts = [i for i, x in enumerate(a) if not isinstance(x, str)]
    for i in parts:
        x, y = a[i], b[i]
        if x[0] == "tok":
            if len(parts) > 1:
                return False
            continue
        if not (is_intlike(x[3]) and is_intlike(y[3])) or not _PLAIN.fullmatch(x[1]):
            return False
        if len(parts) == 1 or i == len(a) - 1:
            continue
        nxt = a[i + 1]
        if isinstance(nxt, str) and nxt[0] not in "0123456789abcdefABCDEF_":
            continue
        w = _fixed_width(x[1], x[3])
        if w is None or w != _fixed_width(x[1], y[3]):
            return False
    return True


_PLAIN = re.compile(r"(0?)([1-9][0-9]*)?([dxXbo]?)")


def _fixed_width(spec, v):
    _, w, ty = _PLAIN.fullmatch(spec).groups()
    w = int(w or 1)
    lo, hi = (v.lo, v.hi) if isinstance(v, SymInt) else (int(v), int(v))
    base = {"x": 16, "X": 16, "b": 2, "o": 8}.get(ty, 10)
    if lo is None or hi is None or lo < 0 or hi >= base ** w:
        return None
    return w


def _val_eq(a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        a, b = SymReal.of(a), SymReal.of(b)
        return z3.And(a.num == b.num, a.den == b.den)
    if is_intlike(a) and is_intlike(b):
        ab, bb = isinstance(a, (bool, SymBool)), isinstance(b, (bool, SymBool))
        if ab != bb:
            return z3.BoolVal(False)
        return zi(a) == zi(b)
    return z3.BoolVal(a is b or (not is_sym(a) and not is_sym(b) and a == b))


def int_spec(spec, value):
    """one spelling for the format specs that mean the same for a number that is not negative"""
    m = _SPEC.fullmatch(spec)
    if not m:
        return spec
    fill, align, zero, width, ty = m.groups()
    if not width:
        return "" if ty in ("", "d") else ty
    if zero and not align:
        fill, align = "0", "="
    if align == "=" and (fill or " ") == " ":
        return spec
    if (align or ">") not in (">", "=") or (zero and align and (fill or " ") != "0"):
        return spec
    if (fill or " ") not in "0 ":
        return spec
    if not (value.lo is not None and value.lo >= 0) and cur()._check(value.t < 0) != z3.unsat:
        return spec
    return ("0" if (fill or " ") == "0" else "") + width + ("" if ty == "d" else ty)


_SPEC = re.compile(r"(?:(.)?([<>=^]))?(0?)([1-9][0-9]*)?([dxXbo]?)")


def fmt(value, spec="", conv=None):
    """f-string piece"""
    if isinstance(value, SymEnum):
        value = value.concrete()
    if not isinstance(spec, str):
        raise Unsupported("symbolic format spec")
    if isinstance(value, SymBool) and (spec or conv):
        value = bool(value)
    if isinstance(value, SymBool):
        value = bool(value)
    if isinstance(value, SymStr):
        if spec or conv:
            raise Unsupported("format spec on a symbolic string")
        return value
    if isinstance(value, SymInt):
        if spec in ("", "d") and conv in (None, "s", "r"):
            return SymStr([("fmt", "", None, value)])
        return SymStr([("fmt", int_spec(spec, value), conv, value)])
    if isinstance(value, SymReal):
        return SymStr([("fmt", spec, conv, value)])
    if conv == "s":
        value = pystr(value)
    elif conv == "r":
        value = repr(value)
    elif conv == "a":
        value = ascii(value)
    if isinstance(value, SymStr):
        return fmt(value, spec)
    t = type(value)
    if spec == "" and t.__format__ is object.__format__:
        return pystr(value)
    return format(value, spec)


def pystr(value):
    """str(value), allowing __str__ to return a symbolic string"""
    if isinstance(value, SymStr) or isinstance(value, str) and type(value) is str:
        return value
    if isinstance(value, (SymInt, SymReal, SymBool, SymEnum)):
        return fmt(value)
    m = type(value).__str__
    if m is object.__str__ and type(value).__repr__ is not object.__repr__:
        m = type(value).__repr__
    r = m(value)
    if not isinstance(r, (str, SymStr)):
        raise TypeError(f"__str__ returned non-string (type {type(r).__name__})")
    return r


# ---------------------------------------------------------------- enum members
class SymEnum:
    """A member of an Enum/Flag class, symbolic by its integer value."""
    __slots__ = ("_cls", "_t")

    def __init__(self, cls, term):
        object.__setattr__(self, "_cls", cls)
        object.__setattr__(self, "_t", term)

    def concrete(self):
        return self._cls(cur().concretize(self._t))

    def __eq__(self, o):
        if isinstance(o, SymEnum):
            if o._cls is not self._cls:
                return False
            return mk_bool(self._t == o._t)
        if isinstance(o, self._cls):
            return mk_bool(self._t == Z(o.value))
        if isinstance(o, enum.Enum) or o is None:
            return False
        if is_intlike(o) and not issubclass(self._cls, int):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))

    def __bool__(self):
        if issubclass(self._cls, enum.Flag):
            return cur().branch(self._t != 0)
        return True

    def _bin(self, o, op):
        if not issubclass(self._cls, enum.Flag):
            return NotImplemented
        a = SymInt(self._t, 0, self.mask())
        b = SymInt(o._t, 0, self.mask()) if isinstance(o, SymEnum) else o.value
        r = a & b if op == "&" else a | b if op == "|" else a ^ b
        if isinstance(r, int):
            return self._cls(r)
        return SymEnum(self._cls, r.t)

    def mask(self):
        m = 0
        for x in self._cls:
            m |= x.value
        return m

    def __and__(self, o):
        return self._bin(o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, "^")

    def __contains__(self, o):
        r = self & o
        return bool(r == o)

    def __hash__(self):
        return hash(self.concrete())

    @property
    def value(self):
        return mk_int(self._t)

    @property
    def __class__(self):
        return self._cls

    def __getattr__(self, name):
        return getattr(self.concrete(), name)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"SymEnum({self._cls.__name__},{self._t})"


def values_equal(a, b):
    """z3 condition (or bool) that two scalar values are equal *and* of the same kind."""
    if a is b:
        return True
    if isinstance(a, SymEnum) or isinstance(b, SymEnum):
        r = (a == b) if isinstance(a, SymEnum) else (b == a)
        return r.t if isinstance(r, SymBool) else bool(r)
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
            return False
        s = a if isinstance(a, SymStr) else b
        o = b if s is a else a
        t = s.eq_term(o)
        return False if t is None else t
    if is_intlike(a) and is_intlike(b):
        ab, bb = isinstance(a, (bool, SymBool)), isinstance(b, (bool, SymBool))
        if ab != bb:
            return False
        if ab:
            return z3.simplify(zb(a) == zb(b))
        return z3.simplify(zi(a) == zi(b))
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        if isinstance(a, (SymReal, float)) and isinstance(b, (SymReal, float)):
            return _val_eq(a, b)
        return False
    if is_sym(a) or is_sym(b):
        return False
    return type(a) is type(b) and a == b
