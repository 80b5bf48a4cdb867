"""Proxies for symbolic bool, int, real, str and bytes values.

Strings and byte strings have a concrete length and symbolic elements (integers
in the solver), so all operations on them are exact.  A value whose symbolic
parts all became concrete is turned back into a plain Python object.
"""
from . import core
from .core import Unsupported
from .core import current
from .core import z3
import itertools

_hash_counter = itertools.count(0x5eed)
IDHASH = [0]          # > 0 while a shim inserts into or looks up in a native container
SYMKEYS = [False]     # a symbolic key was put into a container on this path
HASHED = [0]          # number of symbolic values hashed by identity
SYMOBJS = [True]      # objects used as keys may hash symbolic values


def reset_path():
    SYMKEYS[0] = False
    global _hash_counter
    _hash_counter = itertools.count(0x5eed)
    CHAR_HI.clear()


# -- helpers for expressions which may be plain python values

def e_and(parts):
    res = []
    for p in parts:
        if p is True:
            continue
        if p is False:
            return False
        if z3.is_false(p):
            return False
        if z3.is_true(p):
            continue
        res.append(p)
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    return z3.And(*res)


def e_or(parts):
    res = []
    for p in parts:
        if p is False:
            continue
        if p is True:
            return True
        if z3.is_true(p):
            return True
        if z3.is_false(p):
            continue
        res.append(p)
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    return z3.Or(*res)


def e_not(p):
    if isinstance(p, bool):
        return not p
    return z3.Not(p)


def e_if(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, a, b)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def mk_int(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def branch(e):
    if isinstance(e, bool):
        return e
    return current().branch(e)


# char domain knowledge, keyed by expression id (the expression is kept alive)
CHAR_HI = {}


def char_hi(c):
    if isinstance(c, int):
        return c
    r = CHAR_HI.get(c.get_id())
    return r[1] if r is not None else 0x10ffff


def set_char_hi(c, hi):
    if not isinstance(c, int):
        CHAR_HI[c.get_id()] = (c, hi)
    return c


def is_ascii(c):
    if char_hi(c) < 128:
        return True
    return branch(c < 128)


def in_range(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return z3.And(c >= lo, c <= hi)


def in_set(c, values):
    """ expression for `c` being one of the ints in values """
    if isinstance(c, int):
        return c in values
    hi = char_hi(c)
    vals = sorted(v for v in set(values) if v <= hi)
    parts = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        if i == j:
            parts.append(c == vals[i])
        else:
            parts.append(z3.And(c >= vals[i], c <= vals[j]))
        i = j + 1
    return e_or(parts)


class SymBase:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")


class SBool(SymBase):
    __slots__ = ('_h', 'e')

    def __init__(self, e):
        self.e = e
        self._h = None

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return current().branch(self.e)

    def __eq__(self, other):
        if type(other) is SBool:
            return mk_bool(self.e == other.e)
        if other is True:
            return self
        if other is False:
            return SBool(z3.Not(self.e))
        if isinstance(other, (int, float)):
            return as_sint(self) == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else s_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        if type(other) is SBool:
            return mk_bool(z3.And(self.e, other.e))
        if isinstance(other, bool):
            return self if other else False
        return NotImplemented
    __rand__ = __and__

    def __or__(self, other):
        if type(other) is SBool:
            return mk_bool(z3.Or(self.e, other.e))
        if isinstance(other, bool):
            return True if other else self
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, other):
        return s_not(self == other)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "True" if bool(self) else "False"

    __str__ = __repr__

    def __add__(self, o):
        return as_sint(self) + o
    __radd__ = __add__

    def __lt__(self, o):
        return as_sint(self) < o

    def __le__(self, o):
        return as_sint(self) <= o

    def __gt__(self, o):
        return as_sint(self) > o

    def __ge__(self, o):
        return as_sint(self) >= o


def s_not(x):
    if type(x) is SBool:
        return mk_bool(z3.Not(x.e))
    return not x


def as_sint(x):
    if type(x) is SBool:
        return SInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    return x


def _real(x):
    if type(x) is SReal:
        return x.e
    if type(x) is SInt:
        return z3.ToReal(x.e)
    if type(x) is SBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    from fractions import Fraction
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def _cmp(op):
    def method(self, other):
        if type(other) is SBool:
            other = as_sint(other)
        if type(self) is SInt and type(other) is SInt:
            return mk_bool(op(self.e, other.e))
        if type(self) is SInt and type(other) in (int, bool):
            return mk_bool(op(self.e, int(other)))
        if type(other) in (SInt, SReal, int, bool, float):
            if type(other) is float and other in (float('inf'), float('-inf')):
                return op(0, other)
            return mk_bool(op(_real(self), _real(other)))
        if isinstance(other, int):
            return mk_bool(op(self.e, int(other)))
        return NotImplemented
    return method


class SNum(SymBase):
    __slots__ = ('_h', 'e')

    def __init__(self, e):
        self.e = e
        self._h = None

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    _eq = _cmp(lambda a, b: a == b)

    def __eq__(self, other):
        return self._eq(other)

    def __ne__(self, other):
        r = self._eq(other)
        return r if r is NotImplemented else s_not(r)

    def __bool__(self):
        return current().branch(self.e != 0)

    def __neg__(self):
        return type(self)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def __repr__(self):
        return str(current().concretize(self.e))

    def __format__(self, spec):
        return format(current().concretize(self.e), spec)


def _arith(op, *, swap=False):
    def method(self, other):
        if type(other) is SBool:
            other = as_sint(other)
        if type(self) is SInt and type(other) is SInt:
            a, b = self.e, other.e
            return mk_int(op(b, a) if swap else op(a, b))
        if type(self) is SInt and isinstance(other, int):
            a, b = self.e, int(other)
            return mk_int(z3.simplify(op(b, a) if swap else op(a, b)))
        if type(other) in (SInt, SReal) or isinstance(other, (int, float)):
            a, b = _real(self), _real(other)
            return SReal(op(b, a) if swap else op(a, b))
        return NotImplemented
    return method


class SInt(SNum):
    __slots__ = ()

    __class__ = property(lambda self: int)

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: a + b, swap=True)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: a - b, swap=True)

    def __mul__(self, other):
        if isinstance(other, (str, bytes, list, tuple)) or type(other) in (SStr, SBytes):
            return other * current().concretize(self.e)
        if type(other) is SInt:
            other = current().concretize(other.e)
        if type(other) is SReal:
            return other * self
        if isinstance(other, int):
            return mk_int(z3.simplify(self.e * int(other)))
        if isinstance(other, float):
            return SReal(_real(self) * _real(other))
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, other):
        if type(other) in (SInt, SReal):
            other = current().concretize(other.e)
        if not other:
            raise ZeroDivisionError("division by zero")
        return SReal(_real(self) / _real(other))

    def __rtruediv__(self, other):
        return other / current().concretize(self.e)

    def _divmod_arg(self, other):
        if type(other) is SInt:
            other = current().concretize(other.e)
        if not isinstance(other, int):
            raise Unsupported("integer division by %r" % type(other))
        if other == 0:
            raise ZeroDivisionError("integer modulo by zero")
        if other < 0:
            raise Unsupported("integer division by negative value")
        return other

    def __floordiv__(self, other):
        if type(other) is float:
            raise Unsupported("float floordiv")
        return mk_int(self.e / self._divmod_arg(other))

    def __rfloordiv__(self, other):
        return other // current().concretize(self.e)

    def __mod__(self, other):
        return mk_int(self.e % self._divmod_arg(other))

    def __rmod__(self, other):
        return other % current().concretize(self.e)

    def __divmod__(self, other):
        return (self // other, self % other)

    def __pow__(self, other):
        return current().concretize(self.e) ** other

    def __and__(self, other):
        if type(other) is SBool:
            other = as_sint(other)
        if isinstance(other, int) and type(other) is not SInt:
            if other >= 0 and (other & (other + 1)) == 0:
                return mk_int(self.e % (other + 1)) if other else 0
            if branch(z3.And(self.e >= 0, self.e < 2 ** 32)):
                if other < 0:
                    other &= 0xffffffff
                return mk_int(z3.BV2Int(
                    z3.Int2BV(self.e, 32) & z3.BitVecVal(other & 0xffffffff, 32)))
        return current().concretize(self.e) & other
    __rand__ = __and__

    def __or__(self, other):
        return current().concretize(self.e) | other
    __ror__ = __or__

    def __xor__(self, other):
        return current().concretize(self.e) ^ other
    __rxor__ = __xor__

    def __invert__(self):
        return mk_int(-self.e - 1)

    def __lshift__(self, other):
        if isinstance(other, int) and type(other) is not SInt:
            return mk_int(self.e * (1 << other))
        return current().concretize(self.e) << other

    def __rshift__(self, other):
        if isinstance(other, int) and type(other) is not SInt:
            return mk_int(self.e / (1 << other))
        return current().concretize(self.e) >> other

    def __index__(self):
        return current().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(current().concretize(self.e))

    def __hash__(self):
        return _shash(self)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def bit_length(self):
        return current().concretize(self.e).bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    def is_integer(self):
        return True


def int_to_bytes(x, length, byteorder="big", signed=False):
    if not is_sym(x):
        return x.to_bytes(length, byteorder, signed=signed)
    n = 256 ** length
    if signed:
        ok = z3.And(x.e >= -(n // 2), x.e < n // 2)
    else:
        ok = z3.And(x.e >= 0, x.e < n)
    if not branch(ok):
        raise OverflowError("int too big to convert")
    ex = current()
    elems = []
    total = 0
    for i in range(length):
        b = ex.fresh("b!")
        ex.assume(z3.And(b >= 0, b < 256))
        set_char_hi(b, 255)
        elems.append(b)
        total = total * 256 + b
    if signed:
        ex.assume(z3.If(x.e >= 0, x.e, x.e + n) == total)
    else:
        ex.assume(x.e == total)
    if byteorder == "little":
        elems.reverse()
    return mk_bytes(elems)


def int_from_bytes(b, byteorder="big", *, signed=False):
    elems = list(b.elems) if type(b) is SBytes else list(b)
    if byteorder == "little":
        elems.reverse()
    total = 0
    for x in elems:
        total = total * 256 + x
    if isinstance(total, int):
        if signed and elems and total >= 256 ** len(elems) // 2:
            total -= 256 ** len(elems)
        return total
    if signed and elems:
        n = 256 ** len(elems)
        total = z3.If(total >= n // 2, total - n, total)
    return mk_int(total)


class SReal(SNum):
    __slots__ = ()

    __class__ = property(lambda self: float)

    def __add__(self, o):
        return SReal(self.e + _real(o))
    __radd__ = __add__

    def __sub__(self, o):
        return SReal(self.e - _real(o))

    def __rsub__(self, o):
        return SReal(_real(o) - self.e)

    def __mul__(self, o):
        if is_sym(o):
            o = current().concretize(o.e)
        return SReal(self.e * _real(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_sym(o):
            o = current().concretize(o.e)
        if not o:
            raise ZeroDivisionError("float division by zero")
        return SReal(self.e / _real(o))

    def __hash__(self):
        return hash(current().concretize(self.e))

    def __float__(self):
        return float(current().concretize(self.e))

    def __int__(self):
        return int(current().concretize(self.e))

    def __round__(self, n=None):
        if n is None:
            return mk_int(z3.ToInt(self.e + z3.RealVal("1/2")))
        raise Unsupported("round with digits")

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))


def _shash(obj):
    if IDHASH[0]:
        HASHED[0] += 1
        if obj._h is None:
            SYMKEYS[0] = True
            obj._h = next(_hash_counter) * 0x9e3779b97f4a7c15 % (2 ** 61 - 1)
        return obj._h
    if obj._h is not None:
        raise Unsupported("native hash of a symbolic container key")
    # native code wants the value, so fix it by case splitting
    return hash(concrete(obj))


def _elems(x):
    t = type(x)
    if t is SStr or t is SBytes:
        return x.elems
    if isinstance(x, str):
        return tuple(map(ord, x))
    e = getattr(x, "elems", None)
    if e is not None:
        return tuple(e)
    return tuple(x)


def _match_at(s, sub, pos):
    if pos < 0 or pos + len(sub) > len(s):
        return False
    return e_and(_ceq(s[pos + i], c) for i, c in enumerate(sub))


def _ceq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        if a > char_hi(b):
            return False
        return b == a
    if isinstance(b, int):
        return a == b if b <= char_hi(a) else False
    if a is b or a.eq(b):
        return True
    return a == b


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return e_and(_ceq(x, y) for x, y in zip(a, b))


def seq_lt(a, b, *, or_equal):
    # lexicographic comparison without case splits
    res = or_equal if len(a) == len(b) else len(a) < len(b)
    if len(a) != len(b):
        res = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                res = x < y
            continue
        res = e_or([x < y, e_and([_ceq(x, y), res])])
    return res


WHITESPACE = frozenset(
    c for c in range(0x3001) if chr(c).isspace())
BWHITESPACE = frozenset(b' \t\n\r\x0b\x0c')


class SSeq(SymBase):
    __slots__ = ('_h', 'elems')

    def __init__(self, elems):
        self.elems = tuple(elems)
        self._h = None

    def _coerce(self, other):
        if type(other) is type(self) or isinstance(other, self._native) or (
                self._native is bytes and isinstance(other, (bytearray, memoryview))):
            return _elems(other)
        return None

    def __len__(self):
        return len(self.elems)

    def __bool__(self):
        return bool(self.elems)

    def __hash__(self):
        return _shash(self)

    def __eq__(self, other):
        if other is self:
            return True
        o = self._coerce(other)
        if o is None:
            return NotImplemented
        return mk_bool(seq_eq(self.elems, o))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else s_not(r)

    def _order(self, other, or_equal, swap):
        o = self._coerce(other)
        if o is None:
            return NotImplemented
        a, b = (o, self.elems) if swap else (self.elems, o)
        return mk_bool(seq_lt(a, b, or_equal=or_equal))

    def __lt__(self, other):
        return self._order(other, False, False)

    def __le__(self, other):
        return self._order(other, True, False)

    def __gt__(self, other):
        return self._order(other, False, True)

    def __ge__(self, other):
        return self._order(other, True, True)

    def __add__(self, other):
        o = self._coerce(other)
        if o is None:
            return NotImplemented
        return self._mk(self.elems + o)

    def __radd__(self, other):
        o = self._coerce(other)
        if o is None:
            return NotImplemented
        return self._mk(o + self.elems)

    def __mul__(self, n):
        return self._mk(self.elems * n.__index__())
    __rmul__ = __mul__

    def __iter__(self):
        for i in range(len(self.elems)):
            yield self[i]

    def _arg(self, x):
        o = self._coerce(x)
        if o is None:
            raise TypeError("a %s-like object is required, not %r" % (
                self._native.__name__, type(x).__name__))
        return o

    def _bounds(self, start, end):
        return slice(start, end).indices(len(self.elems))[:2]

    def startswith(self, prefix, start=None, end=None):
        s = self
        if start is not None or end is not None:
            s0, e0 = self._bounds(start, end)
            sub = self.elems[s0:e0]
        else:
            sub = s.elems
        if isinstance(prefix, tuple):
            return mk_bool(e_or([
                _match_at(sub, self._arg(p), 0) for p in prefix]))
        return mk_bool(_match_at(sub, self._arg(prefix), 0))

    def endswith(self, suffix, start=None, end=None):
        if start is not None or end is not None:
            s0, e0 = self._bounds(start, end)
            sub = self.elems[s0:e0]
        else:
            sub = self.elems
        if isinstance(suffix, tuple):
            parts = [self._arg(p) for p in suffix]
            return mk_bool(e_or([
                _match_at(sub, p, len(sub) - len(p)) for p in parts]))
        p = self._arg(suffix)
        return mk_bool(_match_at(sub, p, len(sub) - len(p)))

    def find(self, sub, start=None, end=None):
        o = self._fsub(sub)
        s0, e0 = self._bounds(start, end)
        if s0 > len(self.elems):
            return -1
        for i in range(s0, e0 - len(o) + 1):
            if branch(_match_at(self.elems[:e0], o, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        o = self._fsub(sub)
        s0, e0 = self._bounds(start, end)
        for i in range(e0 - len(o), s0 - 1, -1):
            if branch(_match_at(self.elems[:e0], o, i)):
                return i
        return -1

    def _fsub(self, sub):
        if self._native is bytes and isinstance(sub, int):
            return (sub.e if type(sub) is SInt else sub,)
        return self._arg(sub)

    def index(self, *args):
        i = self.find(*args)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *args):
        i = self.rfind(*args)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        o = self._fsub(sub)
        s0, e0 = self._bounds(start, end)
        if not o:
            return e0 - s0 + 1
        if len(o) == 1:
            total = 0
            for c in self.elems[s0:e0]:
                q = _ceq(c, o[0])
                total = total + (int(q) if isinstance(q, bool) else z3.If(q, 1, 0))
            return mk_int(total)
        n = 0
        i = s0
        while i <= e0 - len(o):
            if branch(_match_at(self.elems[:e0], o, i)):
                n += 1
                i += len(o)
            else:
                i += 1
        return n

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def contains(self, sub):
        o = self._fsub(sub)
        return mk_bool(e_or([
            _match_at(self.elems, o, i)
            for i in range(len(self.elems) - len(o) + 1)]))

    def _strip_test(self, chars):
        if chars is None:
            ws = self._ws
            return lambda c: branch(in_set(c, ws))
        cs = self._arg(chars)
        return lambda c: branch(e_or([_ceq(c, x) for x in cs]))

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.elems) and t(self.elems[i]):
            i += 1
        return self._mk(self.elems[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        i = len(self.elems)
        while i > 0 and t(self.elems[i - 1]):
            i -= 1
        return self._mk(self.elems[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        if is_sym(r):
            return r.rstrip(chars)
        return type(self)(_elems(r)).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        res = []
        elems = self.elems
        if sep is None:
            ws = self._ws
            i = 0
            n = len(elems)
            while True:
                while i < n and branch(in_set(elems[i], ws)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(res) >= maxsplit:
                    res.append(self._mk(elems[i:n]))
                    break
                j = i
                while j < n and not branch(in_set(elems[j], ws)):
                    j += 1
                res.append(self._mk(elems[i:j]))
                i = j
            return res
        o = self._arg(sep)
        if not o:
            raise ValueError("empty separator")
        start = i = 0
        while i <= len(elems) - len(o):
            if 0 <= maxsplit <= len(res):
                break
            if branch(_match_at(elems, o, i)):
                res.append(self._mk(elems[start:i]))
                i += len(o)
                start = i
            else:
                i += 1
        res.append(self._mk(elems[start:]))
        return res

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise Unsupported("rsplit on whitespace with maxsplit")
        o = self._arg(sep)
        if not o:
            raise ValueError("empty separator")
        elems = self.elems
        res = []
        end = len(elems)
        i = end - len(o)
        while i >= 0:
            if 0 <= maxsplit <= len(res):
                break
            if branch(_match_at(elems, o, i)):
                res.append(self._mk(elems[i + len(o):end]))
                end = i
                i -= len(o)
            else:
                i -= 1
        res.append(self._mk(elems[:end]))
        res.reverse()
        return res

    def partition(self, sep):
        i = self.find(sep)
        n = len(self._arg(sep))
        if i < 0:
            e = self._mk(())
            return (self, e, e)
        return (self._mk(self.elems[:i]), sep, self._mk(self.elems[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        n = len(self._arg(sep))
        if i < 0:
            e = self._mk(())
            return (e, e, self)
        return (self._mk(self.elems[:i]), sep, self._mk(self.elems[i + n:]))

    def replace(self, old, new, count=-1):
        o = self._arg(old)
        nw = self._arg(new)
        count = count.__index__()
        res = []
        if not o:
            raise Unsupported("replace of empty string")
        i = 0
        n = 0
        elems = self.elems
        # replacing a character by a character doesn't need case splits
        if len(o) == 1 and len(nw) == 1 and count < 0:
            out = []
            for c in elems:
                r = e_if(_ceq(c, o[0]), nw[0], c)
                if not isinstance(r, int):
                    set_char_hi(r, max(char_hi(c), char_hi(nw[0])))
                out.append(r)
            return self._mk(out)
        while i < len(elems):
            if (count < 0 or n < count) and branch(_match_at(elems, o, i)):
                res.extend(nw)
                i += len(o)
                n += 1
            else:
                res.append(elems[i])
                i += 1
        return self._mk(res)

    def join(self, items):
        return join(self, items)

    def removeprefix(self, prefix):
        if prefix and self.startswith(prefix):
            return self._mk(self.elems[len(prefix):])
        return self

    def removesuffix(self, suffix):
        if suffix and self.endswith(suffix):
            return self._mk(self.elems[:len(self.elems) - len(suffix)])
        return self

    def _map_ascii(self, lo, hi, delta, native):
        out = []
        for c in self.elems:
            if isinstance(c, int):
                r = native(c)
                out.extend(r)
                continue
            if not is_ascii(c):
                c = current().concretize(c)
                out.extend(native(c))
                continue
            r = z3.If(z3.And(c >= lo, c <= hi), c + delta, c)
            set_char_hi(r, 127)
            out.append(r)
        return self._mk(out)

    def _all(self, pred):
        if not self.elems:
            return False
        return mk_bool(e_and(pred(c) for c in self.elems))

    def isdigit(self):
        return self._all(lambda c: self._cls(c, self._isdigit))

    def isalpha(self):
        return self._all(lambda c: self._cls(c, self._isalpha))

    def isalnum(self):
        return self._all(lambda c: self._cls(c, self._isalnum))

    def isspace(self):
        return self._all(lambda c: in_set(c, self._ws))

    def _cls(self, c, native):
        if isinstance(c, int):
            return native(c)
        if not is_ascii(c):
            return native(current().concretize(c))
        return in_set(c, [x for x in range(128) if native(x)])

    def splitlines(self, keepends=False):
        res = []
        start = i = 0
        elems = self.elems
        ends = self._lineends
        while i < len(elems):
            if branch(in_set(elems[i], ends)):
                j = i + 1
                if branch(_ceq(elems[i], 13)) and j < len(elems) and branch(_ceq(elems[j], 10)):
                    j += 1
                res.append(self._mk(elems[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < len(elems):
            res.append(self._mk(elems[start:]))
        return res

    def ljust(self, width, fill=None):
        f = self._arg(fill)[0] if fill is not None else 32
        return self._mk(self.elems + (f,) * max(0, width - len(self.elems)))

    def rjust(self, width, fill=None):
        f = self._arg(fill)[0] if fill is not None else 32
        return self._mk((f,) * max(0, width - len(self.elems)) + self.elems)

    def zfill(self, width):
        if self.elems and branch(in_set(self.elems[0], (43, 45))):
            raise Unsupported("zfill with sign")
        return self._mk((48,) * max(0, width - len(self.elems)) + self.elems)


class SStr(SSeq):
    __slots__ = ()
    _native = str
    _ws = WHITESPACE
    _lineends = frozenset(
        (10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029))

    __class__ = property(lambda self: str)

    @staticmethod
    def _mk(elems):
        return mk_str(elems)

    _isdigit = staticmethod(lambda c: chr(c).isdigit())
    _isalpha = staticmethod(lambda c: chr(c).isalpha())
    _isalnum = staticmethod(lambda c: chr(c).isalnum())

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_str(self.elems[i])
        return mk_str((self.elems[i],))

    def lower(self):
        return self._map_ascii(65, 90, 32, lambda c: tuple(map(ord, chr(c).lower())))

    casefold = lower

    def upper(self):
        return self._map_ascii(97, 122, -32, lambda c: tuple(map(ord, chr(c).upper())))

    def title(self):
        return concrete(self).title()

    def capitalize(self):
        return concrete(self).capitalize()

    def isidentifier(self):
        return concrete(self).isidentifier()

    def isascii(self):
        return mk_bool(e_and(
            True if char_hi(c) < 128 else c < 128 for c in self.elems))

    def isdecimal(self):
        return self._all(lambda c: self._cls(c, lambda x: chr(x).isdecimal()))

    isnumeric = isdecimal

    def isupper(self):
        return concrete(self).isupper()

    def islower(self):
        return concrete(self).islower()

    def isprintable(self):
        if not self.elems:
            return True
        return self._all(lambda c: self._cls(c, lambda x: chr(x).isprintable()))

    def expandtabs(self, tabsize=8):
        return concrete(self).expandtabs(tabsize)

    def translate(self, table):
        return concrete(self).translate(table)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if errors not in ("strict", "surrogateescape"):
            return concrete(self).encode(encoding, errors)
        out = []
        if enc in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1"):
            lim = 128 if "ascii" in enc else 256
            for i, c in enumerate(self.elems):
                if char_hi(c) < lim or branch(c < lim):
                    out.append(c)
                else:
                    raise UnicodeEncodeError(
                        enc, "?", i, i + 1, "ordinal not in range")
            return mk_bytes(out)
        if enc not in ("utf-8", "utf8"):
            return concrete(self).encode(encoding, errors)
        for i, c in enumerate(self.elems):
            if char_hi(c) < 128 or branch(c < 128):
                out.append(c)
            elif char_hi(c) < 0x800 or branch(c < 0x800):
                out.append(_e(0xc0 + c / 64 if not isinstance(c, int) else 0xc0 + c // 64))
                out.append(_e(0x80 + c % 64))
            elif char_hi(c) < 0x10000 or branch(c < 0x10000):
                if branch(in_range(c, 0xd800, 0xdfff)):
                    if errors == "surrogateescape" and branch(in_range(c, 0xdc80, 0xdcff)):
                        out.append(_e(c - 0xdc00))
                        continue
                    raise UnicodeEncodeError(
                        "utf-8", "\ud800", 0, 1, "surrogates not allowed")
                out.append(_e(0xe0 + _div(c, 4096)))
                out.append(_e(0x80 + _div(c, 64) % 64))
                out.append(_e(0x80 + c % 64))
            else:
                out.append(_e(0xf0 + _div(c, 262144)))
                out.append(_e(0x80 + _div(c, 4096) % 64))
                out.append(_e(0x80 + _div(c, 64) % 64))
                out.append(_e(0x80 + c % 64))
        return mk_bytes(out)

    def format(self, *args, **kw):
        from .shims import str_format
        return str_format(concrete(self), args, kw)

    def __mod__(self, args):
        from .shims import str_mod
        return str_mod(concrete(self), args)

    def __rmod__(self, other):
        from .shims import str_mod
        return str_mod(other, self)

    def __str__(self):
        # only native code gets here, instrumented code uses a shim
        return concrete(self)

    def __repr__(self):
        return repr(concrete(self))

    def __format__(self, spec):
        return format(concrete(self), spec)

    def __fspath__(self):
        raise TypeError("str is no path")


def _div(c, n):
    return c // n if isinstance(c, int) else c / n


def _e(c):
    if not isinstance(c, int):
        set_char_hi(c, 255)
    return c


class SBytes(SSeq):
    __slots__ = ()
    _native = bytes
    _ws = BWHITESPACE
    _lineends = frozenset((10, 13))

    __class__ = property(lambda self: bytes)

    @staticmethod
    def _mk(elems):
        return mk_bytes(elems)

    _isdigit = staticmethod(lambda c: bytes([c]).isdigit())
    _isalpha = staticmethod(lambda c: bytes([c]).isalpha())
    _isalnum = staticmethod(lambda c: bytes([c]).isalnum())

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_bytes(self.elems[i])
        return mk_int(self.elems[i])

    def lower(self):
        return self._map_ascii(65, 90, 32, lambda c: tuple(bytes([c]).lower()))

    def upper(self):
        return self._map_ascii(97, 122, -32, lambda c: tuple(bytes([c]).upper()))

    def hex(self):
        out = []
        for c in self.elems:
            for d in ((_div(c, 16)), (c % 16)):
                if isinstance(d, int):
                    out.append(ord("0123456789abcdef"[d]))
                else:
                    r = z3.If(d < 10, 48 + d, 87 + d)
                    set_char_hi(r, 127)
                    out.append(r)
        return mk_str(out)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        out = []
        if errors not in ("strict", "surrogateescape"):
            return concrete(self).decode(encoding, errors)
        if enc in ("ascii", "us-ascii"):
            for i, c in enumerate(self.elems):
                if not is_ascii(c):
                    raise UnicodeDecodeError(
                        "ascii", b"?", 0, 1, "ordinal not in range(128)")
                out.append(c)
            return mk_str(out)
        if enc in ("latin-1", "latin1", "iso-8859-1"):
            return mk_str(self.elems)
        if enc not in ("utf-8", "utf8"):
            return concrete(self).decode(encoding, errors)
        elems = self.elems
        i = 0

        def bad():
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid utf-8")

        def cont(k):
            if k >= len(elems) or not branch(in_range(elems[k], 0x80, 0xbf)):
                bad()
            return elems[k] - 0x80
        while i < len(elems):
            c = elems[i]
            if is_ascii(c):
                out.append(c)
                i += 1
                continue
            if errors == "surrogateescape":
                return concrete(self).decode(encoding, errors)
            if branch(in_range(c, 0xc2, 0xdf)):
                r = (c - 0xc0) * 64 + cont(i + 1)
                out.append(set_char_hi(r, 0x7ff))
                i += 2
            elif branch(in_range(c, 0xe0, 0xef)):
                a = cont(i + 1)
                b = cont(i + 2)
                r = (c - 0xe0) * 4096 + a * 64 + b
                if not branch(r >= 0x800) or branch(in_range(r, 0xd800, 0xdfff)):
                    bad()
                out.append(set_char_hi(r, 0xffff))
                i += 3
            elif branch(in_range(c, 0xf0, 0xf4)):
                a = cont(i + 1)
                b = cont(i + 2)
                d = cont(i + 3)
                r = (c - 0xf0) * 262144 + a * 4096 + b * 64 + d
                if not branch(in_range(r, 0x10000, 0x10ffff)):
                    bad()
                out.append(r)
                i += 4
            else:
                bad()
        return mk_str(out)

    def __str__(self):
        return str(concrete(self))

    def __repr__(self):
        return repr(concrete(self))

    def __bytes__(self):
        return concrete(self)


def _simplify_elems(elems):
    out = []
    sym = False
    for c in elems:
        if isinstance(c, int):
            out.append(c)
        elif z3.is_int_value(c):
            out.append(c.as_long())
        else:
            if c.num_args() and all(z3.is_int_value(x) for x in c.children()):
                s = z3.simplify(c)
                if z3.is_int_value(s):
                    out.append(s.as_long())
                    continue
            out.append(c)
            sym = True
    return out, sym


def mk_str(elems):
    out, sym = _simplify_elems(elems)
    if not sym:
        return "".join(map(chr, out))
    return SStr(out)


def mk_bytes(elems):
    out, sym = _simplify_elems(elems)
    if not sym:
        return bytes(out)
    return SBytes(out)


SYM_TYPES = frozenset((SBool, SInt, SReal, SStr, SBytes))


def is_sym(x):
    return type(x) in SYM_TYPES


def deep_sym(x, depth=4):
    t = type(x)
    if t in SYM_TYPES:
        return True
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset):
        return any(deep_sym(y, depth - 1) for y in x)
    if t is dict:
        return any(
            deep_sym(k, depth - 1) or deep_sym(v, depth - 1)
            for k, v in x.items())
    return False


def concrete(x, depth=6):
    """ fix all symbolic parts of x by case splitting. """
    t = type(x)
    if t is SBool:
        return bool(x)
    if t is SInt:
        return current().concretize(x.e)
    if t is SReal:
        return float(current().concretize(x.e))
    if t is SStr:
        return "".join(chr(c if isinstance(c, int) else current().concretize(c)) for c in x.elems)
    if t is SBytes:
        return bytes(c if isinstance(c, int) else current().concretize(c) for c in x.elems)
    if depth <= 0:
        return x
    if t in (list, tuple, set, frozenset):
        if deep_sym(x, depth):
            return t(concrete(y, depth - 1) for y in x)
        return x
    if t is dict:
        if deep_sym(x, depth):
            return {concrete(k, depth - 1): concrete(v, depth - 1) for k, v in x.items()}
        return x
    return x


def evaluate(x, ev, depth=12):
    """ value of x under a model given by the evaluation function. """
    t = type(x)
    if t in (SBool, SInt, SReal):
        return ev(x.e)
    if t is SStr:
        return "".join(chr(ev(c)) for c in x.elems)
    if t is SBytes:
        return bytes(ev(c) for c in x.elems)
    if depth <= 0:
        return x
    if t in (list, tuple):
        return t(evaluate(y, ev, depth - 1) for y in x)
    if t in (set, frozenset):
        return t(evaluate(y, ev, depth - 1) for y in x)
    if t is dict:
        return {evaluate(k, ev, depth - 1): evaluate(v, ev, depth - 1) for k, v in x.items()}
    return x


def join(sep, items):
    seq = list(items)
    is_bytes = isinstance(sep, (bytes, bytearray))
    sep_e = _elems(sep)
    out = []
    for i, x in enumerate(seq):
        if i:
            out.extend(sep_e)
        ok = isinstance(x, (bytes, bytearray)) if is_bytes else isinstance(x, str)
        if not ok:
            raise TypeError("sequence item %d: expected %s instance, %s found" % (
                i, "bytes" if is_bytes else "str", type(x).__name__))
        out.extend(_elems(x))
    return mk_bytes(out) if is_bytes else mk_str(out)


def int_to_str(x):
    """ decimal representation of an SInt. """
    ex = current()
    e = x.e
    neg = branch(e < 0)
    if neg:
        e = -e
    n = 1
    while not branch(e < 10 ** n):
        n += 1
        if n > 25:
            raise Unsupported("integer with more than 25 digits")
    if n == 1:
        d = set_char_hi(e + 48, 57)
        elems = [d]
    else:
        total = 0
        elems = []
        for i in range(n):
            d = ex.fresh("d!")
            ex.assume(z3.And(d >= (1 if i == 0 else 0), d <= 9))
            total = total * 10 + d
            elems.append(set_char_hi(d + 48, 57))
        ex.assume(e == total)
    if neg:
        elems.insert(0, 45)
    return mk_str(elems)


def str_to_int(s, base=10):
    if base != 10:
        if base == 16:
            return _hex_to_int(s)
        return int(concrete(s), base)
    elems = list(_elems(s))
    ws = WHITESPACE
    while elems and branch(in_set(elems[0], ws)):
        elems.pop(0)
    while elems and branch(in_set(elems[-1], ws)):
        elems.pop()
    neg = False

    def bad():
        raise ValueError("invalid literal for int() with base 10")
    if not elems:
        bad()
    if branch(_ceq(elems[0], 45)):
        neg = True
        elems.pop(0)
    elif branch(_ceq(elems[0], 43)):
        elems.pop(0)
    if not elems:
        bad()
    total = 0
    prev_digit = False
    for c in elems:
        if branch(in_range(c, 48, 57)):
            total = total * 10 + (c - 48)
            prev_digit = True
        elif branch(_ceq(c, 95)):
            if not prev_digit:
                bad()
            prev_digit = False
        elif char_hi(c) >= 128 and not branch(c < 128):
            c = current().concretize(c)
            try:
                total = total * 10 + int(chr(c))
            except ValueError:
                bad()
            prev_digit = True
        else:
            bad()
    if not prev_digit:
        bad()
    if neg:
        total = -total
    return mk_int(total if isinstance(total, int) else z3.simplify(total))


def _hex_to_int(s):
    total = 0
    elems = _elems(s)
    if not elems:
        raise ValueError("invalid literal for int() with base 16")
    for c in elems:
        if branch(in_range(c, 48, 57)):
            v = c - 48
        elif branch(in_range(c, 97, 102)):
            v = c - 87
        elif branch(in_range(c, 65, 70)):
            v = c - 55
        else:
            return int(concrete(s), 16)
        total = total * 16 + v
    return mk_int(total)
