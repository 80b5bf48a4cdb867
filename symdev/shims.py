"""Semantics of native operations on symbolic values.

`sx_call` receives every call made by instrumented code.  Calls of C functions
with symbolic arguments are answered by the handlers below; a C function
without a handler gets its arguments fixed by case splitting (which is sound
and exhaustive, just not symbolic).
"""
import base64 as _base64
import binascii as _binascii
import builtins
import collections
import functools
import hashlib
import hmac as _hmac
import io
import itertools
import json
import logging
import operator
import os
import sys
import re
import secrets
import struct
import types

from . import core
from . import rx
from . import values as V
from .core import Unsupported
from .values import SBool
from .values import SBytes
from .values import SInt
from .values import SReal
from .values import SStr
from .values import branch
from .values import concrete
from .values import deep_sym
from .values import is_sym
from .values import mk_bool
from .values import mk_bytes
from .values import mk_str

SYM_TYPES = V.SYM_TYPES
Pattern = re.Pattern
Match = re.Match
builtin_function_or_method = types.BuiltinFunctionType
builtin_method = type(re.compile("").match)
method_descriptor = type(str.lower)
wrapper_descriptor = type(object.__init__)
method_wrapper = type(object().__str__)
lru_type = type(functools.lru_cache(lambda: None))

HANDLERS = {}
PASS = set()


def handler(*fns):
    def deco(h):
        for f in fns:
            HANDLERS[f] = h
        return h
    return deco


def _unwrap_native(t):
    return {SStr: str, SBytes: bytes, SInt: int, SBool: bool, SReal: float}.get(t, t)


# -- the call shim

def any_deep(args, kw):
    for a in args:
        if deep_sym(a):
            return True
    for a in kw.values():
        if deep_sym(a):
            return True
    return False


_FunctionType = types.FunctionType
_MethodType = types.MethodType


def sx_call(f, /, *args, **kw):
    t = type(f)
    if t is _FunctionType:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        if f.__module__ in TWINS and any_deep(args, kw):
            f2 = twin(f)
            if f2 is not None:
                return f2(*args, **kw)
        return f(*args, **kw)
    if t is _MethodType:
        func = f.__func__
        if type(func) is _FunctionType:
            h = HANDLERS.get(func)
            if h is not None:
                return h(f.__self__, *args, **kw)
        elif type(func) is not _FunctionType and isinstance(func, (types.BuiltinFunctionType,)):
            return sx_call(func, f.__self__, *args, **kw)
        return f(*args, **kw)
    if t is builtin_function_or_method or t is builtin_method:
        self = f.__self__
        if self is None or type(self) is types.ModuleType:
            h = HANDLERS.get(f)
            if h is not None:
                return h(*args, **kw)
            return _native(f, args, kw)
        return _builtin_method(f, self, args, kw)
    if t is type or isinstance(f, type):
        try:
            h = HANDLERS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*args, **kw)
        if f.__module__ in TWINS and any_deep(args, kw):
            f2 = twin(f)
            if f2 is not None:
                return f2(*args, **kw)
        return f(*args, **kw)
    if t is method_descriptor or t is wrapper_descriptor:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        if args and is_sym(args[0]):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
        if args and t is method_descriptor and any_deep(args, kw):
            return _builtin_method(getattr(args[0], f.__name__), args[0], args[1:], kw)
        if args and SYM_CONTAINER(args[0]):
            return _builtin_method(getattr(args[0], f.__name__), args[0], args[1:], kw)
        return f(*args, **kw)
    if t is lru_type:
        if any_deep(args, kw):
            return sx_call(f.__wrapped__, *args, **kw)
        return f(*args, **kw)
    if t is functools.partial:
        return sx_call(f.func, *f.args, *args, **{**f.keywords, **kw})
    return f(*args, **kw)


from .instrument import TWINS  # noqa: E402
from .instrument import twin  # noqa: E402


def SYM_CONTAINER(x):
    if not V.SYMKEYS[0]:
        return False
    if isinstance(x, (dict, set, frozenset)):
        return any(_symkey(k) for k in x)
    return False


def _native(f, args, kw):
    if f in PASS:
        return f(*args, **kw)
    mod = getattr(f, "__module__", None)
    if mod in PASS_MODULES:
        return f(*args, **kw)
    if any_deep(args, kw):
        args = [concrete(a) for a in args]
        kw = {k: concrete(v) for k, v in kw.items()}
    return f(*args, **kw)


PASS_MODULES = {
    "itertools", "_operator", "_functools", "_thread", "_collections", "gc",
    "_contextvars", "_weakref", "sys", "_asyncio", "_queue", "_warnings",
}
PASS.update((
    isinstance, issubclass, callable, id, iter, next, delattr, globals,
    abs, all, any, divmod, pow, len, vars, dir, breakpoint, round,
))


# -- containers with symbolic keys

PRIM = (str, bytes, int, float, bool, type(None), type, types.FunctionType)


def _symkey(k):
    t = type(k)
    if t in SYM_TYPES:
        return True
    if t is tuple or t is frozenset:
        return any(_symkey(x) for x in k)
    if t in PRIM_SET:
        return False
    if t is type or getattr(t, "__hash__", None) is object.__hash__:
        return False
    if isinstance(k, (str, bytes, int, float, type, types.FunctionType)):
        return False
    # an object with its own hash, it may depend on symbolic values
    if not V.SYMOBJS[0] or getattr(t, "__hash__", None) is None:
        return False
    return _objkey(k)


PRIM_SET = {str, bytes, int, float, bool, type(None), type, types.FunctionType}


def _objkey(k):
    before = V.HASHED[0]
    V.IDHASH[0] += 1
    try:
        hash(k)
    finally:
        V.IDHASH[0] -= 1
    return V.HASHED[0] != before


def _eqkey(a, b):
    """ condition for two keys being equal """
    ta = type(a)
    if ta is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        parts = [_eqkey(x, y) for x, y in zip(a, b)]
        return V.e_and(parts)
    if a is b:
        return True
    r = (a == b)
    if type(r) is SBool:
        return r.e
    return bool(r)


def canon(d, key):
    """ the key of `d` which equals `key` on this path, or `key` itself """
    if _symkey(key):
        for k in d:
            c = _eqkey(k, key)
            if c is False:
                continue
            if branch(c):
                return k
        return key
    if V.SYMKEYS[0]:
        native = _native_contains(d, key)
        if native:
            return key
        for k in d:
            if _symkey(k):
                c = _eqkey(k, key)
                if c is False:
                    continue
                if branch(c):
                    return k
    return key


class idhash:
    def __enter__(self):
        V.IDHASH[0] += 1

    def __exit__(self, *a):
        V.IDHASH[0] -= 1


def _native_contains(d, k):
    V.IDHASH[0] += 1
    try:
        if isinstance(d, dict):
            return dict.__contains__(d, k)
        if isinstance(d, (set, frozenset)):
            return type(d).__contains__(d, k)
        return k in d
    finally:
        V.IDHASH[0] -= 1


def _ids(fn, *args):
    V.IDHASH[0] += 1
    try:
        return fn(*args)
    finally:
        V.IDHASH[0] -= 1


def needs(d, key):
    return V.SYMKEYS[0] or _symkey(key)


_SENT = object()


class DictW:
    """ view on a dictionary with symbolic keys """
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return sx_getitem(self.d, k)

    def __setitem__(self, k, v):
        d = self.d
        if needs(d, k):
            k2 = canon(d, k)
            _ids(operator.setitem, d, k2, v)
        else:
            d[k] = v

    def __delitem__(self, k):
        d = self.d
        if needs(d, k):
            k2 = canon(d, k)
            _ids(operator.delitem, d, k2)
        else:
            del d[k]


def sx_w(a):
    if isinstance(a, dict) and _plain_dict(type(a)):
        return DictW(a)
    return a


@functools.lru_cache(None)
def _plain_dict(t):
    # subclasses with an own __getitem__ take care of themselves
    return t.__getitem__ is dict.__getitem__ and t.__setitem__ in (
        dict.__setitem__, collections.OrderedDict.__setitem__)


def sx_getitem(a, b):
    t = type(a)
    if t is dict or (isinstance(a, dict) and _plain_dict(t)):
        if needs(a, b):
            k = canon(a, b)
            return _ids(operator.getitem, a, k)
        return a[b]
    if t is types.MappingProxyType or isinstance(a, collections.ChainMap):
        if _symkey(b):
            for k in a:
                c = _eqkey(k, b)
                if c is not False and branch(c):
                    return _ids(operator.getitem, a, k)
            raise KeyError(b)
    if t is str or t is bytes:
        if is_sym(b):
            b = concrete(b)
    return a[b]


def sx_contains(x, c):
    t = type(c)
    if t is SStr or t is SBytes:
        return c.contains(x)
    if t is str or t is bytes or (t in (bytearray,) and is_sym(x)):
        if is_sym(x):
            if t is str:
                if not isinstance(x, str):
                    raise TypeError("'in <string>' requires string as left operand")
                return SStr(map(ord, c)).contains(x)
            return SBytes(c).contains(x)
        return x in c
    if t in _HASHED or isinstance(c, (dict, set, frozenset)):
        if needs(c, x):
            if isinstance(c, dict) and type(c).__contains__ is not dict.__contains__:
                return x in c
            k = canon(c, x)
            return _native_contains(c, k)
        return x in c
    if t in _DICTVIEWS:
        if needs(c, x):
            if t is _DICTVIEWS[0]:
                return any(_truth_eq(k, x) for k in c)
            return any(_truth_eq(k, x) for k in c)
        return x in c
    if t is tuple or t is list:
        if deep_sym(x) or deep_sym(c):
            parts = []
            for y in c:
                if y is x:
                    return True
                r = (y == x)
                if type(r) is SBool:
                    parts.append(r.e)
                elif r:
                    return True
            return mk_bool(V.e_or(parts))
        return x in c
    return x in c


_DICTVIEWS = (type({}.keys()), type({}.values()), type({}.items()))
_HASHED = {dict, set, frozenset}


def _truth_eq(a, b):
    c = _eqkey(a, b)
    return c if isinstance(c, bool) else branch(c)


def sx_in(x, c):
    return sx_contains(x, c)


def sx_notin(x, c):
    return V.s_not(sx_contains(x, c))


def sx_is(a, b):
    if type(a) is SBool:
        return bool(a) is b
    return a is b


def sx_isnot(a, b):
    if type(a) is SBool:
        return bool(a) is not b
    return a is not b


def sx_dict(*items):
    d = {}
    for it in items:
        if len(it) == 1:
            dict_update(d, it[0])
        else:
            DictW(d)[it[0]] = it[1]
    return d


def sx_dictc(items):
    d = {}
    w = DictW(d)
    for k, v in items:
        w[k] = v
    return d


def set_add(s, x):
    if needs(s, x):
        k = canon(s, x)
        _ids(set.add, s, k)
    else:
        s.add(x)


def sx_set(*items):
    return sx_setc(items)


def sx_setc(items):
    s = set()
    for x in items:
        set_add(s, x)
    return s


def dict_update(d, *args, **kw):
    for a in args:
        if isinstance(a, dict):
            if not V.SYMKEYS[0] and type(a) is dict and not any(map(_symkey, a)):
                dict.update(d, a)
                continue
            items = list(a.items())
        elif hasattr(a, "keys"):
            items = [(k, sx_getitem(a, k)) for k in a.keys()]
        else:
            items = a
        w = DictW(d) if _plain_dict(type(d)) else d
        for k, v in items:
            w[k] = v
    for k, v in kw.items():
        d[k] = v


# -- methods of builtin types

def _builtin_method(f, self, args, kw):
    t = type(self)
    name = f.__name__
    if t is str or t is bytes or t is bytearray:
        h = HANDLERS.get((str, name))
        if h is not None:
            return h(self, *args, **kw)
        if any_deep(args, kw):
            recv = SStr(map(ord, self)) if t is str else SBytes(self)
            return getattr(recv, name)(*args, **kw)
        return f(*args, **kw)
    if isinstance(self, dict):
        h = DICT.get(name)
        if h is not None and (V.SYMKEYS[0] or (
                any_deep(args, kw) if name == "update" else any(_symkey(a) for a in args[:1]))):
            if not _plain_dict(t) and name in ("get", "setdefault", "pop", "update") and getattr(
                    dict, name) is not getattr(t, name):
                return f(*args, **kw)
            return h(self, *args, **kw)
        return f(*args, **kw)
    if isinstance(self, (set, frozenset)):
        h = SET.get(name)
        if h is not None and (V.SYMKEYS[0] or any_deep(args, kw)):
            return h(self, *args, **kw)
        return f(*args, **kw)
    if isinstance(self, list):
        if name == "sort" and kw.get("key") is not None:
            kw = dict(kw, key=_keyfn(kw["key"]))
            return f(*args, **kw)
        if name in ("remove", "index", "count"):
            if name == "count":
                return sum(1 for y in self if _truth_eq(y, args[0]))
            for i, y in enumerate(self):
                if _truth_eq(y, args[0]):
                    if name == "remove":
                        del self[i]
                        return None
                    return i
            raise ValueError("%s(x): x not in list" % name)
        return f(*args, **kw)
    if isinstance(self, tuple) and name in ("index", "count"):
        return _builtin_method(getattr(list(self), name), list(self), args, kw)
    if t is Pattern:
        if args and any_deep(args, kw):
            return PATTERN[name](self, *args, **kw)
        return f(*args, **kw)
    if t is Match or t is type(iter(())):
        return f(*args, **kw)
    h = HANDLERS.get((t, name))
    if h is not None:
        return h(self, *args, **kw)
    if isinstance(self, type):
        # class methods
        h = HANDLERS.get((self, name))
        if h is not None:
            return h(*args, **kw)
        if issubclass(self, dict) and name == "fromkeys":
            d = self()
            w = DictW(d)
            for k in args[0]:
                w[k] = args[1] if len(args) > 1 else None
            return d
        if self is object or name in ("__new__", "__init_subclass__", "mro"):
            return f(*args, **kw)
    if isinstance(self, (collections.deque,)) or t.__module__ in PASS_TYPES_MODULES:
        return f(*args, **kw)
    if name.startswith("__") or isinstance(self, BaseException):
        return f(*args, **kw)
    if any_deep(args, kw):
        args = [concrete(a) for a in args]
        kw = {k: concrete(v) for k, v in kw.items()}
    return f(*args, **kw)


PASS_TYPES_MODULES = {
    "_queue", "_thread", "itertools", "_contextvars", "generator", "_weakref",
    "weakref",
}
HANDLERS_GEN = type((x for x in ()))


def _keyfn(k):
    if k is None:
        return None
    if type(k) is _FunctionType:
        return k
    return lambda x: sx_call(k, x)


def str_join(self, items):
    seq = items if type(items) in (list, tuple) else list(items)
    for x in seq:
        if type(x) in SYM_TYPES:
            return V.join(self, seq)
    return self.join(seq)


HANDLERS[(str, "join")] = str_join


def _h_format(self, *args, **kw):
    return str_format(self, args, kw)


HANDLERS[(str, "format")] = _h_format
HANDLERS[(str, "format_map")] = lambda self, m: str_format(self, (), m)


def _h_maketrans(*args):
    return str.maketrans(*[concrete(a) for a in args])


# dict

def d_get(d, k, default=None):
    k2 = canon(d, k)
    return _ids(dict.get, d, k2, default)


def d_setdefault(d, k, default=None):
    k2 = canon(d, k)
    return _ids(dict.setdefault, d, k2, default)


def d_pop(d, k, *default):
    k2 = canon(d, k)
    return _ids(dict.pop, d, k2, *default)


def d_contains(d, k):
    return _native_contains(d, canon(d, k))


def d_copy(d):
    return _ids(type(d).copy, d)


DICT = {
    "get": d_get, "setdefault": d_setdefault, "pop": d_pop,
    "update": dict_update, "__contains__": d_contains, "copy": d_copy,
    "__getitem__": lambda d, k: _ids(dict.__getitem__, d, canon(d, k)),
    "__setitem__": lambda d, k, v: _ids(dict.__setitem__, d, canon(d, k), v),
    "__delitem__": lambda d, k: _ids(dict.__delitem__, d, canon(d, k)),
}


# set

def s_remove(s, x):
    k = canon(s, x)
    _ids(set.remove, s, k)


def s_discard(s, x):
    k = canon(s, x)
    _ids(set.discard, s, k)


def s_update(s, *others):
    for o in others:
        for x in list(o):
            set_add(s, x)


def _freeze(s, r):
    return frozenset(r) if isinstance(s, frozenset) else r


def _mkset(items, like=None):
    r = sx_setc(items)
    if isinstance(like, frozenset):
        return _ids(frozenset, r)
    return r


def s_union(s, *others):
    return _mkset(itertools.chain(s, *others), s)


def _isin(x, c):
    return bool(sx_contains(x, c))


def _asset(o):
    return o if isinstance(o, (set, frozenset, dict)) else sx_setc(o)


def s_intersection(s, *others):
    others = [_asset(o) for o in others]
    return _mkset([x for x in s if all(_isin(x, o) for o in others)], s)


def s_difference(s, *others):
    others = [_asset(o) for o in others]
    return _mkset([x for x in s if not any(_isin(x, o) for o in others)], s)


def s_difference_update(s, *others):
    for o in others:
        for x in list(o):
            s_discard(s, x)


def s_symmetric_difference(s, other):
    other = _asset(other)
    return _mkset([x for x in s if not _isin(x, other)] + [
        x for x in other if not _isin(x, s)], s)


def s_issubset(s, other):
    other = _asset(other)
    return all(_isin(x, other) for x in s)


def s_issuperset(s, other):
    return all(_isin(x, s) for x in other)


def s_isdisjoint(s, other):
    return not any(_isin(x, s) for x in other)


SET = {
    "add": set_add, "remove": s_remove, "discard": s_discard,
    "update": s_update, "union": s_union, "intersection": s_intersection,
    "difference": s_difference, "difference_update": s_difference_update,
    "symmetric_difference": s_symmetric_difference,
    "issubset": s_issubset, "issuperset": s_issuperset,
    "isdisjoint": s_isdisjoint, "__contains__": lambda s, x: sx_contains(x, s),
    "copy": lambda s: _ids(type(s).copy, s),
}

# operators: only containers which may have symbolic keys need care

_SETS = (set, frozenset)
_KEYED = (set, frozenset, dict)


def _isset(x):
    return isinstance(x, _SETS) or type(x) in _DICTVIEWS[::2]


def deep_eq(a, b):
    """ equality of plain values which may hold containers with symbolic keys """
    ta, tb = type(a), type(b)
    if isinstance(a, dict) and isinstance(b, dict) and _plain_dict(ta) and _plain_dict(tb):
        if len(a) != len(b):
            return False
        r = True
        for k, v in a.items():
            k2 = canon(b, k)
            if not _native_contains(b, k2):
                return False
            r = V.e_and([_eqexpr(v, _ids(operator.getitem, b, k2)), r])
            if r is False:
                return False
        return mk_bool(r)
    if isinstance(a, _SETS) and isinstance(b, _SETS):
        if len(a) != len(b):
            return False
        return all(_isin(x, b) for x in a)
    if (ta is list and tb is list) or (isinstance(a, tuple) and isinstance(b, tuple)):
        if len(a) != len(b):
            return False
        parts = []
        for x, y in zip(a, b):
            r = _eqexpr(x, y)
            if r is False:
                return False
            parts.append(r)
        return mk_bool(V.e_and(parts))
    return a == b


def _eqexpr(a, b):
    if a is b:
        return True
    r = deep_eq(a, b)
    return r.e if type(r) is SBool else bool(r)


_CONTAINERS = (set, frozenset, dict, list, tuple)


def sx_eq(a, b):
    if V.SYMKEYS[0] and isinstance(a, _CONTAINERS) and isinstance(b, _CONTAINERS):
        return deep_eq(a, b)
    return a == b


def sx_ne(a, b):
    if V.SYMKEYS[0] and isinstance(a, _CONTAINERS) and isinstance(b, _CONTAINERS):
        return V.s_not(deep_eq(a, b))
    return a != b


def sx_le(a, b):
    if V.SYMKEYS[0] and isinstance(a, _SETS) and isinstance(b, _SETS):
        return s_issubset(a, b)
    return a <= b


def sx_lt(a, b):
    if V.SYMKEYS[0] and isinstance(a, _SETS) and isinstance(b, _SETS):
        return len(a) < len(b) and s_issubset(a, b)
    return a < b


def sx_ge(a, b):
    if V.SYMKEYS[0] and isinstance(a, _SETS) and isinstance(b, _SETS):
        return s_issubset(b, a)
    return a >= b


def sx_gt(a, b):
    if V.SYMKEYS[0] and isinstance(a, _SETS) and isinstance(b, _SETS):
        return len(a) > len(b) and s_issubset(b, a)
    return a > b


def sx_or(a, b):
    if V.SYMKEYS[0]:
        if _isset(a) and _isset(b):
            return s_union(a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            r = _ids(dict, a)
            dict_update(r, b)
            return r
    return a | b


def sx_and(a, b):
    if V.SYMKEYS[0] and _isset(a) and _isset(b):
        return s_intersection(a, b)
    return a & b


def sx_sub(a, b):
    if V.SYMKEYS[0] and _isset(a) and _isset(b):
        return s_difference(a, b)
    return a - b


def sx_xor(a, b):
    if V.SYMKEYS[0] and _isset(a) and _isset(b):
        return s_symmetric_difference(a, b)
    return a ^ b


def sx_ior(a, b):
    if V.SYMKEYS[0]:
        if type(a) is set:
            s_update(a, b)
            return a
        if isinstance(a, dict):
            dict_update(a, b)
            return a
    a |= b
    return a


def sx_iand(a, b):
    if V.SYMKEYS[0] and type(a) is set:
        for x in list(a):
            if not _isin(x, b):
                s_discard(a, x)
        return a
    a &= b
    return a


def sx_isub(a, b):
    if V.SYMKEYS[0] and type(a) is set:
        s_difference_update(a, b)
        return a
    a -= b
    return a


def sx_ixor(a, b):
    if V.SYMKEYS[0] and type(a) is set:
        r = s_symmetric_difference(a, b)
        _ids(set.clear, a)
        s_update(a, r)
        return a
    a ^= b
    return a


PATTERN = {
    "match": rx.match, "fullmatch": rx.fullmatch, "search": rx.search,
    "finditer": rx.finditer, "findall": rx.findall, "split": rx.split,
    "sub": lambda p, repl, string, count=0: rx.sub(p, string, repl, count),
    "subn": lambda p, repl, string, count=0: rx.subn(p, string, repl, count),
}


def _re_fn(name):
    native = getattr(re, name)

    def h(pattern, *args, **kw):
        if any_deep(args, kw) or is_sym(pattern):
            flags = kw.pop("flags", 0)
            nargs = 2 if name in ("sub", "subn") else 1
            if len(args) > nargs and name not in ("sub", "subn", "split"):
                flags = args[nargs]
                args = args[:nargs]
            if is_sym(pattern):
                pattern = concrete(pattern)
            p = pattern if isinstance(pattern, Pattern) else re.compile(pattern, flags)
            return PATTERN[name](p, *args, **kw)
        return native(pattern, *args, **kw)
    HANDLERS[native] = h


for _n in ("match", "fullmatch", "search", "finditer", "findall", "split", "sub", "subn"):
    _re_fn(_n)


@handler(re.compile)
def _re_compile(pattern, flags=0):
    return re.compile(concrete(pattern), flags)


@handler(re.escape)
def _re_escape(pattern):
    return re.escape(concrete(pattern))


# -- builtins

@handler(builtins.type)
def _type(*args, **kw):
    if len(args) == 1:
        return _unwrap_native(type(args[0]))
    return type(*args, **kw)


@handler(builtins.len)
def _len(x):
    return len(x)


@handler(builtins.str)
def sx_str(*args, **kw):
    if not args:
        return str(**kw)
    x = args[0]
    if len(args) > 1 or kw:
        # decoding
        if type(x) is SBytes:
            return x.decode(*args[1:], **kw)
        return str(*args, **kw)
    return to_str(x)


@functools.lru_cache(None)
def _py_method(t, name):
    m = getattr(t, name, None)
    return m if isinstance(m, types.FunctionType) else None


def to_str(x):
    t = type(x)
    if t is str or t is SStr:
        return x
    if t is SInt:
        return V.int_to_str(x)
    if t is SBool:
        return "True" if bool(x) else "False"
    if t is SBytes:
        return to_repr(x)
    if t is SReal:
        return str(concrete(x))
    if t in (int, float, bool, type(None), bytes):
        return str(x)
    if t in (list, tuple, dict, set, frozenset):
        return to_repr(x)
    if isinstance(x, BaseException) and t.__str__ in (
            BaseException.__str__, Exception.__str__):
        if any_deep(x.args, {}):
            if len(x.args) == 1:
                return to_str(x.args[0])
            return to_repr(x.args)
        return str(x)
    m = _py_method(t, "__str__")
    if m is not None:
        return m(x)
    if t.__str__ is object.__str__:
        return to_repr(x)
    return str(x)


_SIMPLE = frozenset(range(32, 127)) - {39, 92}


def to_repr(x, depth=6):
    t = type(x)
    if t is SStr:
        q = V.e_and(V.in_set(c, _SIMPLE) for c in x.elems)
        if branch(q):
            return mk_str((39, *x.elems, 39))
        return repr(concrete(x))
    if t is SBytes:
        q = V.e_and(V.in_set(c, _SIMPLE) for c in x.elems)
        if branch(q):
            return mk_str((98, 39, *x.elems, 39))
        return repr(concrete(x))
    if t is SInt:
        return V.int_to_str(x)
    if t in SYM_TYPES:
        return repr(concrete(x))
    if depth > 0 and t in (list, tuple, set, frozenset, dict) and (
            deep_sym(x) or any(not isinstance(y, (str, bytes, int, float)) for y in x)
            or t is dict):
        if t is dict:
            return str_join("", ["{", str_join(", ", [
                str_join("", [to_repr(k, depth - 1), ": ", to_repr(v, depth - 1)])
                for k, v in x.items()]), "}"])
        body = str_join(", ", [to_repr(y, depth - 1) for y in x])
        if t is list:
            return str_join("", ["[", body, "]"])
        if t is tuple:
            return str_join("", ["(", body, ",)" if len(x) == 1 else ")"])
        if not x:
            return repr(x)
        if t is set:
            return str_join("", ["{", body, "}"])
        return str_join("", ["frozenset({", body, "})"])
    if isinstance(x, BaseException) and t.__repr__ is BaseException.__repr__:
        return str_join("", [t.__name__, "(", str_join(
            ", ", [to_repr(a) for a in x.args]), ")"])
    m = _py_method(t, "__repr__")
    if m is not None:
        return m(x)
    return repr(x)


@handler(builtins.repr)
def sx_repr(x):
    return to_repr(x)


@handler(builtins.ascii)
def sx_ascii(x):
    return ascii(concrete(x))


@handler(builtins.int)
def sx_int(*args, **kw):
    if not args:
        return int(**kw)
    x = args[0]
    t = type(x)
    if t is SInt:
        return x
    if t is SBool:
        return V.as_sint(x)
    if t is SStr:
        base = args[1] if len(args) > 1 else kw.get("base", 10)
        return V.str_to_int(x, base)
    if t is SBytes:
        return V.str_to_int(x.decode("latin-1"), *args[1:], **kw)
    if t is SReal:
        # truncation towards zero
        e = x.e
        z = core.z3
        return V.mk_int(z.If(e >= 0, z.ToInt(e), -z.ToInt(-e)))
    return int(*args, **kw)


@handler(builtins.float)
def sx_float(*args):
    if args and type(args[0]) in (SInt, SReal):
        return SReal(V._real(args[0]))
    if args and is_sym(args[0]):
        return float(concrete(args[0]))
    return float(*args)


@handler(builtins.bool)
def sx_bool(*args):
    if not args:
        return False
    x = args[0]
    if type(x) is SBool:
        return x
    if type(x) is SInt:
        return mk_bool(x.e != 0)
    return bool(x)


@handler(builtins.bytes)
def sx_bytes(*args, **kw):
    if args:
        x = args[0]
        if type(x) is SBytes:
            return x
        if type(x) is SStr:
            return x.encode(*args[1:], **kw)
        if type(x) is SInt:
            return bytes(concrete(x))
        if type(x) in (list, tuple) and any_deep(x, {}):
            return mk_bytes([y.e if type(y) is SInt else y for y in x])
        if type(x) is SBytearray:
            return mk_bytes(x.elems)
    return bytes(*args, **kw)


class SBytearray:
    """ minimal bytearray with symbolic content """
    __class__ = property(lambda self: bytearray)

    def __init__(self, elems):
        self.elems = list(elems)

    def __len__(self):
        return len(self.elems)

    def __iter__(self):
        return iter(mk_bytes(self.elems))

    def extend(self, data):
        self.elems.extend(V._elems(data))

    def __iadd__(self, data):
        self.extend(data)
        return self

    def __getitem__(self, i):
        r = mk_bytes(self.elems)[i]
        return r

    def __delitem__(self, i):
        del self.elems[i]

    def __eq__(self, other):
        return mk_bytes(self.elems) == other

    def decode(self, *a, **kw):
        return mk_bytes(self.elems).decode(*a, **kw)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(SBytes(self.elems), name)

    def append(self, x):
        self.elems.append(x.e if is_sym(x) else x)

    def clear(self):
        self.elems.clear()


@handler(builtins.bytearray)
def sx_bytearray(*args, **kw):
    if not args:
        return SBytearray(())
    if isinstance(args[0], (bytes, bytearray)):
        return SBytearray(V._elems(args[0]))
    return bytearray(*args, **kw)


@handler(builtins.memoryview)
def sx_memoryview(x):
    if is_sym(x):
        return x
    return memoryview(x)


@handler(builtins.hash)
def sx_hash(x):
    if V.IDHASH[0]:
        return hash(x)
    if deep_sym(x):
        # only meaningful for containers, which use shims
        raise Unsupported("hash() of symbolic value")
    return hash(x)


@handler(builtins.ord)
def sx_ord(c):
    if type(c) is SStr or type(c) is SBytes:
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return V.mk_int(c.elems[0])
    return ord(c)


@handler(builtins.chr)
def sx_chr(c):
    if type(c) is SInt:
        e = c.e
        return mk_str((e,))
    return chr(c)


@handler(builtins.format)
def sx_format(x, spec=""):
    return sx_fmt(x, -1, spec)


@handler(builtins.set)
def sx_set_ctor(*args):
    if args:
        x = args[0]
        if type(x) in (set, frozenset) and not V.SYMKEYS[0]:
            return set(x)
        return sx_setc(x)
    return set()


@handler(builtins.frozenset)
def sx_frozenset_ctor(*args):
    if args:
        x = args[0]
        if type(x) in (set, frozenset) and not V.SYMKEYS[0]:
            return frozenset(x)
        return _ids(frozenset, sx_setc(x))
    return frozenset()


@handler(builtins.dict)
def sx_dict_ctor(*args, **kw):
    d = {}
    dict_update(d, *args, **kw)
    return d


@handler(collections.OrderedDict)
def _odict(*args, **kw):
    d = collections.OrderedDict()
    dict_update(d, *args, **kw)
    return d


@handler(builtins.sorted)
def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_keyfn(key), reverse=bool(reverse))


@handler(builtins.min)
def sx_min(*args, **kw):
    if "key" in kw:
        kw["key"] = _keyfn(kw["key"])
        return min(*args, **kw)
    return _minmax(args, kw, lambda a, b: a < b, min)


def _minmax(args, kw, less, native):
    if len(args) == 1:
        args = list(args[0])
    if args and all(type(a) in (SInt, int) for a in args) and any(
            type(a) is SInt for a in args):
        r = args[0]
        for a in args[1:]:
            c = less(a, r)
            if isinstance(c, bool):
                r = a if c else r
            else:
                ra = r.e if is_sym(r) else r
                aa = a.e if is_sym(a) else a
                r = V.mk_int(core.z3.If(c.e, aa, ra))
        return r
    return native(args, **kw) if not args or len(args) == 1 else native(args, **kw)


@handler(builtins.max)
def sx_max(*args, **kw):
    if "key" in kw:
        kw["key"] = _keyfn(kw["key"])
        return max(*args, **kw)
    return _minmax(args, kw, lambda a, b: a > b, max)


@handler(builtins.map)
def sx_map(f, *its):
    if type(f) is _FunctionType:
        return map(f, *its)
    return (sx_call(f, *xs) for xs in zip(*its))


@handler(builtins.filter)
def sx_filter(f, it):
    if f is None:
        return filter(None, it)
    return (x for x in it if sx_call(f, x))


@handler(functools.reduce)
def sx_reduce(f, it, *init):
    return functools.reduce(lambda a, b: sx_call(f, a, b), it, *init)


@handler(builtins.sum)
def sx_sum(it, start=0):
    return sum(it, start)


@handler(builtins.range)
def sx_range(*args):
    return range(*[concrete(a) for a in args])


@handler(builtins.getattr)
def sx_getattr(o, name, *default):
    return getattr(o, concrete(name), *default)


@handler(builtins.hasattr)
def sx_hasattr(o, name):
    return hasattr(o, concrete(name))


@handler(builtins.setattr)
def sx_setattr(o, name, value):
    return setattr(o, concrete(name), value)


@handler(builtins.iter)
def sx_iter(*args):
    if len(args) == 2:
        f, sentinel = args

        def it():
            while True:
                x = sx_call(f)
                if x == sentinel:
                    return
                yield x
        return it()
    return iter(*args)


@handler(operator.contains)
def _op_contains(a, b):
    return sx_contains(b, a)


@handler(operator.getitem)
def _op_getitem(a, b):
    return sx_getitem(a, b)


@handler(sys.intern)
def _intern(s):
    return sys.intern(s) if type(s) is str else s


@handler(os.fspath)
def sx_fspath(p):
    if is_sym(p):
        return p
    return os.fspath(p)


# -- formatting

def sx_fstr(*parts):
    return str_join("", parts)


def sx_fmt(x, conv, spec):
    if conv == 114:
        x = to_repr(x)
    elif conv == 115:
        x = to_str(x)
    elif conv == 97:
        x = ascii(concrete(x))
    if is_sym(spec):
        spec = concrete(spec)
    if spec == "":
        if type(x).__format__ in (object.__format__, str.__format__) or type(x) in _STRLIKE:
            return to_str(x)
        return format(x, "")
    t = type(x)
    if t is SInt and spec == "d":
        return V.int_to_str(x)
    if t is SStr:
        m = re.fullmatch(r"(?:(.)?([<>]))?(\d+)?s?", spec)
        if m is not None:
            fill, align, width = m.groups()
            width = int(width or 0)
            if align == ">":
                return x.rjust(width, fill or " ")
            return x.ljust(width, fill or " ")
    return format(concrete(x), spec)


_STRLIKE = {SStr, SBytes, SInt, SBool, list, tuple, dict, set, frozenset}
_formatter = None


def str_format(fmt, args, kw):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        if isinstance(first, int):
            obj = args[first]
        else:
            obj = sx_getitem(kw, first)
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else sx_getitem(obj, i)
        if spec and "{" in spec:
            spec = str_format(spec, args, kw)
        parts.append(sx_fmt(obj, ord(conv) if conv else -1, spec or ""))
    return str_join("", parts)


_modre = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\d+|\*)?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])")


def str_mod(fmt, args):
    if isinstance(fmt, bytes):
        return fmt % concrete(args)
    parts = []
    pos = 0
    idx = 0
    is_tuple = type(args) is tuple
    for m in _modre.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        typ = m["type"]
        if typ == "%":
            parts.append("%")
            continue
        if m["key"] is not None:
            x = sx_getitem(args, m["key"])
        elif is_tuple:
            if idx >= len(args):
                raise TypeError("not enough arguments for format string")
            x = args[idx]
            idx += 1
        else:
            if idx and not isinstance(args, dict):
                raise TypeError("not enough arguments for format string")
            x = args
            idx += 1
        plain = not (m["flags"] or m["width"] or m["prec"])
        if typ == "s":
            s = to_str(x)
        elif typ == "r":
            s = to_repr(x)
        elif typ in "di" and type(x) is SInt and plain:
            s = V.int_to_str(x)
        else:
            parts.append("%" + m[0][1:].replace("(%s)" % m["key"], "") % (
                (concrete(x),)))
            continue
        if plain:
            parts.append(s)
        else:
            parts.append(("%" + (m["flags"] or "") + (m["width"] or "") + (
                "." + m["prec"] if m["prec"] else "") + "s") % (concrete(s),))
    if is_tuple and idx < len(args):
        raise TypeError("not all arguments converted during string formatting")
    parts.append(fmt[pos:])
    return str_join("", parts)


def _needs_fmt(x, depth=4):
    t = type(x)
    if t in SYM_TYPES:
        return True
    if t in (str, int, float, bool, bytes, type(None)):
        return False
    if t in (tuple, list):
        return any(_needs_fmt(y, depth) for y in x)
    return True


def sx_mod(a, b):
    if type(a) is str:
        if _needs_fmt(b):
            return str_mod(a, b)
        return a % b
    if type(a) is SStr:
        return str_mod(concrete(a), b)
    return a % b


# -- hashes: uninterpreted functions without collisions

class HashTable:
    def __init__(self):
        self.entries = []
        self.n = 0


HASHES = {}


def hash_reset():
    HASHES.clear()


def sym_digest(kind, data, native, make):
    """ `data` is symbolic or there are symbolic entries already.

    Equal inputs have equal digests, different inputs have different ones.
    """
    entries = HASHES.setdefault(kind, [])
    for d, r in entries:
        if type(d) is not type(data) and not (is_sym(d) or is_sym(data)):
            continue
        c = _eqkey(d, data)
        if c is False:
            continue
        if branch(c):
            return r
    if is_sym(data):
        r = make(len(entries))
    else:
        r = native(data)
    entries.append((data, r))
    return r


class SHash:
    def __init__(self, algo, data=b""):
        native = hashlib.new(algo)
        self.name = native.name
        self.algo = algo
        self.digest_size = native.digest_size
        self.block_size = native.block_size
        self.parts = [data] if len(data) else []

    def update(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("Strings must be encoded before hashing")
        self.parts.append(data)

    def copy(self):
        r = SHash(self.algo)
        r.parts = list(self.parts)
        return r

    def digest(self):
        data = V.join(b"", self.parts)
        return sym_digest(
            self.algo, data,
            lambda d: hashlib.new(self.algo, d).digest(),
            lambda n: hashlib.new(self.algo, b"symbolic %d" % n).digest())

    def hexdigest(self):
        return self.digest().hex()


HASHMODE = [True]


def _hash_ctor(algo):
    def h(data=b"", *, usedforsecurity=True):
        return SHash(algo, data)
    return h


for _n in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s"):
    HANDLERS[getattr(hashlib, _n)] = _hash_ctor(_n)


@handler(hashlib.new)
def _hash_new(name, data=b"", **kw):
    return SHash(concrete(name), data)


@handler(hashlib.scrypt)
def _scrypt(password, *, salt, n, r, p, **kw):
    if deep_sym(password) or deep_sym(salt) or ("scrypt", n, r, p) in HASHES:
        return sym_digest(
            ("scrypt", n, r, p), _tag(password, salt),
            None, lambda i: hashlib.sha512(b"scrypt %d" % i).digest())
    return hashlib.scrypt(password, salt=salt, n=n, r=r, p=p, **kw)


def _tag(a, b):
    # unambiguous concatenation
    return V.join(b"", [b"%d:" % len(a), a, b])


@handler(_hmac.compare_digest, secrets.compare_digest)
def _compare_digest(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(a, str) != isinstance(b, str):
            raise TypeError("unsupported operand types")
        return a == b
    return _hmac.compare_digest(a, b)


# -- struct

_STRUCT = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True),
           "I": (4, False), "i": (4, True), "L": (4, False), "l": (4, True),
           "Q": (8, False), "q": (8, True)}


def _parse_struct(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "little"
    std = False
    if fmt and fmt[0] in "!><=@":
        std = fmt[0] in "!><="
        order = "big" if fmt[0] in "!>" else "little"
        fmt = fmt[1:]
    res = []
    for m in re.finditer(r"(\d*)([a-zA-Z?])", fmt):
        n = int(m[1] or 1)
        res.append((n, m[2]))
    return order, std, res


def _native_only(fmt):
    order, std, items = _parse_struct(fmt)
    return not std and len(items) > 1 or any(
        t in "di" and t == "d" or t in "fesp?cx" and t not in "s" for _, t in items)


def struct_pack(fmt, *vals):
    if not any_deep(vals, {}):
        return struct.pack(fmt, *vals)
    order, std, items = _parse_struct(fmt)
    vals = list(vals)
    out = []
    for n, t in items:
        if t == "s":
            v = vals.pop(0)
            e = list(V._elems(v))[:n]
            out.extend(e + [0] * (n - len(e)))
            continue
        for _ in range(n):
            v = vals.pop(0)
            if t in _STRUCT:
                size, signed = _STRUCT[t]
                if not std and t in "Ll":
                    size = 8
                if not isinstance(v, int):
                    raise struct.error("required argument is not an integer")
                if type(v) is SBool:
                    v = V.as_sint(v)
                try:
                    out.extend(V._elems(V.int_to_bytes(v, size, order, signed)))
                except OverflowError as e:
                    raise struct.error("argument out of range") from e
            else:
                out.extend(struct.pack(("!" if order == "big" else "<") + t, concrete(v)))
    return mk_bytes(out)


def struct_unpack(fmt, data):
    if not is_sym(data):
        return struct.unpack(fmt, data)
    order, std, items = _parse_struct(fmt)
    size = struct.calcsize(fmt)
    if len(data) != size:
        raise struct.error("unpack requires a buffer of %d bytes" % size)
    pos = 0
    res = []
    for n, t in items:
        if t == "s":
            res.append(data[pos:pos + n])
            pos += n
            continue
        for _ in range(n):
            if t in _STRUCT:
                sz, signed = _STRUCT[t]
                if not std and t in "Ll":
                    sz = 8
                res.append(V.int_from_bytes(data[pos:pos + sz], order, signed=signed))
            else:
                f = ("!" if order == "big" else "<") + t
                sz = struct.calcsize(f)
                res.append(struct.unpack(f, concrete(data[pos:pos + sz]))[0])
            pos += sz
    return tuple(res)


HANDLERS[struct.pack] = struct_pack
HANDLERS[struct.unpack] = struct_unpack
HANDLERS[struct.unpack_from] = lambda fmt, data, offset=0: struct_unpack(
    fmt, data[offset:offset + struct.calcsize(fmt)])
HANDLERS[(struct.Struct, "pack")] = lambda s, *a: struct_pack(s.format, *a)
HANDLERS[(struct.Struct, "unpack")] = lambda s, *a: struct_unpack(s.format, *a)
HANDLERS[(int, "from_bytes")] = lambda b, byteorder="big", *, signed=False: V.int_from_bytes(
    b, byteorder, signed=signed)
HANDLERS[(int, "to_bytes")] = lambda x, *a, **kw: V.int_to_bytes(x, *a, **kw) if kw.get(
    "signed") is not None or True else None
HANDLERS[(bytes, "fromhex")] = lambda s: bytes.fromhex(concrete(s))
HANDLERS[(dict, "fromkeys")] = lambda it, v=None: sx_dictc([(k, v) for k in it])


# -- io

class SBytesIO:
    """ io.BytesIO with symbolic content """
    closed = False

    def __init__(self, data=b""):
        self.elems = list(V._elems(data))
        self.pos = 0
        self.name = None

    def read(self, n=-1):
        if n is None:
            n = -1
        n = concrete(n)
        if n < 0:
            n = max(0, len(self.elems) - self.pos)
        r = self.elems[self.pos:self.pos + n]
        self.pos += len(r)
        return mk_bytes(r)

    read1 = read

    def readline(self, size=-1):
        for i in range(self.pos, len(self.elems)):
            if branch(V._ceq(self.elems[i], 10)):
                r = self.elems[self.pos:i + 1]
                break
        else:
            r = self.elems[self.pos:]
        self.pos += len(r)
        return mk_bytes(r)

    def __iter__(self):
        while True:
            x = self.readline()
            if not len(x):
                return
            yield x

    def readinto(self, buf):
        data = self.read(len(buf))
        buf[:len(data)] = concrete(data)
        return len(data)

    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not %r" % type(data).__name__)
        e = list(V._elems(data)) if type(data) is not SBytearray else list(data.elems)
        if self.pos > len(self.elems):
            self.elems.extend([0] * (self.pos - len(self.elems)))
        self.elems[self.pos:self.pos + len(e)] = e
        self.pos += len(e)
        return len(e)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        return mk_bytes(self.elems)

    def getbuffer(self):
        return self.getvalue()

    def seek(self, pos, whence=0):
        if whence == 1:
            pos = self.pos + pos
        elif whence == 2:
            pos = len(self.elems) + pos
        self.pos = max(0, concrete(pos))
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else concrete(size)
        del self.elems[size:]
        return size

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@handler(io.BytesIO)
def _bytesio(*args, **kw):
    return SBytesIO(*args, **kw)


@handler(io.StringIO)
def _stringio(*args, **kw):
    if args and is_sym(args[0]):
        return SStringIO(args[0])
    return io.StringIO(*args, **kw)


class SStringIO:
    def __init__(self, data=""):
        self.data = data
        self.pos = 0

    def read(self, n=-1):
        r = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def __iter__(self):
        return iter(self.data[self.pos:].splitlines(True))

    def getvalue(self):
        return self.data


# -- json: an injective encoding, the text itself is not modelled

class SJson(str):
    """ opaque json text of a structure with symbolic values """

    def __new__(cls, obj):
        self = str.__new__(cls, "<symbolic json>")
        self.obj = obj
        return self


def _json_copy(x):
    t = type(x)
    if t in SYM_TYPES:
        if t is SBytes:
            raise TypeError("Object of type bytes is not JSON serializable")
        return x
    if t in (str, int, float, bool, type(None)):
        return x
    if isinstance(x, dict):
        w = {}
        for k, v in x.items():
            if not isinstance(k, (str, int, float, bool, type(None))):
                raise TypeError("keys must be str, int, float, bool or None")
            if isinstance(k, bool):
                k = "true" if k else "false"
            elif isinstance(k, int):
                k = to_str(k)
            elif k is None:
                k = "null"
            DictW(w)[k] = _json_copy(v)
        return w
    if isinstance(x, (list, tuple)):
        return [_json_copy(y) for y in x]
    if isinstance(x, (str, int, float)):
        return x
    raise TypeError("Object of type %s is not JSON serializable" % t.__name__)


@handler(json.dumps)
def _json_dumps(obj, **kw):
    if deep_sym(obj, 12):
        if kw.get("default") is not None or kw.get("cls") is not None:
            raise Unsupported("json.dumps with default")
        return SJson(_json_copy(obj))
    return json.dumps(obj, **kw)


@handler(json.loads)
def _json_loads(s, **kw):
    if type(s) is SJson:
        return _json_copy(s.obj)
    if is_sym(s):
        s = concrete(s)
    return json.loads(s, **kw)


@handler(json.dump)
def _json_dump(obj, fp, **kw):
    fp.write(_json_dumps(obj, **kw))


@handler(json.load)
def _json_load(fp, **kw):
    return _json_loads(fp.read(), **kw)


# -- base64

def _sym_b64(native):
    def h(data, *args, **kw):
        return native(concrete(data), *args, **kw)
    return h


for _f in (_base64.b64encode, _base64.b64decode, _base64.urlsafe_b64decode,
           _base64.urlsafe_b64encode, _binascii.hexlify, _binascii.unhexlify):
    HANDLERS[_f] = _sym_b64(_f)


# -- logging: formatting log messages isn't part of any property

def _nolog(*args, **kw):
    return None


for _n in ("debug", "info", "warning", "warn", "error", "exception", "critical", "log", "_log"):
    HANDLERS[getattr(logging.Logger, _n)] = _nolog
    if hasattr(logging, _n):
        HANDLERS[getattr(logging, _n)] = _nolog
    if hasattr(logging.LoggerAdapter, _n):
        HANDLERS[getattr(logging.LoggerAdapter, _n)] = _nolog


def reset():
    V.reset_path()
    hash_reset()
