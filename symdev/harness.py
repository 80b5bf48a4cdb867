"""The interface harnesses are written against.

`Sym` answers requests for inputs with symbolic values, `Conc` answers them with
the concrete values of one replayed counterexample or sampled path.
"""
import os
import shutil
import tempfile


class Case:
    def __init__(self, name, fn, *, time_limit=60, max_paths=20000, tier="quick",
                 max_branches=4000, bounds=None, samples=4, exc_ok=False, **params):
        self.name = name
        self.fn = fn
        self.time_limit = time_limit
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.tier = tier
        self.params = params
        self.bounds = bounds
        self.samples = samples
        self.exc_ok = exc_ok


class CheckFailed(Exception):
    pass


def encode(x):
    if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, (bytes, bytearray)):
        return {"__bytes__": bytes(x).hex()}
    if isinstance(x, tuple):
        return {"__tuple__": [encode(y) for y in x]}
    if isinstance(x, list):
        return [encode(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return {"__set__": sorted((encode(y) for y in x), key=repr)}
    if isinstance(x, dict):
        return {"__dict__": [[encode(k), encode(v)] for k, v in sorted(
            x.items(), key=lambda kv: repr(kv[0]))]}
    return {"__repr__": repr(x)}


def decode(x):
    if isinstance(x, list):
        return [decode(y) for y in x]
    if isinstance(x, dict):
        if "__bytes__" in x:
            return bytes.fromhex(x["__bytes__"])
        if "__tuple__" in x:
            return tuple(decode(y) for y in x["__tuple__"])
        if "__set__" in x:
            return {decode(y) for y in x["__set__"]}
        if "__dict__" in x:
            return {decode(k): decode(v) for k, v in x["__dict__"]}
    return x


class Base:
    symbolic = False

    def tmpdir(self):
        """ scratch directory, removed at the end of the path """
        base = os.environ.get("SYMDEV_SCRATCH") or None
        d = tempfile.mkdtemp(prefix="symdev-", dir=base)
        self.on_end(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def patch(self, obj, name, value):
        """ replace an attribute until the end of the path """
        missing = object()
        d = obj.__dict__ if hasattr(obj, "__dict__") else {}
        old = d.get(name, missing)
        was = getattr(obj, name, missing)
        setattr(obj, name, value)

        def undo():
            if old is not missing:
                setattr(obj, name, old)
            elif was is missing or not isinstance(obj, type):
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                delattr(obj, name)
        self.on_end(undo)

    def text(self, name, lo, hi, alphabet=None):
        n = self.choice(name + ".len", list(range(lo, hi + 1)))
        return self.str(name, n, alphabet)

    def data(self, name, lo, hi):
        n = self.choice(name + ".len", list(range(lo, hi + 1)))
        return self.bytes(name, n)

    def attempt(self, fn, *args, excs=(Exception,), **kw):
        """ ('ok', result) or ('err', exception) """
        try:
            return ("ok", fn(*args, **kw))
        except excs as e:
            return ("err", e)


class Sym(Base):
    symbolic = True

    def __init__(self, ex):
        self.ex = ex

    def on_end(self, fn):
        self.ex.cleanups.append(fn)

    def str(self, name, n, alphabet=None):
        from . import values as V
        from .core import z3
        es = []
        for i in range(n):
            e = z3.Int("%s[%d]" % (name, i))
            if alphabet is None:
                # the printable part of ASCII
                self.ex.assume(z3.And(e >= 32, e < 127))
                V.set_char_hi(e, 126)
            elif isinstance(alphabet, tuple):
                lo, hi = alphabet
                c = z3.And(e >= lo, e <= hi)
                if hi > 0xd7ff:
                    c = z3.And(c, z3.Or(e < 0xd800, e > 0xdfff))
                self.ex.assume(c)
                V.set_char_hi(e, hi)
            else:
                cs = [ord(c) for c in alphabet]
                cond = V.in_set(e, cs)
                self.ex.assume(cond)
                V.set_char_hi(e, max(cs))
            es.append(e)
        r = V.mk_str(es)
        self.ex.register_input(name, lambda ev: V.evaluate(r, ev))
        return r

    def bytes(self, name, n, alphabet=None):
        from . import values as V
        from .core import z3
        es = []
        for i in range(n):
            e = z3.Int("%s[%d]" % (name, i))
            if alphabet is None:
                self.ex.assume(z3.And(e >= 0, e < 256))
            else:
                self.ex.assume(V.in_set(e, list(alphabet)))
            V.set_char_hi(e, 255)
            es.append(e)
        r = V.mk_bytes(es)
        self.ex.register_input(name, lambda ev: V.evaluate(r, ev))
        return r

    def int(self, name, lo=None, hi=None):
        from . import values as V
        from .core import z3
        e = z3.Int(name)
        if lo is not None:
            self.ex.assume(e >= lo)
        if hi is not None:
            self.ex.assume(e <= hi)
        self.ex.register_input(name, lambda ev: ev(e))
        return V.SInt(e)

    def real(self, name, lo=None, hi=None):
        from . import values as V
        from .core import z3
        e = z3.Real(name)
        if lo is not None:
            self.ex.assume(e >= lo)
        if hi is not None:
            self.ex.assume(e <= hi)
        self.ex.register_input(name, lambda ev: ev(e))
        return V.SReal(e)

    def bool(self, name):
        from . import values as V
        from .core import z3
        e = z3.Bool(name)
        self.ex.register_input(name, lambda ev: ev(e))
        return V.SBool(e)

    def choice(self, name, options):
        from .core import z3
        options = list(options)
        if len(options) == 1:
            self.ex.register_input(name, lambda ev: 0)
            return options[0]
        e = z3.Int(name)
        self.ex.assume(z3.And(e >= 0, e < len(options)))
        self.ex.register_input(name, lambda ev: ev(e))
        return options[self.ex.concretize(e)]

    def assume(self, cond):
        self.ex.assume(_expr(cond))

    def check(self, cond, label, detail=None):
        self.ex.check(_expr(cond), label, detail)

    def observe(self, name, value):
        self.ex.observations.append((name, value))

    def all(self, conds):
        from . import values as V
        return V.mk_bool(V.e_and([_expr(c) for c in conds]))

    def any(self, conds):
        from . import values as V
        return V.mk_bool(V.e_or([_expr(c) for c in conds]))

    def implies(self, a, b):
        from . import values as V
        return V.mk_bool(V.e_or([V.e_not(_expr(a)), _expr(b)]))

    def not_(self, a):
        from . import values as V
        return V.mk_bool(V.e_not(_expr(a)))

    def iff(self, a, b):
        from . import values as V
        from .core import z3
        a, b = _expr(a), _expr(b)
        if isinstance(a, bool):
            return V.mk_bool(b if a else V.e_not(b))
        if isinstance(b, bool):
            return V.mk_bool(a if b else V.e_not(a))
        return V.mk_bool(a == b)

    def eq(self, a, b):
        """ equality as one expression, without case splits where possible """
        from . import values as V
        return V.mk_bool(_deep_eq(a, b))

    def concrete(self, x):
        from . import values as V
        return V.concrete(x)


def _deep_eq(a, b):
    from . import values as V
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and tb is ta:
        if len(a) != len(b):
            return False
        return V.e_and([_deep_eq(x, y) for x, y in zip(a, b)])
    if ta is dict and tb is dict and not V.SYMKEYS[0]:
        if a.keys() != b.keys():
            return False
        return V.e_and([_deep_eq(v, b[k]) for k, v in a.items()])
    from .shims import sx_eq
    return _expr(sx_eq(a, b))


def _expr(c):
    from . import values as V
    if type(c) is V.SBool:
        return c.e
    if isinstance(c, bool):
        return c
    return bool(c)


class Conc(Base):
    def __init__(self, inputs):
        self.inputs = inputs
        self.failed = []
        self.passed = []
        self.observations = []
        self.ends = []
        self.diverged = False
        self.assumption_failed = False

    def on_end(self, fn):
        self.ends.append(fn)

    def finish(self):
        for f in reversed(self.ends):
            f()

    def _get(self, name, default):
        if name in self.inputs:
            return self.inputs[name]
        self.diverged = True
        return default

    def str(self, name, n, alphabet=None):
        if alphabet is None:
            d = " "
        elif isinstance(alphabet, tuple):
            d = chr(alphabet[0])
        else:
            d = alphabet[0]
        r = self._get(name, d * n)
        return r if len(r) == n else (r + d * n)[:n]

    def bytes(self, name, n, alphabet=None):
        d = bytes([alphabet[0]]) if alphabet is not None else b"\0"
        r = self._get(name, d * n)
        return r if len(r) == n else (r + d * n)[:n]

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else hi if hi is not None else 0)

    real = int

    def bool(self, name):
        return self._get(name, False)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, 0) % len(options)]

    def assume(self, cond):
        if not cond:
            self.assumption_failed = True
            raise AssumptionFailed

    def check(self, cond, label, detail=None):
        if cond:
            self.passed.append(label)
        else:
            self.failed.append((label, detail() if callable(detail) else ""))
            raise CheckFailed(label)

    def observe(self, name, value):
        self.observations.append((name, value))

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def implies(self, a, b):
        return (not a) or bool(b)

    def not_(self, a):
        return not a

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        return a == b

    def concrete(self, x):
        return x


class AssumptionFailed(BaseException):
    pass
