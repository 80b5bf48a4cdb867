"""Differential test of the proxies: symbolic values pinned to one value have to
behave like the native value.  Run: /opt/venv/bin/python -m selftest.test_values"""
import random
import re
import sys
from symdev import core, shims, values as V, rx
from symdev.core import Explorer, z3


from symdev import instrument
instrument.install_builtins()


def pin(ex, v):
    if isinstance(v, str):
        es = []
        for c in v:
            e = ex.fresh("c")
            ex.assume(e == ord(c))
            es.append(e)
        return V.SStr(es) if es else v
    if isinstance(v, bytes):
        es = []
        for c in v:
            e = ex.fresh("c")
            ex.assume(e == c)
            V.set_char_hi(e, 255)
            es.append(e)
        return V.SBytes(es) if es else v
    if isinstance(v, bool):
        e = ex.fresh("b", "bool")
        ex.assume(e == v)
        return V.SBool(e)
    if isinstance(v, int):
        e = ex.fresh("i")
        ex.assume(e == v)
        return V.SInt(e)
    return v


def unpin(ex, x):
    return V.evaluate(x, lambda e: e if isinstance(e, (int, bool)) else core._pyval(ex.eval_model(e)))


import os
p = os.path.join(os.path.dirname(__file__), "values_ops.py")
ns = {"__name__": "values_ops"}
exec(instrument.transform(open(p).read(), p), ns)
ops = ns["ops"]


def norm(x):
    if isinstance(x, (list, tuple)):
        return type(x)(norm(y) for y in x)
    return x


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    r = random.Random(seed)
    bad = total = 0
    for _ in range(n):
        for name, fn, args in ops(r):
            try:
                want = ("ok", fn(*args))
            except Exception as e:
                want = ("err", type(e).__name__)
            got = []

            def h(ex):
                shims.reset()
                try:
                    x = fn(*[pin(ex, a) for a in args])
                    got.append(("ok", unpin(ex, x)))
                except Exception as e:
                    got.append(("err", type(e).__name__))
                    if want[0] == "ok":
                        import traceback
                        traceback.print_exc()
            ex = Explorer()
            ex.run(h)
            total += 1
            if ex.stats.unsupported and not got:
                print("UNSUPPORTED", name, args, ex.stats.unsupported)
                continue
            if [norm(g) for g in got] != [norm(want)]:
                bad += 1
                print("DIFF", name, args, "want", want, "got", got, ex.stats.unsupported)
                if bad > 10:
                    return
    print("total", total, "bad", bad)


main()
