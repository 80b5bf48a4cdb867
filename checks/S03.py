"""Snapshot reads and transaction isolation of the key/value store."""
from checks.common import Worker
from symdev.env import make_xom
from symdev.env import reopen
from symdev.harness import Case


class Abort(Exception):
    pass


class World:
    """ what the store must contain, by serial """

    def __init__(self, S, xom, nkeys, kind):
        self.S = S
        self.keyfs = xom.keyfs
        self.names = [S.str("n%d" % i, 1, "ab") for i in range(nkeys)]
        self.kind = kind
        self.serial = self.keyfs.get_current_serial()
        self.start = self.serial
        self.state = []          # list of (name, value), value None: deleted
        self.history = {self.serial: []}
        self.n = 0

    def key(self, i):
        return self.key_for(self.names[i])

    def key_for(self, name):
        if self.kind == "dict":
            return self.keyfs.USER(user=name)
        return self.keyfs.PROJNAMES(user=name, index="dev")

    def fresh(self):
        self.n += 1
        v = self.S.int("v%d" % self.n, 0, 2)
        if self.kind == "dict":
            return {"x": v}
        # sets of project names
        return {"p", "q"} if v == 0 else {"p"} if v == 1 else {"q", "r"}

    def lookup(self, state, name):
        for n, v in reversed(state):
            if n == name:
                return v
        return None

    def empty(self):
        return {} if self.kind == "dict" else set()

    def verify(self, state, what):
        """ the open transaction shows exactly `state` """
        S = self.S
        for name in self.names:
            key = self.key_for(name)
            expected = self.lookup(state, name)
            S.check(key.exists() == (expected is not None), what + ": existence")
            if expected is None:
                S.check(key.get() == self.empty(), what + ": no value")
            else:
                S.check(key.get() == expected, what + ": value")
                S.check(key.get(readonly=False) == expected, what + ": mutable value")

    def commit(self, state):
        """ bookkeeping for a transaction which changed something """
        self.state = state
        self.serial += 1
        self.history[self.serial] = state

    def changed(self, old, new):
        for name in self.names:
            a = self.lookup(old, name)
            b = self.lookup(new, name)
            if (a is None) != (b is None):
                return True
            if a is not None and a != b:
                return True
        return False


def step(S, w, t, nkeys, nops, ops, how):
    """ one write transaction """
    keyfs = w.keyfs
    state = list(w.state)
    end = S.choice("end%d" % t, how)
    try:
        with keyfs.write_transaction() as tx:
            for j in range(nops):
                i = S.choice("key%d.%d" % (t, j), list(range(nkeys)))
                op = S.choice("op%d.%d" % (t, j), ops)
                key = w.key(i)
                if op == "set":
                    v = w.fresh()
                    key.set(v)
                    state.append((w.names[i], v))
                elif op == "update":
                    v = w.fresh()
                    with key.update() as cur:
                        cur.clear()
                        cur.update(v)
                    state.append((w.names[i], v))
                elif op == "delete":
                    if not key.exists():
                        continue
                    key.delete()
                    state.append((w.names[i], None))
                w.verify(state, "in transaction")
            if end == "abort":
                raise Abort
            if end == "doom":
                tx.doom()
    except Abort:
        pass
    if end != "commit":
        return
    if w.changed(w.state, state):
        w.commit(state)
    elif len(state) > len(w.state) and w.keyfs.get_current_serial() == w.serial + 1 and any(
            v is None and w.lookup(w.state, name) is None for name, v in state[len(w.state):]):
        # created and deleted again: recorded as deleted, which is one more
        # serial without a visible difference
        w.commit(state)


def history(S, nkeys, ntx, nops, kind, cache=None, ops=("set", "delete"), how=("commit", "abort"),
            restart=False):
    opts = () if cache is None else ("--keyfs-cache-size", str(cache))
    xom = make_xom(S, opts=opts, init=False)
    w = World(S, xom, nkeys, kind)
    for t in range(ntx):
        step(S, w, t, nkeys, nops, list(ops), list(how))
        S.check(w.keyfs.get_current_serial() == w.serial,
                "every transaction with changes, and no other, makes one serial")
        with w.keyfs.read_transaction():
            w.verify(w.state, "after commit")
    if restart:
        w.keyfs = reopen(S, xom).keyfs
        S.check(w.keyfs.get_current_serial() == w.serial, "serial after restart")
    for serial in range(w.start, w.serial + 1):
        if serial < 0:
            continue
        with w.keyfs.read_transaction(at_serial=serial) as tx:
            S.check(tx.at_serial == serial, "snapshot serial")
            w.verify(w.history[serial], "snapshot")
    S.observe("serial", w.serial)


def concurrent(S, nkeys, kind):
    """ a reader keeps its snapshot while others write """
    xom = make_xom(S, init=False)
    w = World(S, xom, nkeys, kind)
    reader = Worker(S)
    step(S, w, 0, nkeys, 1, ["set"], ["commit"])
    snapshot = list(w.state)
    serial = w.serial

    def begin():
        w.keyfs.begin_transaction_in_thread()

    def look():
        w.verify(snapshot, "snapshot of an open transaction")
        return w.keyfs.tx.at_serial
    reader(begin)
    if S.choice("warm", [False, True]):
        reader(look)
    for t in range(1, 3):
        step(S, w, t, nkeys, 1, ["set", "delete"], ["commit", "abort"])
    S.check(reader(look) == serial, "serial of an open transaction")
    end = S.choice("then", ["restart", "write", "rollback"])
    if end == "restart":
        reader(w.keyfs.restart_read_transaction)
        reader(lambda: w.verify(w.state, "restarted transaction"))
        reader(w.keyfs.commit_transaction_in_thread)
    elif end == "write":
        reader(w.keyfs.restart_as_write_transaction)
        reader(lambda: w.verify(w.state, "restarted as write transaction"))
        state = list(w.state)

        def write():
            v = w.fresh()
            w.key(0).set(v)
            state.append((w.names[0], v))
            w.keyfs.commit_transaction_in_thread()
        reader(write)
        if w.changed(w.state, state):
            w.commit(state)
        S.check(w.keyfs.get_current_serial() == w.serial, "serial after restarted transaction")
        with w.keyfs.read_transaction():
            w.verify(w.state, "after restarted transaction")
    else:
        reader(w.keyfs.rollback_transaction_in_thread)
    for serial in range(max(0, w.start), w.serial + 1):
        with w.keyfs.read_transaction(at_serial=serial):
            w.verify(w.history[serial], "snapshot")


def readonly(S):
    """ nothing can be written in a read transaction """
    xom = make_xom(S, init=False)
    w = World(S, xom, 1, "dict")
    step(S, w, 0, 1, 1, ["set"], ["commit"])
    key = w.key(0)
    with w.keyfs.read_transaction():
        op = S.choice("op", ["set", "delete", "update"])
        if op == "set":
            kind, res = S.attempt(key.set, {"x": 5})
        elif op == "delete":
            kind, res = S.attempt(key.delete)
        else:
            def update():
                with key.update() as v:
                    v["x"] = 7
            kind, res = S.attempt(update)
        S.check(kind == "err", "writing is refused")
        w.verify(w.state, "after refused write")
    S.check(w.keyfs.get_current_serial() == w.serial, "no serial")


def cases(tier):
    both = ("set", "delete")
    res = [
        Case("two keys, three transactions", history, nkeys=2, ntx=3, nops=1, kind="dict",
             time_limit=120),
        Case("small cache", history, nkeys=2, ntx=3, nops=1, kind="dict", cache=1, time_limit=120,
             how=("commit",)),
        Case("two keys, two operations", history, nkeys=2, ntx=2, nops=2, kind="dict",
             how=("commit", "doom"), time_limit=150),
        Case("one key, four transactions", history, nkeys=1, ntx=4, nops=1, kind="dict", ops=both,
             how=("commit",), time_limit=120),
        Case("sets", history, nkeys=1, ntx=3, nops=1, kind="set", time_limit=120,
             ops=("set", "update", "delete")),
        Case("updates", history, nkeys=1, ntx=2, nops=2, kind="dict", ops=("update", "delete"),
             time_limit=120),
        Case("restart", history, nkeys=2, ntx=2, nops=1, kind="dict", restart=True, time_limit=120),
        Case("concurrent reader", concurrent, nkeys=1, kind="dict", time_limit=150),
        Case("readonly", readonly),
    ]
    if tier == "thorough":
        res += [
            Case("two keys, four transactions", history, nkeys=2, ntx=4, nops=1, kind="dict",
                 time_limit=700),
            Case("one key, three operations", history, nkeys=1, ntx=2, nops=3, kind="dict",
                 how=("commit", "abort", "doom"), time_limit=700),
            Case("concurrent reader, two keys", concurrent, nkeys=2, kind="dict", time_limit=700),
            Case("three keys", history, nkeys=3, ntx=3, nops=1, kind="dict", how=("commit",),
                 time_limit=700),
        ]
    return res


ASSUMPTIONS = [
    "sqlite executes the statements it is given according to its documentation",
    "keys are names of one character; values are small dictionaries or sets",
    "at most one reader runs next to a writer; writers are serialized by the database",
]
