"""Commits of metadata together with files survive a crash at any step."""
from checks.common import Crash
from checks.common import CrashPlan
from devpi_server.filestore import FileEntry
from symdev.env import make_xom
from symdev.env import reopen
from symdev.harness import Case

CONTENTS = [b"one", b"second content", b""]


class World:
    """ file name -> (content or None) as promised by committed transactions """

    def __init__(self, S, nfiles):
        self.S = S
        self.names = ["%s%d.zip" % ("pkg", i) for i in range(nfiles)]

    def key(self, xom, i):
        return xom.keyfs.STAGEFILE(
            user="root", index="dev", hashdir_a="abc", hashdir_b="0123456789abc",
            filename=self.names[i])

    def verify(self, xom, states, what):
        """ the store is in one of the `states` (serial -> files) """
        S = self.S
        serial = xom.keyfs.get_current_serial()
        S.check(serial in states, what + ": one of the committed transactions is the last one")
        state = states[serial]
        with xom.keyfs.read_transaction():
            for i in range(len(self.names)):
                key = self.key(xom, i)
                entry = FileEntry(key)
                expected = state.get(i)
                if expected is None:
                    S.check(not key.exists(), what + ": no metadata for a missing file")
                    S.check(not entry.file_exists(), what + ": no file without metadata")
                else:
                    S.check(key.exists(), what + ": metadata")
                    S.check(entry.file_exists(), what + ": file of the metadata exists")
                    S.check(entry.file_get_content() == expected[0], what + ": content")
                    S.check(entry.validate() is None, what + ": checksum of the metadata")
                    S.check(entry.project == expected[1], what + ": metadata of this transaction")
        return serial


def choose(S, w, t, nops, ops):
    res = []
    for j in range(nops):
        op = S.choice("op%d.%d" % (t, j), ops)
        i = S.choice("file%d.%d" % (t, j), list(range(len(w.names))))
        res.append((op, i))
    return res


def apply(S, w, xom, state, t, steps):
    """ one write transaction, returns the state it leads to """
    with xom.keyfs.write_transaction():
        for j, (op, i) in enumerate(steps):
            key = w.key(xom, i)
            entry = FileEntry(key, readonly=False)
            if op == "store":
                entry.file_set_content(CONTENTS[(t + j) % len(CONTENTS)])
                entry.project = "p%d.%d" % (t, j)
            elif not key.exists():
                continue
            elif op == "delete":
                entry.delete()
            elif op == "meta":
                entry.project = "m%d.%d" % (t, j)
    return target(S, w, state, t, steps)


def target(S, w, state, t, steps):
    """ the state a transaction is going to reach """
    state = dict(state)
    for j, (op, i) in enumerate(steps):
        if op == "store":
            state[i] = (CONTENTS[(t + j) % len(CONTENTS)], "p%d.%d" % (t, j))
        elif i in state:
            if op == "delete":
                state.pop(i)
            else:
                state[i] = (state[i][0], "m%d.%d" % (t, j))
    return state


def crash(S, nfiles, before, nops, ops, steps, after=1, recovery=False, storage="sqlite"):
    xom = make_xom(S, init=False, storage=storage)
    w = World(S, nfiles)
    state = {}
    for t in range(before):
        state = apply(S, w, xom, state, t, choose(S, w, t, 1, ["store"]))
    serial = xom.keyfs.get_current_serial()
    at = S.int("crash", 0, steps - 1)
    todo = choose(S, w, before, nops, ops)
    plan = CrashPlan(S, at)
    plan.arm()
    new = None
    box = {}
    try:
        new = apply(S, w, xom, state, before, todo)
        committed = True
    except Crash:
        committed = False
    where = plan.where
    plan.end()
    if committed:
        # the commit needs fewer steps, the crash happens afterwards
        S.check(new is not None, "committed")
    else:
        new = target(S, w, state, before, todo)
    states = {serial: state, serial + 1: new}
    if committed:
        if new == state:
            states = {serial: state, serial + 1: state}
        else:
            states = {serial + 1: new}
    if recovery:
        # a second crash, while the first is being recovered
        plan.at = S.int("crash2", 0, 3)
        plan.count = 0
        plan.arm()
        try:
            reopen(S, xom).keyfs.finalize_init()
        except Crash:
            pass
        plan.end()
    xom2 = reopen(S, xom)
    xom2.keyfs.finalize_init()
    got = w.verify(xom2, states, "after restart")
    S.observe("crashed", where)
    S.observe("serial", got - serial)
    state = states[got]
    for t in range(after):
        n = before + 1 + t
        state = apply(S, w, xom2, state, n, choose(S, w, n, 1, ["store", "delete"]))
        w.verify(xom2, {xom2.keyfs.get_current_serial(): state}, "after a further transaction")
    xom3 = reopen(S, xom2)
    xom3.keyfs.finalize_init()
    w.verify(xom3, {xom3.keyfs.get_current_serial(): state}, "after a second restart")


def failing(S, nfiles, before, nops, ops, steps):
    """ the disk is full, nothing of the transaction may be visible """
    xom = make_xom(S, init=False)
    w = World(S, nfiles)
    state = {}
    for t in range(before):
        state = apply(S, w, xom, state, t, choose(S, w, t, 1, ["store"]))
    serial = xom.keyfs.get_current_serial()
    todo = choose(S, w, before, nops, ops)
    plan = CrashPlan(S, S.int("fail", 0, steps - 1), fail=("before open", "before db commit", "before link"))
    plan.arm()
    kind, new = S.attempt(apply, S, w, xom, state, before, todo)
    plan.armed = False
    if plan.where == "before db commit":
        S.check(kind == "err", "a failed database commit is reported")
    if kind == "err":
        w.verify(xom, {serial: state}, "after failed transaction")
    else:
        state = new
    n = before + 1
    state = apply(S, w, xom, state, n, choose(S, w, n, 1, ["store"]))
    w.verify(xom, {xom.keyfs.get_current_serial(): state}, "after a further transaction")
    plan.end()
    xom2 = reopen(S, xom)
    xom2.keyfs.finalize_init()
    w.verify(xom2, {xom2.keyfs.get_current_serial(): state}, "after restart")


def cases(tier):
    every = ["store", "delete", "meta"]
    res = [
        Case("first file", crash, nfiles=1, before=0, nops=1, ops=["store"], steps=16, time_limit=100),
        Case("one file", crash, nfiles=1, before=1, nops=1, ops=every, steps=16, time_limit=100),
        Case("two files", crash, nfiles=2, before=1, nops=2, ops=every, steps=24, time_limit=180),
        Case("crash in recovery", crash, nfiles=1, before=1, nops=1, ops=["store", "delete"], steps=12,
             recovery=True, time_limit=100),
        Case("files in database", crash, nfiles=1, before=1, nops=1, ops=every, steps=6,
             storage="db", time_limit=100),
    ]
    res.append(Case("disk full", failing, nfiles=2, before=1, nops=2, ops=every, steps=5, time_limit=100))
    if tier == "thorough":
        res += [
            Case("three operations", crash, nfiles=2, before=2, nops=3, ops=every, steps=30,
                 time_limit=700),
            Case("crash in recovery of two files", crash, nfiles=2, before=1, nops=2,
                 ops=["store", "delete"], steps=24, recovery=True, time_limit=700),
        ]
    return res


ASSUMPTIONS = [
    "a crash ends the process between two file system operations or database commits; what was "
    "written before stays (no loss of power)",
    "a transaction of sqlite is atomic",
]
