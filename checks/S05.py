"""Every committed change is announced to subscribers in order, across restarts."""
from checks.common import Crash
from checks.common import CrashPlan
from devpi_server.filestore import FileEntry
from devpi_server.mythread import Shutdown
from symdev.env import make_xom
from symdev.env import reopen
from symdev.harness import Case
import os


class Thread:
    """ stands for the thread of the notifier: ends when there is nothing to do """
    name = "notifier"

    def __init__(self):
        self.on_sleep = None
        self.sleeps = 0

    def is_alive(self):
        return False

    def exit_if_shutdown(self):
        pass

    def sleep(self, secs):
        self.sleeps += 1
        if self.sleeps > 4:
            raise Shutdown
        if self.on_sleep is not None:
            self.on_sleep()


class World:
    def __init__(self, S, xom):
        self.S = S
        self.events = []       # (serial, name, value)
        self.on_event = None
        self.idle = None
        self.attach(xom)

    def attach(self, xom, fresh=True):
        S = self.S
        self.xom = xom
        self.keyfs = keyfs = xom.keyfs
        self.key = keyfs.add_key("TESTKEY", "+test/{name}", dict)
        self.other = keyfs.add_key("OTHERKEY", "+other/{name}", dict)
        self.key.on_key_change(self.failing)
        self.key.on_key_change(self.subscriber)
        self.thread = Thread()
        keyfs.notifier.thread = self.thread

        def wait_tx_serial(serial, **kw):
            # called when all is processed
            S.check(serial == keyfs.get_current_serial() + 1, "waits for the next serial")
            if self.idle is not None and self.idle():
                return True
            raise Shutdown
        S.patch(keyfs, "wait_tx_serial", wait_tx_serial)

    def failing(self, ev):
        raise ValueError("a subscriber with an error")

    def subscriber(self, ev):
        value = None if ev.value is None else ev.value["x"]
        self.events.append((ev.at_serial, ev.typedkey.params["name"], value, ev.back_serial))
        if self.on_event is not None:
            self.on_event(ev)

    def run(self):
        """ until there is nothing more to do, or a crash """
        try:
            self.keyfs.notifier.thread_run()
        except Shutdown:
            return True
        except Crash:
            return False


def write(S, w, t, expected):
    """ one transaction """
    op = S.choice("op%d" % t, ["one", "two", "delete", "other"])
    n = S.str("n%d" % t, 1, "ab")
    with w.keyfs.write_transaction():
        key = w.key(name=n)
        if op == "delete" and not key.exists():
            op = "one"
        serial = w.keyfs.tx.at_serial + 1
        if op == "one":
            key.set({"x": t})
            expected.append((serial, n, t))
        elif op == "two":
            key.set({"x": t})
            w.key(name=n + "2").set({"x": t})
            expected.append((serial, n, t))
            expected.append((serial, n + "2", t))
        elif op == "delete":
            key.delete()
            expected.append((serial, n, None))
        else:
            w.other(name=n).set({"x": t})


def compare(S, events, expected, repeated=None):
    """ `events` announces exactly `expected`; only the serial `repeated` may be announced twice """
    serials = [e[0] for e in events]
    S.check(S.all([a <= b for a, b in zip(serials, serials[1:])]), "changes are announced in order")
    for serial in sorted({e[0] for e in expected}):
        want = [e for e in expected if e[0] == serial]
        got = [e for e in events if e[0] == serial]
        for e in want:
            S.check(S.any([S.eq((g[1], g[2]), (e[1], e[2])) for g in got]), "no change is lost")
        if serial == repeated:
            S.check(len(got) <= 2 * len(want), "announced again only after a restart")
        else:
            S.check(len(got) == len(want), "each change is announced once")
    known = {e[0] for e in expected}
    S.check(all([s in known for s in serials]), "nothing else is announced")
    # each announcement refers to the change before it
    last = {}
    for e in expected:
        before = [x for x in expected if x[0] < e[0] and x[1] == e[1]]
        back = before[-1][0] if before else -1
        for g in events:
            if g[0] == e[0] and g[1] == e[1]:
                S.check(g[3] == back, "previous serial of the key")


def plain(S, ntx, late):
    """ changes made before and while announcements are processed """
    xom = make_xom(S, init=False)
    w = World(S, xom)
    expected = []
    for t in range(ntx):
        write(S, w, t, expected)
    todo = list(range(ntx, ntx + late))
    when = S.choice("when", ["event", "idle"])

    def more(*args):
        if not todo:
            return False
        write(S, w, todo.pop(0), expected)
        return True
    if when == "event":
        w.on_event = more
    w.idle = more
    S.check(w.run(), "no crash")
    compare(S, w.events, expected)
    S.check(w.keyfs.notifier.read_event_serial() == w.keyfs.get_current_serial(), "all is processed")
    # a restart announces nothing again
    w.events = []
    w.attach(reopen(S, xom))
    w.run()
    S.check(not w.events, "nothing is announced again after a clean restart")


def crash(S, ntx, steps):
    """ the process ends in a subscriber or while progress is recorded """
    xom = make_xom(S, init=False)
    w = World(S, xom)
    expected = []
    for t in range(ntx):
        write(S, w, t, expected)
    plan = CrashPlan(S, S.int("crash", 0, steps))
    w.on_event = lambda ev: plan.point("subscriber %s" % ev.at_serial)
    plan.arm()
    w.run()
    where = plan.where
    at = w.events[-1][0] if w.events else None
    plan.end()
    w.on_event = None
    w.attach(reopen(S, xom))
    done = w.keyfs.notifier.read_event_serial()
    S.check(done <= w.keyfs.get_current_serial(), "never further than the last serial")
    if where is None:
        S.check(done == w.keyfs.get_current_serial(), "all is processed")
    if expected:
        write(S, w, ntx, expected)
    w.run()
    compare(S, w.events, expected, repeated=at)
    S.observe("where", where)


def missing(S):
    """ a file which did not arrive yet holds back the announcement """
    xom = make_xom(S)
    w = World(S, xom)
    w.run()
    w.events = []
    with xom.keyfs.write_transaction():
        user = xom.model.create_user("u", "password")
        stage = user.create_stage("dev", type="stage")
    with xom.keyfs.write_transaction():
        entry = xom.filestore.store("u", "dev", "pkg-1.0.zip", b"content")
        w.key(name="a").set({"x": 1})
        path = entry._storepath
        key = entry.key
        serial = xom.keyfs.tx.at_serial + 1
    with xom.keyfs.write_transaction():
        w.key(name="a").set({"x": 2})
    full = os.path.join(str(xom.keyfs.base_path), path)
    os.rename(full, full + "-away")
    what = S.choice("what", ["arrives", "deleted", "index deleted", "user deleted", "never"])
    wakeup = S.choice("wakeup", [1, 2])

    def on_sleep():
        S.check(w.events == [], "held back as long as the file is missing")
        S.check(w.keyfs.notifier.read_event_serial() == serial - 1, "progress stops before the missing file")
        if w.thread.sleeps != wakeup:
            return
        if what == "arrives":
            os.rename(full + "-away", full)
        elif what == "deleted":
            with xom.keyfs.write_transaction():
                FileEntry(key, readonly=False).delete()
        elif what == "index deleted":
            with xom.keyfs.write_transaction():
                xom.model.getstage("u/dev").delete()
        elif what == "user deleted":
            with xom.keyfs.write_transaction():
                xom.model.getstage("u/dev").delete()
                xom.model.get_user("u").delete()
    w.thread.on_sleep = on_sleep
    w.run()
    got = [(e[0], e[2]) for e in w.events]
    if what == "never":
        S.check(got == [], "never announced")
        S.check(w.keyfs.notifier.read_event_serial() == serial - 1, "progress stops before the missing file")
    else:
        S.check(got == [(serial, 1), (serial + 1, 2)], "announced once it is settled")
        S.check(w.keyfs.notifier.read_event_serial() == w.keyfs.get_current_serial(), "all is processed")


def cases(tier):
    res = [
        Case("plain", plain, ntx=2, late=1, time_limit=100),
        Case("crash", crash, ntx=2, steps=12, time_limit=120),
        Case("missing file", missing),
    ]
    if tier == "thorough":
        res += [
            Case("plain, more", plain, ntx=3, late=1, time_limit=700),
            Case("crash, more", crash, ntx=3, steps=18, time_limit=700),
        ]
    return res


ASSUMPTIONS = [
    "the wait for the next serial is replaced by a stand-in which ends the run",
    "a crash ends the process in a subscriber or between two file system operations",
]
