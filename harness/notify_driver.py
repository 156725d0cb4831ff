"""Drives the notification thread of the real store and records deliveries,
for NotifyTrace."""
import os
import random
import threading
import time

import keyfs_driver
from common import exc_name
from keyfs_driver import KEYS, Store

SUBS = dict(a=["k1", "k2", "k3"], b=["k1", "k4"], c=["k1", "k2", "k3", "k4"])


class Kill(BaseException):
    """the process is killed"""


class FakeThread:
    def __init__(self):
        self.budget = None
        self.stop = False

    def is_alive(self):
        return False

    def exit_if_shutdown(self):
        from devpi_server.mythread import Shutdown
        if self.budget is not None:
            self.budget -= 1
            if self.budget <= 0:
                raise Shutdown()
        if self.stop:
            raise Shutdown()

    def sleep(self, secs):
        self.exit_if_shutdown()
        time.sleep(0.01)


class Notifying:
    def __init__(self, base, backend, rng, sink):
        self.rng, self.sink = rng, sink
        self.store = Store(base, backend, 1000)
        self.fail = 0.0
        self.kill = 0.0
        self.observing = False
        self.setup()

    def setup(self):
        self.keyfs = self.store.keyfs
        self.thread = FakeThread()
        self.keyfs.notifier.thread = self.thread
        from devpi_server.log import threadlog
        self.keyfs.notifier.log = threadlog
        for sub in self.rng.sample(sorted(SUBS), 3):
            for k in SUBS[sub]:
                key = {"k1": "K1", "k2": "K2", "k3": "K3", "k4": "K4"}[k]
                self.keyfs.notifier.on_key_change(key, self.subscriber(sub))

    def subscriber(self, sub):
        def f(ev):
            k = self.store.bypath[ev.typedkey.relpath]
            self.observing = True
            try:
                with self.keyfs.read_transaction() as tx:
                    visible = tx.at_serial
            finally:
                self.observing = False
            if ev.value is None:
                val = "<deleted>"
            else:
                val = self.store.decode(k, ev.value)
            back = ev.back_serial
            self.sink(dict(ev="deliver", sub=sub, k=k, serial=ev.at_serial, val=val, back=back,
                           visible=visible, done=self.keyfs.notifier.read_event_serial()))
            r = self.rng.random()
            if r < self.kill:
                raise Kill()
            if r < self.kill + self.fail:
                raise self.rng.choice([ValueError("failing subscriber"), KeyError("x"), OSError("x"),
                                       RuntimeError("y")])
        f.__name__ = sub
        return f

    def reopen(self):
        self.store.open()
        self.setup()


def commit(store, rng, state):
    """commit a random change; the commit event or None"""
    with store.keyfs.write_transaction() as tx:
        for k in rng.sample(KEYS, rng.randint(1, 3)):
            if rng.random() < 0.2:
                store.keys[k].delete()
            else:
                state["n"] += 1
                store.keys[k].set(store.make(k, f"v{state['n']}"))
    if tx.commit_serial is None:
        return None
    with store.keyfs.get_connection() as conn:
        changes = conn.get_changes(tx.commit_serial)
    return dict(ev="commit", serial=tx.commit_serial, changes={
        store.bypath[p]: "<deleted>" if v is None else store.decode(store.bypath[p], v)
        for p, (_, _, v) in changes.items()})


def run(shard, scratch):
    out = []
    from devpi_server.mythread import Shutdown
    for i in range(shard["traces"]):
        rng = random.Random(f"notify-{shard['seed']}-{i}")
        events = []
        base = os.path.join(scratch, f"n{i}")
        nt = Notifying(base, shard["backend"], rng, events.append)
        state = dict(n=0)
        for _ in range(shard["steps"]):
            r = rng.random()
            try:
                if r < 0.55:
                    ev = commit(nt.store, rng, state)
                    if ev:
                        events.append(ev)
                elif r < 0.6:
                    nt.reopen()
                    events.append(dict(ev="stop"))
                else:
                    nt.fail = rng.choice([0, 0.3, 1.0])
                    nt.kill = rng.choice([0, 0, 0.15])
                    # ends when the thread is idle or was asked to stop
                    behind = nt.keyfs.get_current_serial() - nt.keyfs.notifier.read_event_serial()
                    nt.thread.budget = behind + 1 if rng.random() < 0.6 else rng.randint(1, behind + 1)
                    settle = nt.thread.budget == behind + 1
                    faults = rng.random() < 0.15
                    if faults:
                        real = nt.keyfs.get_connection

                        def flaky(*a, real=real, **kw):
                            if not nt.observing and rng.random() < 0.15:
                                raise OSError("database error")
                            return real(*a, **kw)
                        nt.keyfs.get_connection = flaky
                    try:
                        nt.keyfs.notifier.tick()
                    except Shutdown:
                        if not settle or faults:
                            events.append(dict(ev="stop"))
                    except Kill:
                        events.append(dict(ev="stop"))
                        settle = False
                        if faults:
                            del nt.keyfs.get_connection
                            faults = False
                        nt.reopen()
                    except OSError:
                        # the thread logs this and continues with a new tick
                        events.append(dict(ev="stop"))
                        settle = False
                    if faults:
                        del nt.keyfs.get_connection
                        settle = False
                    done = nt.keyfs.notifier.read_event_serial()
                    events.append(dict(ev="settled" if settle else "progress", done=done))
            except Exception as e:  # noqa
                events.append(dict(ev="unexpected", res=exc_name(e)))
                break
        out.append(dict(events=events, meta=dict(backend=shard["backend"], seed=shard["seed"], n=i)))
    return {"traces": out, "counts": {"deliveries": sum(e["ev"] == "deliver" for t in out for e in t["events"])}}


def run_threads(shard, scratch):
    """the real thread function against concurrent committers and waiters"""
    from devpi_server.mythread import Shutdown
    out = []
    for i in range(shard["traces"]):
        rng = random.Random(f"notifyth-{shard['seed']}-{i}")
        base = os.path.join(scratch, f"nt{i}")
        lock = threading.RLock()
        events = []

        def sink(ev):
            with lock:
                events.append(ev)
        nt = Notifying(base, shard["backend"], rng, sink)
        nt.fail = 0.2
        commits = {}

        def notifier():
            try:
                nt.keyfs.notifier.thread_run()
            except Shutdown:
                pass
            except BaseException as e:  # noqa
                sink(dict(ev="unexpected", res="notifier ended: " + exc_name(e)))
        th = threading.Thread(target=notifier, daemon=True)
        th.start()
        n = dict(n=0)

        def committer(r):
            for _ in range(shard["steps"]):
                with lock:
                    n["n"] += 10
                    st = dict(n=n["n"])
                ev = commit(nt.store, r, st)
                if ev:
                    commits[ev["serial"]] = ev
                    if r.random() < 0.3:
                        nt.keyfs.notifier.wait_event_serial(ev["serial"])
                        sink(dict(ev="waited", serial=ev["serial"]))
                if r.random() < 0.5:
                    time.sleep(r.random() * 0.01)
        cs = [threading.Thread(target=committer, args=(random.Random(f"{shard['seed']}-{i}-{c}"),), daemon=True)
              for c in range(3)]
        for c in cs:
            c.start()
        for c in cs:
            c.join(60)
        end = time.time() + 40
        last = max(commits)
        while nt.keyfs.notifier.read_event_serial() < last and time.time() < end:
            time.sleep(0.02)
        done = nt.keyfs.notifier.read_event_serial()
        nt.thread.stop = True
        th.join(20)
        # a delivery may be recorded before the commit event of its serial;
        # that the change was visible is recorded with the delivery
        evs = [commits[s] for s in sorted(commits)] + events + [dict(ev="settled", done=done)]
        if any(c.is_alive() for c in cs):
            evs.append(dict(ev="unexpected", res="waiting for an event serial never ends"))
        out.append(dict(events=evs, meta=dict(kind="threads", seed=shard["seed"], n=i)))
    return {"traces": out, "counts": {"deliveries": sum(e["ev"] == "deliver" for t in out for e in t["events"])}}


def run_crash(shard, scratch):
    """the process dies at the n-th change the notification thread makes to
    the disk"""
    from crash_driver import forked, shim
    from devpi_server.mythread import Shutdown
    keyfs_driver.FAST = False
    lib = shim()
    Store(os.path.join(scratch, "warm"), "sqlite", 10)
    out = []
    for i in range(shard["traces"]):
        rng = random.Random(f"notifycrash-{shard['seed']}-{i}")
        base = os.path.join(scratch, f"nc{i}")
        events = []
        state = dict(n=0)
        half = 0
        n = 1
        for _ in range(shard["steps"]):
            def step(send):
                r = random.Random(f"{shard['seed']}-{i}-{len(events)}")
                nt = Notifying(base, "sqlite", r, send)
                nt.fail = 0.1
                for _ in range(r.randint(0, 3)):
                    ev = commit(nt.store, r, state)
                    if ev:
                        send(ev)
                lib.vp_arm(base.encode(), n, half, 0)
                nt.thread.budget = nt.keyfs.get_current_serial() - nt.keyfs.notifier.read_event_serial() + 1
                try:
                    nt.keyfs.notifier.tick()
                except Shutdown:
                    lib.vp_disarm()
                    send(dict(ev="settled", done=nt.keyfs.notifier.read_event_serial()))
                    send(dict(n=state["n"]))
            code, msgs = forked(step)
            for m in msgs:
                if "ev" in m:
                    events.append(m)
                elif "exc" in m:
                    events.append(dict(ev="unexpected", res=m["exc"]))
            if code == 77:
                n += 1
                events.append(dict(ev="stop"))
            elif code == 0:
                n = 1
                half = rng.choice([0, 1])
                events.append(dict(ev="stop"))
            else:
                events.append(dict(ev="unexpected", res=f"exit {code}"))
                break
            state["n"] += 20
        out.append(dict(events=events, meta=dict(kind="crash", seed=shard["seed"], n=i)))
    return {"traces": out, "counts": {"deliveries": sum(e["ev"] == "deliver" for t in out for e in t["events"]),
                                      "crashes": sum(e["ev"] == "stop" for t in out for e in t["events"])}}
