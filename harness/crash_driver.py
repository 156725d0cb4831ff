"""Crash points of commits: the process dies at every n-th change it makes to
the disk (crashshim.c) while it runs a transaction; the store is then opened by
a new process, which may die as well while it recovers, and its state is
recorded for KeyFSTrace (event crash)."""
import ctypes
import json
import os
import random
import shutil

import keyfs_driver
from common import exc_name
from keyfs_driver import FILES, KEYS, PATHS, Run, Store


# the order of writes must be the real one
keyfs_driver.FAST = False


def shim():
    lib = ctypes.CDLL(None)
    lib.vp_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    lib.vp_count.restype = ctypes.c_long
    return lib


def forked(f, timeout=60):
    """Run f(send) in a forked process; returns (exit status, messages)."""
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            signal.alarm(timeout)
            f(lambda msg: os.write(w, json.dumps(msg).encode() + b"\n"))
            code = 0
        except BaseException as e:  # noqa
            try:
                os.write(w, json.dumps({"exc": exc_name(e)}).encode() + b"\n")
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    _, status = os.waitpid(pid, 0)
    msgs = [json.loads(line) for line in data.splitlines() if line.endswith(b"}")]
    return os.waitstatus_to_exitcode(status), msgs


def observe(store):
    """complete visible state"""
    keyfs = store.keyfs
    res = dict(keys={}, files={})
    with keyfs.read_transaction() as tx:
        res["serial"] = tx.at_serial
        for k in KEYS:
            key = store.keys[k]
            res["keys"][k] = store.decode(k, tx.get(key)) if key.exists() else "<gone>"
        for f in FILES:
            res["files"][f] = look(tx.conn, f)
    return res


def look(conn, f):
    try:
        c = conn.io_file_get(PATHS[f])
    except OSError:
        return "<nofile>"
    v = c.split(b":")[0].decode("ascii", "replace")
    if not v[1:].isdigit() or Run.content(None, v) != bytes(c):
        return "corrupt:" + repr(c[:30])
    return v


def do_ops(store, ops, events=None):
    keyfs = store.keyfs
    for op in ops:
        kind = op["ev"]
        if kind == "set":
            store.keys[op["k"]].set(store.make(op["k"], op["val"]))
        elif kind == "del":
            store.keys[op["k"]].delete()
        elif kind == "fset":
            keyfs.tx.conn.io_file_set(PATHS[op["f"]], Run.content(None, op["val"]))
        elif kind == "fdel":
            keyfs.tx.conn.io_file_delete(PATHS[op["f"]])
        if events is not None:
            events.append(dict(op, t="t1", res="ok"))


class Plan:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def ops(self, count):
        res = []
        for _ in range(count):
            r = self.rng.random()
            if r < 0.35:
                res.append(dict(ev="set", k=self.rng.choice(KEYS), val=self.val()))
            elif r < 0.45:
                res.append(dict(ev="del", k=self.rng.choice(KEYS)))
            elif r < 0.82:
                res.append(dict(ev="fset", f=self.rng.choice(FILES), val=self.val()))
            else:
                res.append(dict(ev="fdel", f=self.rng.choice(FILES)))
        return res

    def val(self):
        self.n += 1
        return f"v{self.n}"


def committed(store, ops, events):
    """one complete transaction, recorded"""
    with store.keyfs.write_transaction() as tx:
        events.append(dict(ev="begin", t="t1", write=True, at=-2, at_serial=tx.at_serial, res="ok"))
        do_ops(store, ops, events)
        succ = []
        tx.on_commit_success(lambda: succ.append(1))
    events.append(dict(ev="commit", t="t1", serial=-99 if tx.commit_serial is None else tx.commit_serial,
                       res="ok", succ=len(succ), fin=1))


class Disk:
    """snapshots of the state of a store"""

    def __init__(self, scratch, backend, pg):
        self.scratch, self.backend, self.pg, self.n = scratch, backend, pg, 0

    def fresh(self, like=None):
        self.n += 1
        base = os.path.join(self.scratch, f"c{self.n}")
        if like is None:
            os.makedirs(base)
        else:
            shutil.copytree(like, base)
        if self.pg is not None:
            self.pg.database(base, template=None if like is None else self.pg.dbs[like])
        return base

    def drop(self, base):
        shutil.rmtree(base, ignore_errors=True)
        if self.pg is not None:
            self.pg.drop(base)


def run(shard, scratch):
    lib = shim()
    pg = None
    sockets = 0
    if shard["backend"] == "pg":
        import pgserver
        pg = pgserver.PGServer(scratch)
        sockets = 1
        if not pg.available:
            return {"traces": [], "counts": {"pg_unavailable": 1}}
    # everything imported before forking
    Store(os.path.join(scratch, "warm"), "sqlite_db_files", 10)
    Store(os.path.join(scratch, "warm2"), "sqlite", 10)
    out = []
    counts = dict(crash_points=0, crash_points_in_recovery=0)
    try:
        for i in range(shard["histories"]):
            rng = random.Random(f"crash-{shard['seed']}-{shard['backend']}-{i}")
            disk = Disk(scratch, shard["backend"], pg)
            plan = Plan(rng)
            base = disk.fresh()
            prefix = []

            def before(send):
                store = Store(base, shard["backend"], 1000, pg)
                events = []
                for _ in range(rng.randint(1, 4)):
                    committed(store, plan.ops(rng.randint(1, 5)), events)
                send(dict(events=events, n=plan.n))
            code, msgs = forked(before)
            if code != 0 or not msgs or "events" not in msgs[-1]:
                out.append(dict(events=[dict(ev="unexpected", res=f"exit {code} {msgs}")], meta=dict(i=i)))
                continue
            prefix = msgs[-1]["events"]
            plan.n = msgs[-1]["n"]
            ops = plan.ops(rng.randint(1, 6))
            after = plan.ops(3)
            half = rng.random() < 0.4

            def victim(where, n, half):
                def f(send):
                    store = Store(where, shard["backend"], 1000, pg)
                    lib.vp_arm(where.encode(), n, half, sockets)
                    events = []
                    with store.keyfs.write_transaction() as tx:
                        ev = dict(ev="begin", t="t1", write=True, at=-2, at_serial=tx.at_serial, res="ok")
                        send(ev)
                        for op in ops:
                            do_ops(store, [op], events)
                            send(events[-1])
                        send(dict(phase="commit"))
                    send(dict(phase="done", count=lib.vp_count()))
                    store = None
                return f

            def recover(where, n):
                def f(send):
                    if n:
                        lib.vp_arm(where.encode(), n, 0, sockets)
                    store = Store(where, shard["backend"], 1000, pg)
                    res = observe(store)
                    send(dict(count=lib.vp_count() if n else 0))
                    lib.vp_disarm()
                    send(dict(state=res))
                    events = []
                    committed(store, after, events)
                    store.open()
                    res = observe(store)
                    events.append(dict(ev="reopen", res="ok"))
                    events.append(dict(ev="state", **res))
                    send(dict(after=events))
                return f

            # how many points are there
            where = disk.fresh(like=base)
            code, msgs = forked(victim(where, -1, 0))
            disk.drop(where)
            if code != 0 or "count" not in (msgs[-1] if msgs else {}):
                out.append(dict(events=prefix + [dict(ev="unexpected", res=f"exit {code} {msgs[-1:]}")], meta=dict(i=i)))
                continue
            total = msgs[-1]["count"]
            points = list(range(1, total + 1))
            limit = shard.get("points", 10 ** 6)
            if len(points) > limit:
                points = sorted(rng.sample(points, limit))
            for n in points:
                where = disk.fresh(like=base)
                code, msgs = forked(victim(where, n, half))
                events = list(prefix)
                phase = "ops" if msgs else "none"
                for m in msgs:
                    if "ev" in m:
                        events.append(m)
                    elif "phase" in m:
                        phase = m["phase"]
                    elif "exc" in m:
                        phase = m["exc"]
                counts["crash_points"] += 1
                # the recovery may crash as well, at a growing number of points
                m = 1
                died = 0
                while shard.get("nested", True) and m <= 40:
                    code2, msgs2 = forked(recover(where, m))
                    if code2 != 77:
                        break
                    died += 1
                    m += 1 if rng.random() < 0.5 else 2
                    counts["crash_points_in_recovery"] += 1
                else:
                    code2, msgs2 = forked(recover(where, 0))
                got = {}
                for x in msgs2:
                    got.update(x)
                if code != 77 and phase != "done":
                    events.append(dict(ev="unexpected", res=f"transaction failed: exit {code} {msgs[-1:]}"))
                elif "state" not in got or "after" not in got:
                    events.append(dict(ev="crash", phase=phase, backend=shard["backend"],
                                       serial=-97, keys={}, files={}, res=f"exit {code2} {msgs2[-1:]}"))
                else:
                    events.append(dict(ev="crash", phase=phase, backend=shard["backend"], res="ok", **got["state"]))
                    events.extend(got["after"])
                out.append(dict(events=events, meta=dict(backend=shard["backend"], seed=shard["seed"], n=i, point=n,
                                                         of=total, half=half, died_in_recovery=died)))
                disk.drop(where)
            disk.drop(base)
    finally:
        if pg is not None:
            pg.stop()
    return {"traces": out, "counts": counts}
