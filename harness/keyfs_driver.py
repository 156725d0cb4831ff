"""Drives the real store through random schedules of transactions and records
what it did, for validation against specs/KeyFS.tla (KeyFSTrace)."""
import os
import random
import threading
import time

from common import Worker, exc_name

KEYS = ["k1", "k2", "k3", "k4", "k5"]
FILES = ["f1", "f2", "f3"]
PATHS = {"f1": "+files/a/f1.bin", "f2": "+files/a/b/f2.bin", "f3": "+files/f3.bin"}
SLOTS = ["t1", "t2", "t3", "t4"]


FAST = True


def speed_up(storage):
    if not FAST:
        return
    for cls in storage.__mro__:
        if "_execute_conn_pragmas" in cls.__dict__ and not getattr(cls, "_vp_fast", False):
            old = cls._execute_conn_pragmas

            def fast(self, conn, old=old):
                old(self, conn)
                conn.execute("PRAGMA synchronous=OFF")
            cls._execute_conn_pragmas = fast
            cls._vp_fast = True


def get_storage(backend, basedir, pg=None):
    if backend == "sqlite":
        from devpi_server.keyfs_sqlite_fs import Storage
        speed_up(Storage)
        return Storage
    if backend == "sqlite_db_files":
        from devpi_server.keyfs_sqlite import Storage
        speed_up(Storage)
        return Storage
    if backend == "pg":
        from functools import partial
        from devpi_postgresql.main import Storage
        return partial(Storage, settings=pg.database(basedir))
    raise ValueError(backend)


class Store:
    """The key value store with five keys of different types."""

    def __init__(self, basedir, backend, cache_size, pg=None):
        self.args = (basedir, backend, cache_size, pg)
        self.open()

    def open(self):
        from devpi_server.keyfs import KeyFS
        basedir, backend, cache_size, pg = self.args
        self.keyfs = KeyFS(basedir, get_storage(backend, basedir, pg), cache_size=cache_size)
        ks = self.keyfs
        self.keys = {
            "k1": ks.add_key("K1", "conf/k1", dict),
            "k2": ks.add_key("K2", "{user}/proj", dict)(user="joe"),
            "k3": ks.add_key("K3", "names", set),
            "k4": ks.add_key("K4", "list/{name}", list)(name="l-1"),
            "k5": ks.add_key("K5", "count", int)}
        self.bypath = {k.relpath: n for n, k in self.keys.items()}
        ks.finalize_init()

    # values ---------------------------------------------------------------
    def make(self, k, v):
        if v == "empty":
            return self.keys[k].type()
        n = int(v[1:])
        if k in ("k1", "k2"):
            # large enough now and then to take the other cache path
            pad = "y" * (110000 if n % 13 == 0 else 3)
            return {"v": v, "n": {"l": [n, {"deep": {v}}], "t": (v, n)}, "p": pad}
        if k == "k3":
            return {v, "common"}
        if k == "k4":
            return [v, {"a": [n]}, ("t", n)]
        return n + 2 ** 31 - 50

    def decode(self, k, val):
        """value id, or text describing an unexpected value"""
        if val is None:
            return "<none>"
        try:
            plain = _plain(val)
            if plain == self.keys[k].type():
                return "empty"
            if k in ("k1", "k2"):
                v = plain["v"]
            elif k == "k3":
                v = next(x for x in plain if x != "common")
            elif k == "k4":
                v = plain[0]
            else:
                v = "v%d" % (plain - 2 ** 31 + 50)
            if plain == self.make(k, v):
                return v
        except Exception as e:  # noqa
            return "corrupt:" + exc_name(e)[:80]
        return "corrupt:" + repr(plain)[:80]


def _plain(val):
    from collections.abc import Mapping, Set, Sequence
    if isinstance(val, (str, bytes, int, float, bool, type(None))):
        return val
    if isinstance(val, Mapping):
        return {k: _plain(v) for k, v in val.items()}
    if isinstance(val, Set):
        return {_plain(x) for x in val}
    if type(val).__name__.startswith("Tuple") or isinstance(val, tuple):
        return tuple(_plain(x) for x in val)
    if isinstance(val, Sequence) or hasattr(val, "__iter__"):
        return [_plain(x) for x in val]
    return val


def vandalize(val, depth=0):
    """Try to change everything reachable from a value that was handed out."""
    if depth > 5:
        return
    kids = []
    try:
        if hasattr(val, "items"):
            kids = list(val.values())
        elif hasattr(val, "__iter__") and not isinstance(val, (str, bytes)):
            kids = list(val)
    except Exception:
        pass
    for kid in kids:
        vandalize(kid, depth + 1)
    for attempt in (
            lambda: val.__setitem__("vandal", 1), lambda: val.pop("v"),
            lambda: val.add("vandal"), lambda: val.append("vandal"),
            lambda: val.update({"vandal"}), lambda: val.clear()):
        try:
            attempt()
        except Exception:
            pass


class Run:
    def __init__(self, store, rng, slots=3):
        self.store = store
        self.rng = rng
        self.slots = SLOTS[:slots]
        self.workers = {t: Worker(t) for t in self.slots}
        self.mode = dict.fromkeys(self.slots, "idle")
        self.base = dict.fromkeys(self.slots)
        self.listeners = {}
        self.events = []
        self.nval = 0
        self.waiting = None      # slot whose begin for writing is blocked
        self.wantrestart = False
        self.serial = -1         # as far as the driver knows
        self.fsizes = {}
        self.exists_somewhere = False

    @property
    def keyfs(self):
        return self.store.keyfs

    def log(self, ev, **kw):
        self.events.append(dict(ev=ev, **kw))

    def new_val(self):
        self.nval += 1
        return f"v{self.nval}"

    def old_or_new(self):
        r = self.rng.random()
        if r < 0.25 and self.nval:
            return f"v{self.rng.randint(1, self.nval)}"
        if r < 0.32:
            return "empty"
        return self.new_val()

    def on(self, t, f):
        """run f in the thread of slot t; ("ok", value) or ("exc", exception)"""
        return self.workers[t].call(f)

    def writer(self):
        for t in self.slots:
            if self.mode[t] == "write":
                return t

    def _watch(self, t):
        tx = self.keyfs.tx
        c = self.listeners[t] = {"succ": 0, "fin": 0}
        tx.on_commit_success(lambda: c.__setitem__("succ", c["succ"] + 1))
        tx.on_finished(lambda: c.__setitem__("fin", c["fin"] + 1))
        return tx.at_serial

    def _begin_done(self, t, kind, val, write, at, ev):
        if kind == "ok":
            self.mode[t] = "write" if write else "read"
            self.log(ev, t=t, write=write, at=at, at_serial=val, res="ok")
        else:
            self.mode[t] = "idle"
            self.log(ev, t=t, write=write, at=at, at_serial=-98, res=exc_name(val))
            raise Stop

    def begin(self, t, write, at=-2, via_restart=False):
        ev = "restart" if via_restart else "begin"

        def f():
            if via_restart:
                if write:
                    self.keyfs.restart_as_write_transaction()
                else:
                    self.keyfs.restart_read_transaction()
                    if self.keyfs.tx.write:
                        raise RuntimeError("became a writer")
                    # the old listeners may or may not have been dropped
                    return self._watch(t)
            else:
                self.keyfs.begin_transaction_in_thread(
                    write=write, at_serial=None if at == -2 else at)
            return self._watch(t)
        if write and self.writer() is not None:
            # has to wait until the other writer is done
            self.workers[t].start(f)
            self.mode[t] = "waiting"
            self.waiting = (t, at, ev)
            res = self.workers[t].result(0.04)
            if res is not None:
                self.waiting = None
                self._begin_done(t, *res, write, at, ev)
            return
        kind, val = self.on(t, f)
        self._begin_done(t, kind, val, write, at, ev)

    def writer_gone(self):
        """a writer ended: a blocked one must now get through"""
        if self.waiting is None:
            return
        t, at, ev = self.waiting
        res = self.workers[t].result(40)
        self.waiting = None
        if res is None:
            self.log(ev, t=t, write=True, at=at, at_serial=-98, res="blocked forever")
            raise Stop
        self._begin_done(t, *res, True, at, ev)

    # operations -----------------------------------------------------------
    def op_begin(self, t):
        r = self.rng.random()
        if r < 0.5 and self.waiting is None:
            if self.writer() is None or self.rng.random() < 0.3:
                self.begin(t, True)
                return
        at = -2
        if self.rng.random() < 0.35 and self.serial >= 0:
            at = self.rng.randint(0, self.serial)
        self.begin(t, False, at)

    def op_restart(self, t):
        if self.mode[t] != "read":
            return
        write = self.rng.random() < 0.5
        if write and (self.waiting is not None or (self.writer() is not None and self.rng.random() < 0.7)):
            write = False
        self.begin(t, write, via_restart=True)

    def op_get(self, t):
        k = self.rng.choice(KEYS)
        ro = self.rng.random() < 0.6
        spoil = self.rng.random() < 0.4
        key = self.store.keys[k]

        def f():
            if ro and self.rng.random() < 0.5:
                val = key.get()
            else:
                val = self.keyfs.tx.get(key, readonly=ro)
            res = self.store.decode(k, val)
            if spoil:
                vandalize(val)
            return res
        kind, val = self.on(t, f)
        self.log("get", t=t, k=k, val=val if kind == "ok" else exc_name(val))

    def op_exists(self, t):
        k = self.rng.choice(KEYS)
        kind, val = self.on(t, lambda: bool(self.store.keys[k].exists()))
        if kind != "ok":
            raise Failed(val)
        self.log("exists", t=t, k=k, val=val)

    def op_original(self, t):
        from devpi_server.markers import absent, deleted
        k = self.rng.choice(KEYS)

        def f():
            serial, val = self.keyfs.tx.get_original(self.store.keys[k])
            if val is absent:
                return serial, "<absent>"
            if val is deleted:
                return serial, "<deleted>"
            return serial, self.store.decode(k, val)
        kind, res = self.on(t, f)
        if kind != "ok":
            raise Failed(res)
        self.log("original", t=t, k=k, serial=res[0], val=res[1])

    def op_getat(self, t):
        if self.serial < 0:
            return
        k = self.rng.choice(KEYS)
        at = self.rng.randint(0, self.serial)
        key = self.store.keys[k]

        def f():
            try:
                serial, val = self.keyfs.tx.get_last_serial_and_value_at(key, at)
                val2 = self.keyfs.tx.get_value_at(key, at)
                val = self.store.decode(k, val)
                if val != self.store.decode(k, val2):
                    val = "differing reads"
            except KeyError:
                return -1, "KeyError"
            return serial, val
        kind, res = self.on(t, f)
        if kind != "ok":
            raise Failed(res)
        self.log("getat", t=t, k=k, at=at, serial=res[0], val=res[1])

    def op_lastserial(self, t):
        k = self.rng.choice(KEYS)
        kind, val = self.on(t, lambda: self.store.keys[k].last_serial)
        if kind != "ok":
            raise Failed(val)
        self.log("lastserial", t=t, k=k, serial=-1 if val is None else val)

    def op_back(self, t):
        k = self.rng.choice(KEYS)
        key = self.store.keys[k]

        def f():
            tx = self.keyfs.tx
            try:
                serial, _ = tx.get_original(key)
                if serial < 0:
                    return []
                return [dict(serial=s, val="<deleted>" if v is None else self.store.decode(k, v))
                        for s, v in tx.iter_serial_and_value_backwards(key.relpath, serial)]
            except KeyError:
                return []
        kind, res = self.on(t, f)
        if kind != "ok":
            raise Failed(res)
        self.log("back", t=t, k=k, chain=res)

    def _writeop(self, t, f):
        kind, val = self.on(t, f)
        if kind == "ok":
            return "ok"
        if type(val).__name__ == "ReadOnly":
            return "ReadOnly"
        return exc_name(val)

    def op_set(self, t):
        k = self.rng.choice(KEYS)
        v = self.old_or_new()
        key = self.store.keys[k]

        def f():
            val = self.store.make(k, v)
            if k in ("k1", "k2") and self.rng.random() < 0.3:
                with key.update() as cur:
                    cur.clear()
                    cur.update(val)
            else:
                key.set(val)
        self.log("set", t=t, k=k, val=v, res=self._writeop(t, f))

    def op_del(self, t):
        k = self.rng.choice(KEYS)
        self.log("del", t=t, k=k, res=self._writeop(t, lambda: self.store.keys[k].delete()))

    def content(self, v):
        n = int(v[1:])
        return (v.encode() + b":") * (1 + (n * 7919) % 97)

    def op_fset(self, t):
        if self.mode[t] != "write":
            return
        f = self.rng.choice(FILES)
        v = self.new_val() if self.rng.random() < 0.8 or not self.nval else f"v{self.rng.randint(1, self.nval)}"

        def g():
            c = self.content(v)
            if self.rng.random() < 0.5:
                from io import BytesIO
                c = BytesIO(c)
                if self.rng.random() < 0.5:
                    c.seek(1)
            self.keyfs.tx.conn.io_file_set(PATHS[f], c)
        self.log("fset", t=t, f=f, val=v, res=self._writeop(t, g))

    def op_fdel(self, t):
        if self.mode[t] != "write":
            return
        f = self.rng.choice(FILES)
        self.log("fdel", t=t, f=f, res=self._writeop(t, lambda: self.keyfs.tx.conn.io_file_delete(PATHS[f])))

    def op_fget(self, t):
        f = self.rng.choice(FILES)

        def g():
            conn = self.keyfs.tx.conn
            exists = bool(conn.io_file_exists(PATHS[f]))
            try:
                size = conn.io_file_size(PATHS[f])
            except OSError:
                size = None
            try:
                c = conn.io_file_get(PATHS[f])
                with conn.io_file_open(PATHS[f]) as fp:
                    c2 = fp.read()
            except OSError:
                return exists, size, None
            if c != c2:
                c = b"get and open differ"
            return exists, size, c
        kind, res = self.on(t, g)
        if kind != "ok":
            raise Failed(res)
        exists, size, c = res
        if c is None:
            v = "<nofile>"
        else:
            v = c.split(b":")[0].decode("ascii", "replace")
            if not v[1:].isdigit() or self.content(v) != bytes(c):
                v = "corrupt:" + repr(c[:40])
        vsize = str(len(c)) if c is not None else "none"
        self.log("fget", t=t, f=f, val=v, exists=exists, size="none" if size is None else str(size), vsize=vsize)

    def op_doom(self, t):
        kind, val = self.on(t, lambda: self.keyfs.tx.doom())
        if kind != "ok":
            raise Failed(val)
        self.log("doom", t=t)

    def op_commit(self, t):
        was = self.mode[t]

        def f():
            tx = self.keyfs.tx
            self.keyfs.commit_transaction_in_thread()
            return -99 if tx.commit_serial is None else tx.commit_serial
        kind, val = self.on(t, f)
        self.mode[t] = "idle"
        c = self.listeners[t]
        if kind == "ok" and val >= 0:
            self.serial = max(self.serial, val)
        self.log("commit", t=t, serial=val if kind == "ok" else -98, succ=c["succ"], fin=min(c["fin"], 1),
                 res="ok" if kind == "ok" else exc_name(val))
        if kind != "ok":
            raise Stop
        if was == "write":
            self.writer_gone()

    def op_rollback(self, t):
        was = self.mode[t]
        kind, val = self.on(t, lambda: self.keyfs.rollback_transaction_in_thread())
        self.mode[t] = "idle"
        c = self.listeners[t]
        self.log("rollback", t=t, succ=c["succ"], fin=min(c["fin"], 1),
                 res="ok" if kind == "ok" else exc_name(val))
        if kind != "ok":
            raise Stop
        if was == "write":
            self.writer_gone()

    def op_failed_commit(self, t):
        """the transaction contains a value which can not be stored"""
        if self.mode[t] != "write":
            return
        k = self.rng.choice(["k1", "k2"])
        bad = self.rng.choice(["unknown", "negative"])

        def f():
            val = {"v": object()} if bad == "unknown" else {"v": -2 ** 40}
            self.store.keys[k].set(val)
            if self.rng.random() < 0.5:
                tx = self.keyfs.tx
                self.keyfs.commit_transaction_in_thread()
                return tx.commit_serial
            # the way it is usually done
            self.keyfs.commit_transaction_in_thread()
        kind, val = self.on(t, f)
        self.mode[t] = "idle"
        # a storage could legitimately support such values one day
        if kind == "ok":
            raise Unusable
        self.log("failedcommit", t=t, res="fault", succ=self.listeners[t]["succ"])
        self.writer_gone()

    def op_serial(self, t):
        def f():
            with self.keyfs.get_connection() as conn:
                return conn.last_changelog_serial
        kind, val = self.on(t, f)
        if kind != "ok":
            raise Failed(val)
        self.log("serial", serial=val)

    def op_changes(self, t):
        if self.serial < 0:
            return
        s = self.rng.randint(0, self.serial)

        def f():
            from devpi_server.fileutil import loads
            with self.keyfs.get_connection() as conn:
                if self.rng.random() < 0.4:
                    changes = loads(conn.get_raw_changelog_entry(s))[0]
                else:
                    changes = conn.get_changes(s)
            res = {}
            for relpath, (keyname, back, val) in changes.items():
                k = self.store.bypath.get(relpath, relpath)
                if k in self.store.keys and self.store.keys[k].name != keyname:
                    k = f"{k}:{keyname}"
                res[k] = dict(back=back, val="<deleted>" if val is None else self.store.decode(k, val))
            return res
        kind, val = self.on(t, f)
        if kind != "ok":
            raise Failed(val)
        self.log("changes", serial=s, changes=val)

    def op_reopen(self, t):
        if self.waiting or self.writer():
            return
        for u in self.slots:
            if self.mode[u] != "idle":
                self.on(u, lambda: self.keyfs.rollback_transaction_in_thread())
                self.mode[u] = "idle"
        try:
            self.store.open()
            self.log("reopen", res="ok")
        except Exception as e:  # noqa
            self.log("reopen", res=exc_name(e))
            raise Stop

    WEIGHTS = dict(get=16, exists=4, original=3, getat=6, lastserial=2, back=3, set=12, **{"del": 4},
                   fset=6, fdel=3, fget=8, doom=1, commit=9, rollback=3, failed_commit=1, serial=2, changes=4,
                   restart=4)

    def step(self):
        t = self.rng.choice(self.slots)
        if self.mode[t] == "waiting":
            return
        if self.mode[t] == "idle":
            if self.rng.random() < 0.03:
                self.op_reopen(t)
            else:
                self.op_begin(t)
            return
        names = list(self.WEIGHTS)
        op = self.rng.choices(names, [self.WEIGHTS[n] for n in names])[0]
        if self.mode[t] == "read" and op in ("set", "del") and self.rng.random() < 0.8:
            op = "get"
        getattr(self, "op_" + op)(t)

    def finish(self):
        """end all transactions and look at the complete state"""
        for t in self.slots:
            if self.mode[t] == "write":
                self.op_commit(t) if self.rng.random() < .5 else self.op_rollback(t)
        for t in self.slots:
            if self.mode[t] in ("read", "write"):
                self.op_rollback(t)
        t = self.slots[0]
        self.op_serial(t)
        self.begin(t, False)
        for k in KEYS:
            kind, val = self.on(t, lambda: self.store.decode(k, self.keyfs.tx.get(self.store.keys[k])))
            self.log("get", t=t, k=k, val=val if kind == "ok" else exc_name(val))
        for _ in range(6):
            self.op_fget(t)
            self.op_getat(t)
            self.op_changes(t)
        self.op_rollback(t)


class Stop(Exception):
    """the trace ends here (the last event tells why)"""


class Unusable(Exception):
    pass


class Failed(Exception):
    def __init__(self, exc):
        self.exc = exc
        super().__init__(exc_name(exc))


def run_random(shard, scratch):
    """shard: dict(seed, traces, steps, backend, slots)"""
    pg = None
    if shard["backend"] == "pg":
        import pgserver
        pg = pgserver.PGServer(scratch)
        if not pg.available:
            return {"traces": [], "counts": {"pg_unavailable": 1}}
    out = []
    try:
        for i in range(shard["traces"]):
            rng = random.Random(f"{shard['seed']}-{shard['backend']}-{i}")
            cache = rng.choice([1, 2, 20, 60, 10000])
            base = os.path.join(scratch, f"db{i}")
            os.makedirs(base)
            store = Store(base, shard["backend"], cache, pg)
            run = Run(store, rng, slots=rng.choice([2, 3, 3, 4]))
            try:
                for _ in range(shard["steps"]):
                    run.step()
                run.finish()
            except Stop:
                pass
            except Failed as e:
                run.log("unexpected", res=str(e))
            except TimeoutError as e:
                run.log("unexpected", res="hangs: " + str(e))
            except Unusable:
                pass
            for w in run.workers.values():
                w.stop()
            out.append(dict(events=run.events, meta=dict(backend=shard["backend"], cache=cache, seed=shard["seed"], n=i)))
    finally:
        if pg is not None:
            pg.stop()
    return {"traces": out, "counts": {"operations": sum(len(t["events"]) for t in out)}}


def run_threads(shard, scratch):
    """Free running threads doing read-modify-write transactions and reads;
    the recorded transactions are validated in the order of their serials."""
    pg = None
    if shard["backend"] == "pg":
        import pgserver
        pg = pgserver.PGServer(scratch)
        if not pg.available:
            return {"traces": [], "counts": {"pg_unavailable": 1}}
    out = []
    try:
        for i in range(shard["traces"]):
            base = os.path.join(scratch, f"th{i}")
            os.makedirs(base)
            rng0 = random.Random(f"th-{shard['seed']}-{i}")
            store = Store(base, shard["backend"], rng0.choice([2, 10000]), pg)
            keyfs = store.keyfs
            lock = threading.Lock()
            state = dict(lb=-1, n=0)
            recs, errors = [], []

            def work(tid, rng):
                for _ in range(shard["steps"]):
                    with lock:
                        lb = state["lb"]
                    ks = rng.sample(KEYS, 2)
                    try:
                        if rng.random() < 0.6:
                            with lock:
                                state["n"] += 1
                                v = f"v{state['n']}"
                            mode = rng.random()
                            reads = {}

                            def body():
                                tx = keyfs.tx
                                for k in ks:
                                    reads[k] = store.decode(k, tx.get(store.keys[k]))
                                if rng.random() < 0.3:
                                    time.sleep(0.002)
                                store.keys[ks[0]].set(store.make(ks[0], v))
                                return tx
                            if mode < 0.7:
                                with keyfs.write_transaction():
                                    tx = body()
                                    at = tx.at_serial
                            else:
                                with keyfs.read_transaction():
                                    keyfs.tx.get(store.keys[ks[0]])
                                    with keyfs.write_transaction(allow_restart=True):
                                        tx = body()
                                        at = tx.at_serial
                                tx = tx
                            s = tx.commit_serial
                            with lock:
                                state["lb"] = max(state["lb"], s)
                                recs.append((s, 0, dict(ev="atomicwrite", at_serial=at, serial=s, lb=lb,
                                                        reads=dict(reads), writes={ks[0]: v})))
                        else:
                            with keyfs.read_transaction() as tx:
                                at = tx.at_serial
                                reads = {}
                                for k in ks:
                                    reads[k] = store.decode(k, tx.get(store.keys[k]))
                                    if rng.random() < 0.3:
                                        time.sleep(0.001)
                            with lock:
                                recs.append((at, 1, dict(ev="atomicread", at_serial=at, lb=lb, reads=reads)))
                    except BaseException as e:  # noqa
                        with lock:
                            errors.append(exc_name(e))
                        return
            threads = [threading.Thread(target=work, args=(t, random.Random(f"{shard['seed']}-{i}-{t}")))
                       for t in range(shard["threads"])]
            for t in threads:
                t.start()
            for t in threads:
                t.join(120)
            recs.sort(key=lambda x: (x[0], x[1]))
            events = [r[2] for r in recs]
            for e in errors:
                events.append(dict(ev="unexpected", res=e))
            if any(t.is_alive() for t in threads):
                events.append(dict(ev="unexpected", res="threads hang"))
            with keyfs.get_connection() as conn:
                events.append(dict(ev="serial", serial=conn.last_changelog_serial))
            out.append(dict(events=events, meta=dict(backend=shard["backend"], threads=shard["threads"], seed=shard["seed"], n=i)))
    finally:
        if pg is not None:
            pg.stop()
    return {"traces": out, "counts": {"operations": sum(len(t["events"]) for t in out)}}
