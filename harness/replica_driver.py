"""A primary and a replica in one process, connected by stand-ins for the
network which can fail; everything the replica takes over is recorded for
ReplicaTrace.tla."""
import hashlib
import io
import json
import os
import random
import threading
import time

import common
import devpi_app
import stage_driver
from devpi_app import Server, Upstream, UpstreamResponse

URL = "http://localhost"


class Exited(BaseException):
    """instead of os._exit"""


class ConnError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


class Resp:
    """the parts of requests.Response which are used"""

    def __init__(self, url, code, body, headers, hook=None, broken=None):
        from requests.structures import CaseInsensitiveDict
        self.url, self.status_code, self.reason = url, code, "reason"
        self.headers = CaseInsensitiveDict(headers)
        self.body, self.hook, self.broken = body, hook, broken
        self.raw = self
        self.next = None
        self.closed = False
        self.pos = 0

    def _chunk(self, n):
        if self.hook is not None:
            h, self.hook = self.hook, None
            h()
        if self.broken is not None and self.pos >= self.broken:
            import requests
            raise requests.exceptions.ConnectionError("connection lost")
        end = len(self.body) if not n or n < 0 else self.pos + n
        if self.broken is not None:
            end = min(end, self.broken)
        d = self.body[self.pos:end]
        self.pos += len(d)
        return d

    def read(self, n=None):
        return self._chunk(n)

    def iter_content(self, chunk_size=None, **kw):
        size = chunk_size or 37     # arbitrary borders
        while 1:
            d = self._chunk(size)
            if not d:
                return
            yield d

    stream = iter_content

    @property
    def content(self):
        return b"".join(self.iter_content())

    def close(self):
        self.closed = True


class Session:
    def __init__(self, world):
        self.world = world
        from requests.exceptions import RequestException
        self.Errors = (RequestException,)

    def get(self, url, headers=None, stream=False, **kw):
        return self.world.network("GET", str(url), dict(headers or {}), b"")

    def request(self, method, url, data=b"", headers=None, **kw):
        if hasattr(data, "read"):
            data = data.read()
        return self.world.network(method, str(url), dict(headers or {}), data, proxy=True)

    def close(self):
        pass


class Thread:
    """in place of the thread an object is run by"""

    def __init__(self):
        self.stopped = False

    def sleep(self, secs):
        pass

    def exit_if_shutdown(self):
        if self.stopped:
            from devpi_server.mythread import Shutdown
            raise Shutdown()

    def is_alive(self):
        return True


class Primary(stage_driver.Driver):
    """random requests; content of a file depends on its path"""
    quiet = False

    def op_toxup(self, e):
        e["c"] = "tox " + e["base"] + e["file"]
        return super().op_toxup(e)

    def observe(self, touched=(), full=False, x=None, downs=8):
        obs = []
        self.obs_users(obs)
        xs = list(self.cfg)
        if full:
            touched = [(y, p) for y in xs for p in self.projects]
        for y, p in touched:
            if self.cfg.get(y, {}).get("type") == "stage":
                self.obs_own(obs, y, p)
        return []


class World:
    def __init__(self, rng, path, seed, streaming=True, servers=("P",), mirror=False, backend="sqlite", rbackend="sqlite"):
        from devpi_server import replica
        self.rng, self.path = rng, path
        os.makedirs(path)
        self.secret = os.path.join(path, "secret")
        with open(self.secret, "w") as f:
            f.write("".join(chr(33 + (i * 37) % 90) for i in range(64)))
        os.chmod(self.secret, 0o600)
        os.chmod(path, 0o700)
        self.events = [dict(ev="start", servers=list(servers))]
        self.counts = {}
        self.up = stage_driver.upstream() if mirror else {}
        self.primaries = {}
        self.apps = {}
        for s in servers:
            net = Upstream()
            net.handler = self.external
            srv = Server(os.path.join(path, s), ["--role", "primary", "--secretfile", self.secret], backend, httpget=net)
            d = Primary(rng, None, server=srv, up=self.up, users=["root", "u1"], names=["a", "b"],
                        projects=["pkg", "other"], versions=["1.0", "2.0"])
            d.mirror_share = 0
            self.primaries[s] = d
            self.apps[s] = srv.app
            self.patch_wait(srv)
        self.seen = {s: 0 for s in servers}
        self.target = servers[0]
        self.uuids = {d.server.xom.config.nodeinfo["uuid"]: s for s, d in self.primaries.items()}
        self.fault = ""          # of the next exchange
        self.nested = None       # called while a body is received
        self.replayed = {}
        self.opts = ["--primary-url", URL, "--secretfile", self.secret, "--file-replication-threads", "2"]
        if not streaming:
            self.opts.append("--no-replica-streaming")
        self.rbackend = rbackend
        self.paths = {}          # every file path in any history
        self.disk = {}
        self.rserial = -1
        self.external_paths = set()
        self.side = common.Worker("side")
        self.replica_module = replica
        self.replica = None
        self.local = threading.local()
        self.last_src = self.target
        self.open_replica()
        self.setup(mirror)

    def patch_wait(self, srv):
        keyfs = srv.xom.keyfs
        orig = keyfs.wait_tx_serial
        keyfs.wait_tx_serial = lambda serial, timeout=None, **kw: orig(serial, timeout=min(timeout or 0.005, 0.005), **kw)

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def external(self, url, headers):
        """what exists outside"""
        for base, projects in self.up.items():
            root = base.replace("/simple/", "/files/")
            for fs in projects.values():
                for f in fs:
                    if url == root + f["name"]:
                        return UpstreamResponse(url, 200, stage_driver.text(f["c"]), {"content-type": "application/x"})
        return stage_driver.Simple(self.up)(url, headers) if self.up else UpstreamResponse(url, 404, b"", {})

    def setup(self, mirror):
        for s, d in self.primaries.items():
            d.do("mkuser", u="u1", valid=True, cfg={}, haspw=True, **{"as": "root"})
            for x in ("u1/a", "u1/b", "root/a"):
                d.do("mkix", x=x, u=x.split("/")[0], valid=True, type="stage", cfg={"volatile": "true"}, **{"as": "root"})
            if mirror:
                d.do("mkix", x="root/m", u="root", valid=True, type="mirror",
                     cfg={"mirror_url": list(self.up)[0], "mirror_cache_expiry": "100000"}, **{"as": "root"})
        self.commits()

    # -- replica

    def open_replica(self):
        net = Upstream()
        net.handler = lambda url, headers: self.network("GET", url, headers, b"") if url.startswith(URL + "/") else \
            (self.note_external(url) or self.external(url, headers))

        def guarded(url, allow_redirects=True, extra_headers=None, timeout=None, **kw):
            import requests
            try:
                return net.handler(str(url), dict(extra_headers or {}))
            except requests.exceptions.RequestException:
                return UpstreamResponse(str(url), -1, b"", {})
        guarded.async_httpget = net.async_httpget
        self.replica = Server(os.path.join(self.path, "R"), self.opts, self.rbackend, httpget=guarded)
        xom = self.replica.xom
        rt = xom.replica_thread
        rt.session = Session(self)
        rt.thread = Thread()
        from devpi_server.log import threadlog
        rt.log = threadlog
        rt.started_at = time.time()
        self.frts = rt.file_replication_threads
        for t in self.frts:
            t.session = Session(self)
            t.thread = Thread()
        xom.__dict__["_httpsession"] = Session(self)
        sd = rt.shared_data
        sd.QUEUE_TIMEOUT = 0.001
        sd.ERROR_QUEUE_MAX_DELAY = -1
        rt.initial_queue_thread.thread = Thread()
        self.iq = threading.Thread(target=self.run_iq, args=(rt.initial_queue_thread,), daemon=True)
        self.iq_error = ""
        self.iq.start()
        self.rt, self.sd = rt, sd

    def run_iq(self, t):
        try:
            t.thread_run()
        except BaseException as e:  # noqa: BLE001
            if type(e).__name__ != "Shutdown" and not t.thread.stopped:
                self.iq_error = common.exc_name(e)

    def close_replica(self):
        xom = self.replica.xom
        for o in [self.rt, *self.frts, self.rt.initial_queue_thread]:
            o.thread.stopped = True
        with self.sd._replica_in_sync_cv:
            self.sd._replica_in_sync_cv.notify_all()
        while self.iq.is_alive():
            # it may be waiting for the queue to become empty
            with self.sd.queue.mutex:
                self.sd.queue.unfinished_tasks = 0
                self.sd.queue.all_tasks_done.notify_all()
            self.iq.join(0.02)
        self.replica.close()
        xom.keyfs.release_all_wait_tx()

    def note_external(self, url):
        """fetched from somewhere else"""

    # -- network

    def network(self, method, url, headers, body, proxy=False):
        import requests
        fault, self.fault = self.fault, ""
        if proxy:
            self.reached = True
        hook, self.nested = self.nested, None
        if threading.current_thread() is not self.side.thread or proxy:
            self.used_fault = fault
        self.last_src = self.target
        path = url[len(URL):] or "/"
        if fault:
            self.faulty = path.strip("/")
        if hook is not None:
            self.transferred = path.strip("/")
        if fault in ("conn", "refused"):
            raise requests.exceptions.ConnectionError("refused")
        if proxy:
            self.executed += 1
        app = self.apps[self.target]
        h = {k: v for k, v in headers.items() if k.lower() not in ("host", "content-length") and v is not None}
        from webtest import TestApp
        try:
            r = TestApp(app.app).request(path, method=method, headers={str(k): str(v) for k, v in h.items()}, body=body,
                                         expect_errors=True)
            code, data, rh = r.status_code, r.body, dict(r.headers)
        except Exception as e:  # noqa: BLE001
            code, data, rh = 500, common.exc_name(e).encode(), {}
        key = (self.target, path.split("?")[0].rstrip("0123456789-"))
        if code == 200 and method == "GET" and fault != "replay":
            old = self.replayed.get(key)
            self.replayed.setdefault(key, []).append((data, rh))
        if fault == "replay" and self.replayed.get(key):
            data, rh = self.rng.choice(self.replayed[key])
            code = 200
        broken = None
        if fault == "lost":
            raise requests.exceptions.ConnectionError("answer lost")
        if fault in ("500", "502", "404", "403"):
            code, data = int(fault), b"failed"
        elif fault == "redirect":
            code, rh = 302, dict(rh, Location="http://elsewhere/")
        elif fault == "truncate":
            data = data[:self.rng.randrange(len(data))] if data else data
        elif fault == "cut":
            broken = self.rng.randrange(len(data)) if data else 0
        elif fault == "corrupt":
            if data:
                i = self.rng.randrange(len(data))
                data = data[:i] + bytes([data[i] ^ 0x20]) + data[i + 1:]
        elif fault == "length":
            rh["Content-Length"] = str(len(data) + 5)
        elif fault == "html":
            data, rh = b"<html>maintenance</html>", dict(rh)
            rh["Content-Type"] = "text/html"
            rh.pop("X-DEVPI-SERIAL", None)
        elif fault == "noserial":
            rh.pop("X-DEVPI-SERIAL", None)
        elif fault == "uuid_other":
            rh["X-DEVPI-PRIMARY-UUID"] = rh["X-DEVPI-MASTER-UUID"] = "f" * 32
        elif fault == "uuid_none":
            rh.pop("X-DEVPI-PRIMARY-UUID", None)
            rh.pop("X-DEVPI-MASTER-UUID", None)
        elif fault == "uuid_differ":
            rh["X-DEVPI-MASTER-UUID"] = "e" * 32
        if proxy:
            self.answer = (code, data, rh)
        return Resp(url, code, data, rh, hook=hook, broken=broken)

    # -- observation

    def changes(self, keyfs, start):
        """digests and file changes of the serials from start on"""
        res = []
        with keyfs.get_connection() as conn:
            last = conn.last_changelog_serial
            for serial in range(start, last + 1):
                ch = conn.get_changes(serial)
                files = {}
                norm = []
                for relpath in sorted(ch):
                    keyname, back, val = ch[relpath]
                    norm.append((relpath, keyname, back, self.norm(val)))
                    if keyname in ("STAGEFILE", "PYPIFILE_NOMD5"):
                        files[relpath] = self.file_content(val)
                d = sha(repr(norm).encode())[:12]
                res.append(dict(d=d, f=files))
        return res

    def norm(self, v):
        from collections.abc import Mapping, Sequence, Set
        if isinstance(v, Mapping):
            return ("d", sorted((repr(self.norm(k)), self.norm(x)) for k, x in v.items()))
        if isinstance(v, (str, bytes)):
            return v
        if isinstance(v, Set):
            return ("s", sorted(repr(self.norm(x)) for x in v))
        if isinstance(v, Sequence):
            return (type(v).__name__[:1], [self.norm(x) for x in v])
        return repr(v)

    def file_content(self, val):
        if val is None or val.get("last_modified") is None:
            return ""
        h = val.get("hashes", {}).get("sha256")
        if not h:
            hs = val.get("hash_spec") or ""
            h = hs.partition("sha256=")[2]
        return h[:10] if h else "unknown"

    def commits(self):
        for s, d in self.primaries.items():
            keyfs = d.server.xom.keyfs
            for c in self.changes(keyfs, self.seen[s]):
                self.events.append(dict(ev="commit", s=s, serial=self.seen[s], **c))
                self.seen[s] += 1
                for p in c["f"]:
                    self.paths[p] = s

    def replica_files(self):
        """path -> content of what is on the replica's disk"""
        keyfs = self.replica.xom.keyfs
        res = {}
        if self.rbackend == "sqlite":
            base = os.path.join(self.replica.path, "+files")
            for dp, _, fns in os.walk(base):
                for fn in fns:
                    full = os.path.join(dp, fn)
                    if fn.endswith("-tmp"):
                        continue
                    with open(full, "rb") as f:
                        res[os.path.relpath(full, base)] = sha(f.read())[:10]
            return res
        with keyfs.get_connection() as conn:
            for p in self.paths:
                if conn.io_file_exists(p if not hasattr(self, "storepath") else p):
                    res[p] = sha(conn.io_file_get(p))[:10]
        return res

    def observe(self, damaged=()):
        """events for whatever happened"""
        # the primary's commits first: the replica can only have these
        keyfs = self.replica.xom.keyfs
        new = self.changes(keyfs, self.rserial + 1)
        self.commits()
        self.rserial += len(new)
        disk = self.replica_files()
        stored = {p: c for p, c in disk.items() if self.disk.get(p) != c}
        removed = [p for p in self.disk if p not in disk]
        self.disk = disk
        uuid = self.replica.xom.config.nodeinfo.get("primary-uuid", "")
        serial = keyfs.get_current_serial()
        src = self.last_src
        if new or stored or removed or damaged or uuid or serial != self.rserial:
            self.events.append(dict(
                ev="replica", src=src, serial=serial, new=new, stored=stored, removed=removed, damaged=list(damaged),
                pinned=self.uuids.get(uuid, "other " + uuid) if uuid else ""))

    # -- steps

    def exited(self, f):
        """run one step of the replica; a process which gave up is started again"""
        orig = os._exit

        def fake(code):
            raise Exited()
        os._exit = fake
        try:
            f()
        except Exited:
            self.count("gave up")
            os._exit = orig
            return True
        finally:
            os._exit = orig
        return False

    def s_tick(self, fault=None):
        self.fault = self.pick_fault(TICKFAULTS) if fault is None else fault
        if self.fault == "uuid_other" and not self.replica.xom.config.nodeinfo.get("primary-uuid"):
            self.fault = ""
        self.count("fetch " + (self.fault or "ok"))
        gone = self.exited(self.rt.tick)
        self.fault = ""
        self.observe()
        if gone:
            self.s_restart()

    def pick_fault(self, faults, p=0.4):
        return self.rng.choice(faults) if self.rng.random() < p else ""

    def s_file(self, fault=None, nested=True):
        """one task of one of the file replication threads"""
        rng = self.rng
        self.fault = self.pick_fault(FILEFAULTS) if fault is None else fault
        self.used_fault = ""
        if nested and rng.random() < 0.35:
            self.nested = self.make_nested()
        t = rng.choice(self.frts)
        self.faulty = ""
        t.tick()
        self.fault, self.nested = "", None
        self.count("file " + (self.used_fault or "ok"))
        # complete but with another checksum: given up on, is shown among the
        # errors (until a task of an older change of the same file)
        damaged = [self.faulty] if self.used_fault == "corrupt" and self.faulty in self.rt.shared_data.errors.errors else []
        self.observe(damaged)

    def queued(self):
        with self.sd.queue.mutex:
            a = {i[2] for i in self.sd.queue.queue}
        with self.sd.error_queue.mutex:
            return a | {i[4] for i in self.sd.error_queue.queue}

    def make_nested(self, p=None):
        """other things happen while something is transferred"""
        todo = [self.rng.choice(["op", "op", "tick", "file"]) for _ in range(self.rng.randrange(1, 4))]
        if self.rng.random() < 0.4:
            # the file is removed meanwhile
            todo = ["remove", "tick", "files"]
            if self.rng.random() < 0.3:
                todo.remove("files")

        def run():
            for t in todo:
                if t == "remove":
                    path = p or self.transferred
                    d = self.primaries[self.target]
                    for k in sorted(d.paths):
                        if k[0] == path and d.is_current(k):
                            i = d.paths[k]
                            d.do("delfile", touched=[(i["x"], i["p"])], path=path, x=i["x"], u="", p=i["p"], v=i["v"], kind=i["kind"],
                                 file=i["name"], c=i["c"], force=True, **{"as": "root"})
                            self.count("removed during transfer")
                            break
                elif t == "files":
                    for _ in range(20):
                        self.frts[0].tick()
                elif t == "op":
                    self.primary_op()
                elif t == "tick":
                    self.rt.tick()
                else:
                    self.frts[0].tick()
            # whatever is seen now belongs to this step

        def hook():
            if threading.current_thread() is self.side.thread:
                return
            self.count("during transfer")
            k, v = self.side.call(run)
            if k == "exc":
                raise v
        return hook

    def primary_op(self, s=None):
        d = self.primaries[s or self.rng.choice(sorted(self.primaries))]
        rng = self.rng
        if self.up and rng.random() < 0.25:
            fs = [f for ps in list(self.up.values())[:1] for p in ps.values() for f in p]
            f = rng.choice(fs)
            self.get_mirror(d, f)
            return
        readd = [k for k in sorted(d.paths) if k[3] == "file" and not d.is_current(k)]
        if readd and rng.random() < 0.25:
            k = rng.choice(readd)
            i = d.paths[k]
            d.do("upload", touched=[(i["x"], i["p"])], x=i["x"], u="", name=i["p"], ver=i["v"], file=i["name"], c=i["c"],
                 meta={}, valid=True, **{"as": "root"})
            return
        gens = list(WEIGHTS)
        getattr(d, "g_" + rng.choices(gens, [WEIGHTS[g] for g in gens])[0])()

    def get_mirror(self, d, f):
        name = f["name"].split("-")[0]
        r, s = d.get(f"/root/m/+simple/{name}/", accept=stage_driver.SIMPLE)
        if s == 200:
            for l in r.json["files"]:
                if l["filename"] == f["name"]:
                    from urllib.parse import urljoin
                    url = urljoin(f"{URL}/root/m/+simple/{name}/", l["url"])
                    d.get(url[len(URL):].partition("#")[0], accept="*/*")

    def s_op(self):
        for _ in range(self.rng.randrange(1, 4)):
            self.primary_op()
        self.commits()

    def s_restart(self):
        self.close_replica()
        self.open_replica()
        self.observe()
        self.events.append(dict(ev="restart", serial=self.replica.xom.keyfs.get_current_serial()))
        self.count("restart")

    def s_get(self, p=None, fault=None, nested=True):
        """a file is requested from the replica"""
        rng = self.rng
        if not self.paths:
            return
        if p is None:
            p = rng.choice(sorted(self.paths))
            missing = [q for q in sorted(self.paths) if q not in self.disk]
            if missing and rng.random() < 0.6:
                p = rng.choice(missing)
        self.fault = self.pick_fault(GETFAULTS) if fault is None else fault
        if nested and rng.random() < 0.3:
            self.nested = self.make_nested(p)
        self.used_fault = ""
        partial = False
        error = ""
        try:
            r = self.replica.req("GET", "/" + p, accept="*/*")
        except Exception as e:  # noqa: BLE001
            got, partial = "failed", True    # connection closed while sending
            error = common.exc_name(e)
        else:
            got = {200: sha(r.body)[:10], 404: "gone", 410: "gone", 302: "redirect"}.get(r.status_code, "failed")
        used = self.used_fault
        self.fault, self.nested = "", None
        self.count("get " + (used or "ok"))
        # the state at the beginning of the request is what counts: nothing
        # else happens unless it was nested
        self.commits()
        ev = dict(ev="get", p=p, got=got, partial=partial, fault=bool(used), error=error)
        self.events.append(ev)
        self.observe()

    def s_switch(self):
        if len(self.primaries) > 1:
            self.target = self.rng.choice(sorted(self.primaries))
            self.count("switched server")

    # -- writing through the replica

    def s_write(self):
        rng = self.rng
        s = self.target
        d = self.primaries[s]
        self.s_tick("")
        # the request is made by the primary's driver but sent to the replica
        real = d.server
        box = {}
        world = self

        class Via:
            tokens = real.tokens
            xom = real.xom
            login = staticmethod(real.login)

            def req(self, method, url, **kw):
                if method == "GET" or box:
                    return real.req(method, url, **kw)
                box["r"] = world.send_write(method, url, kw)
                return box["r"]
        d.server = Via()
        try:
            gens = [g for g in WEIGHTS if g not in ("mkuser",)]
            getattr(d, "g_" + rng.choices(gens, [WEIGHTS[g] for g in gens])[0])()
        finally:
            d.server = real
        self.commits()

    def send_write(self, method, url, kw):
        rng = self.rng
        replica = self.replica
        self.fault = fault = self.pick_fault(["refused", "lost", "500", "502"], 0.35)
        self.executed = 0
        self.answer = None
        self.reached = False
        res = {}
        keyfs = replica.xom.keyfs

        def run():
            try:
                return replica.req(method, url, **kw)
            finally:
                res["at"] = keyfs.get_current_serial()
        self.side.start(run)
        got = self.side.result(rng.choice([0.02, 0.1]))
        while got is None and not self.reached:
            got = self.side.result(0.02)
        self.fault = ""
        local = keyfs.get_current_serial()
        self.commits()
        fault = {"500": "error", "502": "error"}.get(fault, fault)
        self.events.append(dict(ev="note", what=f"{method} {url} {fault}"))
        waited = got is None
        for _ in range(200):
            if got is not None:
                break
            self.exited(self.rt.tick)
            got = self.side.result(0.02)
        self.count("write " + (fault or "ok") + (" waited" if waited else ""))
        if got is None:
            status, body = 0, b""
        elif got[0] == "exc":
            status, body = 599, common.exc_name(got[1]).encode()
        else:
            status, body = got[1].status_code, got[1].body
        answer = self.answer
        self.events.append(dict(
            ev="write", fault=fault, executed=self.executed, status=status, pstatus=answer[0] if answer else 0,
            samebody=bool(answer) and body == answer[1], committed=int(answer[2].get("X-DEVPI-SERIAL", -1)) if answer else -1,
            at=res.get("at", -1), local=local))
        self.observe()
        if got is None:
            raise RuntimeError("the replica never answered")
        if got[0] == "exc":
            raise got[1]
        return got[1]

    def s_same(self):
        """reading from both at the same serial"""
        s = self.target
        d = self.primaries[s]
        self.observe()
        if self.replica.xom.config.nodeinfo.get("primary-uuid") != d.server.xom.config.nodeinfo["uuid"]:
            return
        if d.server.xom.keyfs.get_current_serial() != self.replica.xom.keyfs.get_current_serial():
            return
        if self.up:
            return
        xs = [x for x, c in d.cfg.items() if c.get("type") == "stage"]
        urls = [("/", stage_driver.JSON)]
        for x in xs:
            urls += [(f"/{x}", stage_driver.JSON), (f"/{x}/+simple/", stage_driver.SIMPLE)]
            for p in d.projects:
                urls += [(f"/{x}/{p}", stage_driver.JSON), (f"/{x}/+simple/{p}/", stage_driver.SIMPLE)]
        for url, accept in self.rng.sample(urls, min(4, len(urls))):
            a = d.server.req("GET", url, accept=accept)
            b = self.replica.req("GET", url, accept=accept)
            self.events.append(dict(ev="same", url=url, serial=int(b.headers["X-DEVPI-SERIAL"]),
                                    primary=f"{a.status_code} {sha(a.body)}", replica=f"{b.status_code} {sha(b.body)}"))
        self.count("compared answers")

    # -- requests for changes

    def s_changelog(self):
        from devpi_server.replica import get_auth_serializer
        import itsdangerous
        rng = self.rng
        s = rng.choice([*self.primaries, "R"])
        d = self.primaries[self.target]
        srv = self.replica if s == "R" else self.primaries[s].server
        role = "replica" if s == "R" else "primary"
        own = srv.xom.config.nodeinfo["uuid"]
        ruuid = self.replica.xom.config.nodeinfo["uuid"]
        expected = rng.choice(["missing", "empty", "same", "same", "other"])
        h = {}
        val = dict(empty="", same=own, other=rng.choice(["a" * 32, own[:-1], own.upper() + "x"])).get(expected)
        if val is not None:
            kind = rng.random()
            if kind < 0.6:
                h["X-DEVPI-EXPECTED-PRIMARY-ID"] = val
            elif kind < 0.8:
                h["X-DEVPI-EXPECTED-MASTER-ID"] = val
            else:
                h["X-DEVPI-EXPECTED-PRIMARY-ID"] = val
                h["X-DEVPI-EXPECTED-MASTER-ID"] = rng.choice([val, own])
        cred = rng.choice(["none", "token", "token", "expired", "foreign", "mismatch", "garbage", "user", "usertoken", "altered"])
        ser = get_auth_serializer(self.replica.xom.config)
        if cred != "none":
            h["X-DEVPI-REPLICA-UUID"] = ruuid
        if cred == "token":
            t = ser.dumps(ruuid)
        elif cred == "expired":
            class Old(itsdangerous.TimestampSigner):
                def get_timestamp(self):
                    return int(time.time()) - rng.choice([60, 3600, 10**6])
            t = itsdangerous.TimedSerializer(self.replica.xom.config.get_replica_secret(), signer=Old).dumps(ruuid)
        elif cred == "foreign":
            t = itsdangerous.TimedSerializer(b"other secret").dumps(ruuid)
        elif cred == "mismatch":
            t = ser.dumps("b" * 32)
        elif cred == "garbage":
            t = rng.choice(["x", "..", "null.x.y", ""])
        elif cred == "altered":
            t = ser.dumps(ruuid)
            t = t.replace(ruuid[:4], "zzzz", 1)
        if cred in ("token", "expired", "foreign", "mismatch", "garbage", "altered"):
            h["Authorization"] = "Bearer " + t
        elif cred == "usertoken":
            h.pop("X-DEVPI-REPLICA-UUID")
            h["X-Devpi-Auth"] = devpi_app.b64("root", d.tokens["root"] if s == "R" else self.primaries[s].tokens["root"])
        elif cred == "user":
            h.pop("X-DEVPI-REPLICA-UUID")
            import base64
            tok = self.primaries[s if s != "R" else self.target].tokens["root"]
            h["Authorization"] = "Basic " + base64.b64encode(f"root:{tok}".encode()).decode()
        last = srv.xom.keyfs.get_current_serial()
        wants = rng.choice([rng.randrange(last + 1) if last >= 0 else 0] * 3 + [last + 1, last + 2, last + 10])
        form = rng.choice(["single", "multi", "streaming"])
        if form == "streaming":
            h["Accept"] = "application/x-devpi-replica-changes, application/octet-stream; q=0.9"
        url = f"/+changelog/{wants}" + ("" if form == "single" else "-")
        if s == "R":
            # it must not wait for changes
            keyfs = srv.xom.keyfs
            wait = keyfs.wait_tx_serial
            keyfs.wait_tx_serial = lambda serial, timeout=None, **kw: wait(serial, timeout=0.005)
        try:
            r = srv.req("GET", url, headers=h)
        finally:
            if s == "R":
                del keyfs.wait_tx_serial
        body = False
        if r.status_code == 200:
            body = self.body_ok(srv, r.body, wants, last, form)
        self.count(f"changelog {cred} {r.status_code}")
        self.events.append(dict(ev="changelog", role=role, expected=expected, cred=cred, wants=wants, serial=last,
                                status=r.status_code, form=form, body=body))

    def body_ok(self, srv, body, wants, last, form):
        """exactly the changes asked for"""
        from devpi_server.fileutil import dumps, load, loads
        with srv.xom.keyfs.get_connection() as conn:
            raws = [conn.get_raw_changelog_entry(i) for i in range(wants, last + 1)]
        if form == "single":
            return body == raws[0]
        if form == "multi":
            return loads(body) == [(i, loads(raw)[0]) for i, raw in zip(range(wants, last + 1), raws)]
        return body == b"".join(dumps(i) + raw for i, raw in zip(range(wants, last + 1), raws))

    # -- the end

    def settle(self):
        """no more faults: everything is transferred"""
        if self.replica.xom.config.nodeinfo.get("primary-uuid"):
            self.target = self.uuids.get(self.replica.xom.config.nodeinfo["primary-uuid"], self.target)
        self.commits()
        idle = 0
        for _ in range(3000):
            want = self.primaries[self.target].server.xom.keyfs.get_current_serial()
            if self.replica.xom.keyfs.get_current_serial() != want or self.iq.is_alive() and not self.queued():
                self.s_tick("")
            busy = bool(self.queued())
            if busy:
                self.s_file("", nested=False)
            elif not self.iq.is_alive() and self.replica.xom.keyfs.get_current_serial() == want:
                idle += 1
                if idle > 3:
                    break
            else:
                time.sleep(0.002)
        if self.iq_error:
            raise RuntimeError("initial queue: " + self.iq_error)
        self.observe()
        self.events.append(dict(ev="settled", external=sorted(self.external_paths), queued=sorted(self.queued()), iq=self.iq.is_alive()))
        # afterwards every file can be requested
        for p in self.rng.sample(sorted(self.paths), min(8, len(self.paths))):
            self.s_get(p, fault="", nested=False)

    def close(self):
        self.close_replica()
        for d in self.primaries.values():
            d.close()
        self.side.stop()


TICKFAULTS = ["conn", "lost", "500", "404", "502", "redirect", "truncate", "cut", "cut", "replay", "replay", "noserial", "html",
              "uuid_other", "uuid_none", "uuid_differ", "corrupt_"]
TICKFAULTS.remove("corrupt_")    # a damaged body which can still be read is not detected
FILEFAULTS = ["conn", "500", "502", "404_", "truncate", "cut", "corrupt", "corrupt", "length", "403"]
FILEFAULTS.remove("404_")
GETFAULTS = ["conn", "500", "truncate", "corrupt", "length", "cut"]
WEIGHTS = dict(register=3, upload=24, docup=8, toxup=7, delfile=12, delver=7, delproj=6, delix=3, mkix=5, push=10, modix=2,
               moduser=1, mkuser=1)
STEPS = {
    "R01": dict(op=10, tick=14, file=2, restart=1.2, same=2, get=1),
    "R02": dict(op=12, tick=9, file=22, get=6, restart=.8),
    "R03": dict(op=8, tick=12, switch=5, changelog=20, restart=2),
    "R04": dict(op=5, tick=5, file=4, write=16, same=6, restart=.4),
}


def run(shard, scratch):
    rng = random.Random(shard["seed"])
    profile = shard["profile"]
    traces, counts = [], {}
    for i in range(shard["traces"]):
        path = os.path.join(scratch, f"t{i}")
        w = World(rng, path, shard["seed"], streaming=rng.random() < 0.6, mirror=profile in ("R01", "R02") and i % 2 == 1,
                  servers=("P", "Q") if profile == "R03" else ("P",))
        weights = STEPS[profile]
        names = list(weights)
        for _ in range(shard["steps"]):
            getattr(w, "s_" + rng.choices(names, [weights[n] for n in names])[0])()
        w.settle()
        if profile == "R04":
            w.s_same()
        w.close()
        for d in w.primaries.values():
            for k, v in d.counts.items():
                w.counts["primary " + k] = w.counts.get("primary " + k, 0) + v
        for k, v in w.counts.items():
            counts[k] = counts.get(k, 0) + v
        traces.append(dict(meta=dict(profile=profile, seed=shard["seed"], trace=i), events=[e for e in w.events if e["ev"] != "note"]))
        devpi_app.rm(path)
    return dict(traces=traces, counts=counts)
