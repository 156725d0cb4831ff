"""An in-process devpi server on a scratch directory, talked to through its
WSGI application."""
import base64
import json
import os
import shutil
import time

from webtest import TestApp
from webtest.forms import Upload

_patched = False


def patch_speed():
    """cheap password hashing, no fsync"""
    global _patched
    if _patched:
        return
    _patched = True
    import argon2
    from devpi_server.config import Config
    Config._secret_parameters = argon2.Parameters(
        type=argon2.low_level.Type.ID, version=argon2.low_level.ARGON2_VERSION,
        salt_len=16, hash_len=16, time_cost=1, memory_cost=8, parallelism=1)


class Upstream:
    """stands in for the network: always unreachable unless told otherwise"""

    def __init__(self):
        self.handler = None
        self.calls = []

    def response(self, url, code=503, body=b"", headers=None):
        return UpstreamResponse(url, code, body, headers or {})

    def __call__(self, url, allow_redirects=True, extra_headers=None, timeout=None, **kw):
        self.calls.append(str(url))
        if self.handler is None:
            return self.response(str(url), -1)
        return self.handler(str(url), dict(extra_headers or {}))

    async def async_httpget(self, url, allow_redirects=True, timeout=None, extra_headers=None):
        r = self(url, allow_redirects, extra_headers=extra_headers)
        return r, (r.text if r.status_code < 300 else None)


class UpstreamResponse:
    def __init__(self, url, code, body, headers):
        import io
        from requests.structures import CaseInsensitiveDict
        self.url = url
        self.status_code = code
        self.reason = "reason"
        self.body = body
        self.headers = CaseInsensitiveDict(headers)
        self.raw = io.BytesIO(body)
        self.closed = False

    @property
    def text(self):
        return self.body.decode("utf8")

    @property
    def content(self):
        return self.body

    def json(self):
        return json.loads(self.body)

    def iter_content(self, n):
        while 1:
            d = self.raw.read(n)
            if not d:
                return
            yield d

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def b64(user, password):
    return base64.b64encode(f"{user}:{password}".encode()).decode()


class Server:
    def __init__(self, path, opts=(), backend="sqlite", httpget=None, plugins=(), defaults=True):
        patch_speed()
        self.path, self.opts, self.backend = path, list(opts), backend
        self.httpget = httpget if httpget is not None else Upstream()
        self.plugins = list(plugins)
        self.tokens = {}
        os.makedirs(path, exist_ok=True)
        self.open(defaults)

    def open(self, defaults=True):
        from devpi_server import (auth_basic, auth_devpi, keyfs_sqlite, keyfs_sqlite_fs,
                                  mirror, model, replica, view_auth, views)
        from devpi_server.config import get_pluginmanager, parseoptions
        from devpi_server.main import XOM, init_default_indexes
        storage = {"sqlite": keyfs_sqlite_fs, "sqlite_db_files": keyfs_sqlite}[self.backend]
        pm = get_pluginmanager(load_entrypoints=False)
        for p in [*self.plugins, auth_basic, auth_devpi, mirror, model, replica, view_auth, views, storage]:
            pm.register(p)
        config = parseoptions(pm, ["devpi-server", "--serverdir", self.path,
                                   "--storage", self.backend, *self.opts])
        config.init_nodeinfo()
        config.args.no_root_pypi = True    # an option of devpi-init
        self.xom = XOM(config, httpget=self.httpget)
        self.keyfs = self.xom.keyfs
        self.xom.thread_pool.start_one(self.xom.async_thread)
        if defaults and not config.primary_url:
            init_default_indexes(self.xom)
        self.app = TestApp(self.xom.create_app())

    def close(self):
        self.xom.thread_pool.kill()

    # -- requests

    def login(self, user, password):
        """a token or None"""
        r = self.req("POST", "/+login", json_body=dict(user=user, password=password))
        if r.status_code == 200:
            return r.json["result"]["password"]
        return None

    def req(self, method, url, body=b"", headers=None, auth=None, json_body=None, accept=None, form=None):
        h = {}
        if accept:
            h["Accept"] = accept
        h.update(headers or {})
        if auth:
            h["X-Devpi-Auth"] = b64(*auth)
        kw = dict(headers=h, expect_errors=True)
        if form is not None:
            return self.app.post(url, form, **kw)
        if json_body is not None:
            h["Content-Type"] = "application/json"
            body = json.dumps(json_body).encode()
        return self.app.request(url, method=method, body=body, **kw)


def rm(path):
    if os.path.islink(path):
        raise RuntimeError(path)
    shutil.rmtree(path, ignore_errors=True)
