"""Histories of requests to a real server, with everything it lists after each
request, recorded as traces for ServerTrace.tla."""
import hashlib
import json
import os
import random
import re

import common
import devpi_app
from devpi_app import Server, Upload, UpstreamResponse

JSON = "application/json"
SIMPLE = "application/vnd.pypi.simple.v1+json"
SPELL = {"pkg": ["pkg", "Pkg", "PKG"], "pkg-a": ["pkg-a", "Pkg_A", "pkg.a", "PKG--a"], "other": ["other", "Other"]}
VERSIONS = ["0.9", "1.0", "1.0.post1", "1.10", "2.0rc1", "2.0"]
EXTS = [".tar.gz", ".zip", "-py3-none-any.whl"]
METAS = ["summary", "author", "description", "requires_python", "classifiers"]
LISTKEYS = ["bases", "acl_upload", "acl_toxresult_upload", "mirror_whitelist"]


def text(content):
    return f"content of {content}".encode()


class Groups:
    """an authentication plugin which knows the groups of users"""

    def __init__(self, groups, passwords):
        self.groups, self.passwords = groups, passwords

    def devpiserver_auth_request(self, request, userdict, username, password):
        if username in self.groups and userdict and password == self.passwords.get(username):
            return dict(status="ok", groups=[g[1:] for g in self.groups[username]])
        return None


def make_groups_plugin(groups, passwords):
    from devpi_server.config import hookimpl

    class P(Groups):
        devpiserver_auth_request = hookimpl(Groups.devpiserver_auth_request)
    return P(groups, passwords)


class Simple:
    """static upstream servers: url -> project -> file names"""

    def __init__(self, up):
        self.up = up

    def __call__(self, url, headers):
        for base, projects in self.up.items():
            if url == base:
                body = "".join(f'<a href="{p}/">{p}</a>\n' for p in sorted(projects))
                return UpstreamResponse(url, 200, f"<html><body>{body}</body></html>".encode(), {"content-type": "text/html"})
            if url.startswith(base):
                p = url[len(base):].strip("/")
                if p in projects:
                    body = "".join(
                        f'<a href="../files/{f["name"]}#sha256={sha(f["c"])}">{f["name"]}</a>\n' for f in projects[p])
                    return UpstreamResponse(url, 200, f"<html><body>{body}</body></html>".encode(), {"content-type": "text/html"})
                return UpstreamResponse(url, 404, b"", {})
        return UpstreamResponse(url, 500, b"", {})


def sha(content):
    return hashlib.sha256(text(content)).hexdigest()


class Driver:
    def __init__(self, rng, path, *, restrict=None, groups=None, up=None, backend="sqlite",
                 users=("root", "u1", "u2"), names=("a", "b"), projects=("pkg", "pkg-a", "other"),
                 versions=VERSIONS, plugins=(), opts=(), server=None):
        self.rng = rng
        self.users, self.names, self.projects, self.versions = list(users), list(names), list(projects), list(versions)
        self.restrict = restrict or []
        self.groups = groups or {}
        self.up = up or {}
        self.passwords = {"root": ""}
        self.tokens = {}
        opts = list(opts)
        if restrict:
            opts += ["--restrict-modify", ",".join(restrict)]
        plugins = list(plugins)
        if groups:
            plugins.append(make_groups_plugin(self.groups, self.passwords))
        net = devpi_app.Upstream()
        if up:
            net.handler = Simple(self.up)
        self.server = server if server is not None else Server(path, opts, backend, httpget=net, plugins=plugins)
        self.tokens["root"] = self.server.login("root", "")
        self.byhash = {}
        for projects_ in self.up.values():
            for fs in projects_.values():
                for f in fs:
                    self.content(f["c"])
        self.tox = 0
        self.known = {}    # what the server listed last: x -> p -> v -> release
        self.paths = {}    # every path seen: (path, p, v) -> identity
        self.cfg = {}      # x -> settings as last listed
        self.listed_users = {"root"}
        self.events = [dict(ev="start", restrict=self.restrict, groups=self.groups, up=self.up)]
        self.counts = {}

    def close(self):
        self.server.close()

    def content(self, c):
        self.byhash[hashlib.sha256(text(c)).hexdigest()] = c
        return text(c)

    # -- requests

    def auth(self, who):
        if not who:
            return None
        if self.rng.random() < 0.1 and who in self.passwords:
            return (who, self.passwords[who])
        if who in self.tokens and self.tokens[who]:
            return (who, self.tokens[who])
        return None

    def send(self, who, *a, **kw):
        try:
            r = self.server.req(*a, auth=self.auth(who), **kw)
        except Exception as e:  # noqa: BLE001
            self.last_error = common.exc_name(e)
            return None, "error"
        self.last_error = ""
        if r.status_code >= 500:
            return r, "error"
        if r.status_code >= 400:
            return r, "refused"
        if r.status_code >= 300:
            return r, "redirect"
        return r, "ok"

    def slash(self, x):
        return "/" + x + self.rng.choice(["", "/"])

    def op_register(self, e):
        form = {":action": "submit", "name": e["name"], "version": e["ver"], **self.form_meta(e["meta"])}
        return self.send(e["as"], "POST", self.slash(e["x"]), form=form)

    def form_meta(self, meta):
        res = dict(meta)
        if "classifiers" in res:
            res["classifiers"] = [c for c in res["classifiers"].split("|")]
        return res

    def form(self, action, e, content, filename):
        form = [(":action", action), ("name", e["name"])]
        if e["ver"]:
            form.append(("version", e["ver"]))
        for k, v in self.form_meta(e["meta"]).items():
            for y in (v if isinstance(v, list) else [v]):
                form.append((k, y))
        form.append(("content", Upload(filename, content)))
        from webob.multidict import MultiDict
        return MultiDict(form)

    def op_upload(self, e):
        return self.send(e["as"], "POST", self.slash(e["x"]), form=self.form("file_upload", e, self.content(e["c"]), e["file"]))

    def op_docup(self, e):
        return self.send(e["as"], "POST", self.slash(e["x"]), form=self.form("doc_upload", e, self.content(e["c"]), "docs.zip"))

    def op_toxup(self, e):
        body = json.dumps({"n": e["c"]}).encode()
        self.byhash[hashlib.sha256(body).hexdigest()] = e["c"]
        return self.send(e["as"], "POST", "/" + self.file_path(e["x"], e["file"], e["base"]), body=body,
                         headers={"Content-Type": "application/json"})

    def file_path(self, x, name, c):
        h = sha(c)
        return f"{x}/+f/{h[:3]}/{h[3:16]}/{name}"

    def op_delfile(self, e):
        return self.send(e["as"], "DELETE", "/" + e.pop("path") + ("?force" if e["force"] else ""))

    def op_delver(self, e):
        return self.send(e["as"], "DELETE", f"/{e['x']}/{e['name']}/{e['ver']}" + ("?force" if e["force"] else ""))

    def op_delproj(self, e):
        return self.send(e["as"], "DELETE", f"/{e['x']}/{e['name']}" + ("?force" if e["force"] else ""))

    def op_delix(self, e):
        return self.send(e["as"], "DELETE", self.slash(e["x"]))

    def op_deluser(self, e):
        r = self.send(e["as"], "DELETE", self.slash(e["u"]))
        if r[1] == "ok":
            self.tokens.pop(e["u"], None)
            self.passwords.pop(e["u"], None)
        return r

    def op_mkuser(self, e):
        body = dict(e["cfg"])
        pw = f"pw-{self.rng.randrange(10**6)}"
        if e["haspw"]:
            body["password"] = pw
        r = self.send(e["as"], "PUT", self.slash(e["u"]), json_body=body)
        if r[1] == "ok":
            self.passwords[e["u"]] = pw
            self.tokens[e["u"]] = self.server.login(e["u"], pw)
        return r

    def op_moduser(self, e):
        body = dict(e["cfg"])
        pw = None
        if self.rng.random() < 0.1:
            pw = body["password"] = f"pw-{self.rng.randrange(10**6)}"
        r = self.send(e["as"], "PATCH", self.slash(e["u"]), json_body=body)
        if r[1] == "ok" and pw:
            self.passwords[e["u"]] = pw
        return r

    def raw_cfg(self, cfg):
        """the settings in one of the forms a client can send them"""
        res = {}
        for k, v in cfg.items():
            if k in LISTKEYS and self.rng.random() < 0.4:
                v = ", ".join(v)
            elif k in ("volatile", "mirror_no_project_list", "mirror_use_external_urls") and v in ("true", "false") and self.rng.random() < 0.6:
                v = v == "true"
            elif k == "mirror_cache_expiry" and v.isdigit() and self.rng.random() < 0.5:
                v = int(v)
            res[k] = v
        return res

    def op_mkix(self, e):
        body = self.raw_cfg(e["cfg"])
        if e["type"] != "stage" or self.rng.random() < 0.5:
            body["type"] = e["type"]
        return self.send(e["as"], "PUT", self.slash(e["x"]), json_body=body)

    def op_modix(self, e):
        body = self.raw_cfg(e["cfg"])
        if e["type"]:
            body["type"] = e["type"]
        return self.send(e["as"], "PATCH", self.slash(e["x"]), json_body=body)

    def op_opix(self, e):
        ops = []
        for o in e["ops"]:
            v = ",".join(o["l"]) if o["k"] in LISTKEYS and o["op"] == "set" else o["v"]
            ops.append(o["k"] + {"set": "=", "add": "+=", "del": "-=", "drop": "-="}[o["op"]] + ("" if o["op"] == "drop" else v))
        return self.send(e["as"], "PATCH", self.slash(e["x"]), json_body=ops)

    def op_push(self, e):
        body = dict(name=e["name"], version=e["ver"], targetindex=e["dst"])
        if e["no_docs"]:
            body["no_docs"] = True
        if e["only_docs"]:
            body["only_docs"] = True
        return self.send(e["as"], self.rng.choice(["POST", "PUSH"]), self.slash(e["x"]), json_body=body)

    def op_invalid(self, e):
        return self.send(e["as"], *e.pop("req"), **e.pop("kw"))

    # -- what is listed

    def get(self, url, **kw):
        kw.setdefault("accept", JSON)
        try:
            r = self.server.req("GET", url, auth=("root", self.tokens["root"]), **kw)
        except Exception as e:  # noqa: BLE001
            return None, common.exc_name(e)
        return r, r.status_code

    def cid(self, spec):
        if spec.startswith("sha256="):
            spec = spec[7:]
        return self.byhash.get(spec, "unknown " + spec)

    def body_cid(self, body):
        return self.cid(hashlib.sha256(body).hexdigest())

    def scalar(self, v):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, (str, int)):
            return str(v)
        return "?" + repr(v)

    def shown_cfg(self, cfg):
        return {k: [str(x) for x in v] if k in LISTKEYS and isinstance(v, list) else self.scalar(v)
                for k, v in cfg.items()}

    def shown_user(self, d):
        return {k: self.scalar(v) for k, v in d.items() if k not in ("indexes", "username", "created", "modified")}

    def obs_users(self, obs):
        r, s = self.get("/")
        if s != 200:
            obs.append(dict(o="users", users={"status": str(s)}))
            return
        users = {u: self.shown_user(d) for u, d in r.json["result"].items()}
        ix = {f"{u}/{n}": self.shown_cfg(c) for u, d in r.json["result"].items() for n, c in d["indexes"].items()}
        obs.append(dict(o="users", users=users))
        obs.append(dict(o="indexes", ix=ix))
        self.listed_users = set(users)
        self.cfg = ix
        for x in list(self.known):
            if x not in ix:
                del self.known[x]

    def obs_config(self, obs, x):
        mirror = self.cfg.get(x, {}).get("type") == "mirror"
        r, s = self.get(f"/{x}" + ("?no_projects=" if mirror else ""))
        if s == 404:
            obs.append(dict(o="noindex", x=x))
            return
        if s != 200:
            obs.append(dict(o="config", x=x, cfg={"status": str(s)}))
            return
        res = r.json["result"]
        projects = res.pop("projects", None)
        obs.append(dict(o="config", x=x, cfg=self.shown_cfg(res)))
        if res.get("type") == "stage":
            obs.append(dict(o="projects", x=x, names=projects))

    def shown_meta(self, d):
        meta = {f: "|".join(d[f]) if isinstance(d.get(f), list) else str(d.get(f, "<missing>")) for f in METAS}
        meta["name"] = str(d.get("name", "<missing>"))
        for k, v in d.items():
            # everything never sent has its default
            if k not in meta and k not in ("version", "+links", "+shadowing", "metadata_version") and v not in ("", []):
                meta[k] = repr(v)
        return meta

    def link_id(self, l):
        path = l["href"].replace("http://localhost/", "", 1)
        return path, path.rsplit("/", 1)[1], self.cid(l["hash_spec"])

    def obs_own(self, obs, x, p):
        r, s = self.get(f"/{x}/{p}?ignore_bases")
        rel = {}
        full = {}
        if s == 200:
            for v, d in r.json["result"].items():
                links = d.get("+links", [])
                byhref = {l["href"]: l for l in links}
                g = dict(meta=self.shown_meta(d), files=[], docs=[], tox=[])
                f = dict(files={}, doc=None, tox=[])
                for l in links:
                    path, name, c = self.link_id(l)
                    if l["rel"] == "releasefile":
                        g["files"].append([name, c])
                        f["files"][name] = c
                        self.paths[(path, p, v, "file")] = dict(x=x, p=p, v=v, kind="file", name=name, c=c)
                        if path != self.file_path(x, name, c):
                            g["files"].append([name, "wrong place " + path])
                    elif l["rel"] == "doczip":
                        g["docs"].append(c)
                        f["doc"] = (path, c)
                        if name != f"{p}-{v}.doc.zip":
                            g["docs"].append("wrong name " + name)
                        self.paths[(path, p, v, "doc")] = dict(x=x, p=p, v=v, kind="doc", name=name, c=c)
                    elif l["rel"] == "toxresult":
                        base = byhref.get(l["for_href"])
                        fn = self.link_id(base)[1] if base else "no link " + l["for_href"]
                        g["tox"].append([fn, c])
                        f["tox"].append((path, fn, c))
                        self.paths[(path, p, v, "tox")] = dict(x=x, p=p, v=v, kind="tox", name=fn, c=c)
                    else:
                        g["files"].append([name, "unknown link " + str(l["rel"])])
                rel[v] = g
                full[v] = f
        elif s != 404:
            rel = {f"status {s}": {}}
        obs.append(dict(o="own", x=x, p=p, rel=rel))
        if full:
            self.known.setdefault(x, {})[p] = full
        else:
            self.known.get(x, {}).pop(p, None)

    def obs_simple(self, obs, x, p):
        files = []
        kind = self.rng.random()
        if kind < 0.5:
            r, s = self.get(f"/{x}/+simple/{p}/", accept="text/html",
                            headers={"User-Agent": "pip/20.0"} if kind < 0.25 else {})
            if s == 200:
                for m in re.finditer(r'<a href="([^"]+)"( data-requires-python="([^"]*)")?[^>]*>([^<]+)</a>', r.text):
                    href, _, rp, name = m.groups()
                    rp = (rp or "").replace("&gt;", ">").replace("&lt;", "<")
                    files.append(self.simple_file(x, p, href, name, rp))
        else:
            r, s = self.get(f"/{x}/+simple/{p}/", accept=SIMPLE)
            if s == 200:
                for d in r.json["files"]:
                    h = d["hashes"].get("sha256", "")
                    files.append(self.simple_file(x, p, d["url"] + "#sha256=" + h, d["filename"], d.get("requires-python", "")))
        if s not in (200, 404):
            files.append([f"status {s}"])
        obs.append(dict(o="simple", x=x, p=p, files=files))

    def simple_file(self, x, p, href, name, rp):
        from urllib.parse import urljoin
        url = urljoin(f"http://localhost/{x}/+simple/{p}/", href)
        path, _, frag = url.partition("#")
        path = path.replace("http://localhost/", "", 1)
        c = self.cid(frag)
        src = "/".join(path.split("/")[:2])
        if path != self.file_path(src, name, c):
            src = "wrong place " + path
        return [name, c, rp, src]

    def obs_versions(self, obs, x, p):
        r, s = self.get(f"/{x}/{p}")
        if s == 200:
            vs = list(r.json["result"])
        else:
            vs = [] if s == 404 else [f"status {s}"]
        obs.append(dict(o="versions", x=x, p=p, versions=vs))

    def obs_version(self, obs, x, p, v):
        r, s = self.get(f"/{x}/{p}/{v}")
        if s == 200:
            obs.append(dict(o="version", x=x, p=p, v=v, found=True, meta=self.shown_meta(r.json["result"])))
        elif s == 404:
            obs.append(dict(o="version", x=x, p=p, v=v, found=False, meta={}))
        else:
            obs.append(dict(o="version", x=x, p=p, v=v, found=False, meta={"status": str(s)}))

    def obs_names(self, obs, x):
        if self.rng.random() < 0.5:
            r, s = self.get(f"/{x}/+simple/", accept=SIMPLE)
            names = [d["name"] for d in r.json["projects"]] if s == 200 else [f"status {s}"]
        else:
            r, s = self.get(f"/{x}/+simple/", accept="text/html", headers={"User-Agent": "pip/20.0"})
            names = re.findall(r'<a href="[^"]*">([^<]+)</a>', r.text) if s == 200 else [f"status {s}"]
        obs.append(dict(o="names", x=x, names=names))

    def obs_down(self, obs, keys):
        current = {t[0] for ps in self.known.values() for vs in ps.values() for f in vs.values() for t in f["tox"]}
        for key in keys:
            path = key[0]
            ident = self.paths[key]
            if key[3] == "tox" and path not in current:
                if (ident["x"], ident["p"]) not in self.fresh:
                    continue
                ident = dict(o="stray", name=path)
            r, s = self.get("/" + path, accept="*/*")
            if s in (404, 410):
                got = "gone"
            elif s == 200:
                got = self.body_cid(r.body)
            else:
                got = f"status {s}"
            obs.append(dict(dict(o="down", **ident) if "o" not in ident else ident, got=got))

    def observe(self, touched=(), full=False, x=None, downs=8, brief=False, names=()):
        """touched: pairs of index and project"""
        rng = self.rng
        obs = []
        self.obs_users(obs)
        xs = list(self.cfg)
        if brief:
            for y, p in touched:
                self.obs_own(obs, y, p)
            return obs
        pairs = [(y, p) for y in xs for p in self.projects]
        if full:
            some, somex = pairs, xs
        else:
            some = [t for t in touched if t in pairs]
            if pairs:
                some += [rng.choice(pairs) for _ in range(2)]
            somex = [y for y in [x] if y in xs]
            if xs:
                somex += [rng.choice(xs)]
        some, somex = sorted(set(some)), sorted(set(somex))
        # what is listed with an upstream that does not answer is another matter
        reachable = not self.config_only and all(c.get("mirror_url") in self.up for c in self.cfg.values() if c.get("type") == "mirror")
        for y in somex:
            self.obs_config(obs, y)
            if reachable:
                self.obs_names(obs, y)
        for y in names:
            if reachable:
                self.obs_names(obs, y)
        if x and x not in xs:
            self.obs_config(obs, x)
        self.fresh = set()
        if not reachable:
            some = []
        for y, p in some:
            if self.cfg[y].get("type") == "stage":
                self.obs_own(obs, y, p)
                self.fresh.add((y, p))
            self.obs_simple(obs, y, p)
            if full or rng.random() < 0.4:
                self.obs_versions(obs, y, p)
            if rng.random() < 0.3:
                self.obs_version(obs, y, p, rng.choice(self.versions))
        keys = sorted(self.paths)
        if not full and len(keys) > downs:
            mine = [k for k in keys if (self.paths[k]["x"], k[1]) in self.fresh]
            rng.shuffle(mine)
            keys = mine[:downs] + [rng.choice(keys) for _ in range(3)]
        self.obs_down(obs, keys)
        return obs

    def do(self, ev, touched=(), full=False, weird=False, downs=8, brief=False, **e):
        e = dict(e, ev=ev, weird=weird)
        e.setdefault("as", "root")
        if not self.auth_possible(e["as"]):
            e["as"] = ""
        r, res = getattr(self, "op_" + ev)(e)
        e["res"] = res
        if res == "error":
            e["error"] = self.last_error
        elif res != "ok":
            e["status"] = r.status_code
        if res == "ok":
            self.counts[ev] = self.counts.get(ev, 0) + 1
        else:
            k = f"{ev} {res}"
            self.counts[k] = self.counts.get(k, 0) + 1
        e["obs"] = self.observe(touched, full, e.get("x"), downs, **({"brief": True} if brief else {}))
        self.events.append(e)
        return res

    def auth_possible(self, who):
        return bool(who) and who in self.tokens

    # -- choices

    def pick_x(self, stage=True):
        xs = [x for x, c in self.cfg.items() if not stage or c.get("type") == "stage"]
        if not xs or self.rng.random() < 0.03:
            return self.rng.choice([f"{u}/{n}" for u in self.users for n in self.names])
        return self.rng.choice(xs)

    def owner(self, x):
        return x.split("/")[0]

    def who(self, x=None, permitted=0.8):
        """mostly somebody who may"""
        if x is not None and self.rng.random() < permitted:
            acl = [u for u in self.cfg.get(x, {}).get("acl_upload", []) if u in self.tokens]
            return self.rng.choice(acl) if acl else self.rng.choice([self.owner(x), "root"])
        return self.rng.choice([*self.users, ""])

    def admin(self, owner, permitted=0.85):
        if self.rng.random() < permitted:
            if self.restrict:
                c = [u for u in self.tokens if u in self.restrict or set(self.groups.get(u, ())) & set(self.restrict)]
                return self.rng.choice(c or ["root"])
            return self.rng.choice(["root", owner])
        return self.rng.choice([*self.users, ""])

    def name(self, p):
        return self.rng.choice(SPELL.get(p, [p]))

    def some_meta(self):
        rng = self.rng
        meta = {}
        for f in METAS:
            if rng.random() < 0.35:
                if f == "classifiers":
                    meta[f] = "|".join(rng.sample(["Topic :: A", "Topic :: B", "Topic :: C"], rng.randrange(1, 3)))
                elif f == "requires_python":
                    meta[f] = rng.choice(["", ">=3.6", "<4", ">=3.8,<4"])
                else:
                    meta[f] = rng.choice(["", f"{f} 1", f"{f} 2", f"{f} ü"])
        return meta

    def filename(self, p, v):
        ext = self.rng.choice(EXTS)
        return (p.replace("-", "_") if ext.endswith("whl") or self.rng.random() < 0.3 else p) + "-" + v + ext

    def some_content(self, file):
        return self.rng.choice([f"{file}:0", f"{file}:1", f"{file}:2", "same"])

    def releases(self):
        return [(x, p, v) for x, ps in self.known.items() for p, vs in ps.items() for v in vs]

    def files(self):
        return [(x, p, v, n, c) for x, p, v in self.releases() for n, c in self.known[x][p][v]["files"].items()]

    def g_register(self):
        rng = self.rng
        x, p = self.pick_x(), rng.choice(self.projects)
        if rng.random() < 0.05:
            self.do("register", touched=[(x, p)], x=x, u=self.owner(x), name=rng.choice(["-pkg", "pkg-", "a b", "p/q", ""]),
                    ver="1.0", meta={}, valid=False, **{"as": self.who(x)})
            return
        v = rng.choice(self.versions)
        self.do("register", touched=[(x, p)], x=x, u=self.owner(x), name=self.name(p), ver=v,
                meta=self.some_meta(), valid=True, **{"as": self.who(x)})

    def g_upload(self):
        rng = self.rng
        x, p, v = self.pick_x(), rng.choice(self.projects), rng.choice(self.versions)
        if rng.random() < 0.4 and self.releases():
            x, p, v = rng.choice(self.releases())
        f = self.filename(p, v)
        c = self.some_content(f)
        if rng.random() < 0.3 and self.files():
            x, p, v, f, c0 = rng.choice(self.files())
            c = c0 if rng.random() < 0.5 else self.some_content(f)
        valid = True
        if rng.random() < 0.05:
            valid = False
            f = rng.choice([f"{p}-{v}.txt", f"zzz-{v}.zip", f"{p}-7.7.zip", f"{p}-{v}"])
        self.do("upload", touched=[(x, p)], x=x, u=self.owner(x), name=self.name(p), ver=v, file=f, c=c,
                meta=self.some_meta() if rng.random() < 0.5 else {}, valid=valid, **{"as": self.who(x)})

    def g_docup(self):
        rng = self.rng
        x, p, v = self.pick_x(), rng.choice(self.projects), rng.choice(self.versions)
        if rng.random() < 0.7 and self.releases():
            x, p, v = rng.choice(self.releases())
        ver = "" if rng.random() < 0.2 else v
        self.do("docup", touched=[(x, p)], x=x, u=self.owner(x), name=self.name(p), ver=ver, valid=True,
                meta=self.some_meta() if ver and rng.random() < 0.3 else {}, c=f"doc {p}:{rng.randrange(3)}", **{"as": self.who(x)})

    def g_toxup(self):
        rng = self.rng
        if not self.files():
            return self.g_upload()
        x, p, v, f, c = rng.choice(self.files())
        if rng.random() < 0.1:
            c = self.some_content(f)
        self.tox += 1
        # an outdated place may be answered with an error
        self.do("toxup", touched=[(x, p)], weird=True, x=x, u=self.owner(x), p=p, v=v, file=f, base=c, c=f"tox {self.tox}",
                **{"as": rng.choice([*self.users, "", ""])})

    def g_delfile(self):
        rng = self.rng
        cand = [k for k in sorted(self.paths) if self.is_current(k)] if rng.random() < 0.9 else sorted(self.paths)
        if not cand:
            return self.g_upload()
        k = rng.choice(cand)
        i = self.paths[k]
        x = i["x"]
        if i["kind"] != "file" and not self.is_current(k):
            i = dict(i, c="removed")    # an equal one can have got another place since
        self.do("delfile", touched=[(x, i["p"])], path=k[0], x=x, u=self.owner(x), p=i["p"], v=i["v"], kind=i["kind"],
                file=i["name"], c=i["c"], force=rng.random() < 0.4, **{"as": self.who(x)})

    def is_current(self, k):
        i = self.paths[k]
        r = self.known.get(i["x"], {}).get(i["p"], {}).get(i["v"])
        if r is None:
            return False
        if i["kind"] == "file":
            return r["files"].get(i["name"]) == i["c"]
        if i["kind"] == "doc":
            return r["doc"] == (k[0], i["c"])
        return k[0] in [t[0] for t in r["tox"]]

    def g_delver(self):
        rng = self.rng
        x, p, v = self.pick_x(), rng.choice(self.projects), rng.choice(self.versions)
        if rng.random() < 0.85 and self.releases():
            x, p, v = rng.choice(self.releases())
        self.do("delver", touched=[(x, p)], x=x, u=self.owner(x), name=self.name(p), ver=v, force=rng.random() < 0.4,
                **{"as": self.who(x)})

    def g_delproj(self):
        rng = self.rng
        x, p = self.pick_x(), rng.choice(self.projects)
        if rng.random() < 0.85 and self.releases():
            x, p, _ = rng.choice(self.releases())
        self.do("delproj", touched=[(x, p)], x=x, u=self.owner(x), name=self.name(p), ver="", force=rng.random() < 0.4,
                **{"as": self.who(x)})

    def g_delix(self):
        x = self.pick_x(False)
        self.do("delix", touched=[(x, p) for p in self.projects], x=x, u=self.owner(x), **{"as": self.admin(self.owner(x))}, downs=30)

    def g_deluser(self):
        u = self.rng.choice(self.users)
        self.do("deluser", u=u, owned=[f"{u}/{n}" for n in self.names], **{"as": self.admin(u)}, full=True)

    def user_cfg(self):
        rng = self.rng
        return {k: rng.choice(["", f"{k}-1", f"{k}-2", "x@example.com"]) for k in ("email", "title", "description", "custom_data")
                if rng.random() < 0.3}

    def g_mkuser(self):
        rng = self.rng
        u = rng.choice(self.users)
        cfg = self.user_cfg()
        weird = False
        valid = True
        if rng.random() < 0.1:
            cfg["nosuch"] = "x"
        if rng.random() < 0.05:
            u = rng.choice(["a b", "a;b", "u(1)"])
            valid = False
        self.do("mkuser", u=u, valid=valid, cfg=cfg, haspw=rng.random() < 0.93, weird=weird,
                **{"as": self.admin("root", 0.5)})

    def g_moduser(self):
        rng = self.rng
        u = rng.choice(self.users)
        cfg = self.user_cfg()
        if rng.random() < 0.1:
            cfg["nosuch"] = "x"
        self.do("moduser", u=u, cfg=cfg, **{"as": self.admin(u)})

    def acl(self):
        rng = self.rng
        gs = sorted({g for v in self.groups.values() for g in v})
        return rng.sample([*self.users, "nobody", ":anonymous:", ":ANONYMOUS:", ":authenticated:", ":AUTHENTICATED:", *gs], rng.randrange(0, 3))

    def bases(self):
        rng = self.rng
        xs = list(self.cfg)
        res = [rng.choice(xs) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))] if xs else []
        if rng.random() < 0.05:
            res.append(rng.choice(["root/nosuch", "nosuch", "a/b/c"]))
        return res

    def stage_value(self, k):
        rng = self.rng
        return {
            "volatile": lambda: rng.choice(["true", "false", "True", "False", "yes", "no", "maybe"] if rng.random() < .15 else ["true", "false"]),
            "bases": self.bases, "acl_upload": self.acl, "acl_toxresult_upload": self.acl,
            "mirror_whitelist": lambda: rng.sample(["pkg", "PKG", "Pkg_A", "*", "other"], rng.choice([0, 1, 1, 2])),
            "mirror_whitelist_inheritance": lambda: rng.choice(["union", "intersection", "Union", "INTERSECTION", "both"]),
            "title": lambda: rng.choice(["T1", "T2", ""]), "description": lambda: rng.choice(["D1", "ü"]),
            "custom_data": lambda: rng.choice(["C1", ""]), "nosuch": lambda: "x",
        }[k]()

    STAGEKEYS = ["volatile", "bases", "acl_upload", "acl_toxresult_upload", "mirror_whitelist",
                 "mirror_whitelist_inheritance", "title", "description", "custom_data"]

    def stage_cfg(self, p=0.25):
        rng = self.rng
        ks = [k for k in self.STAGEKEYS if rng.random() < p]
        if rng.random() < 0.04:
            ks.append("nosuch")
        return {k: self.stage_value(k) for k in ks}

    def mirror_cfg(self, p=0.3):
        rng = self.rng
        ch = {"volatile": ["true", "false", "maybe"], "title": ["T1", ""], "mirror_cache_expiry": ["0", "600", "often"],
              "mirror_web_url_fmt": ["http://x/{name}"], "mirror_use_external_urls": ["true", "false"],
              "mirror_no_project_list": ["false"], "acl_upload": [["root"]], "bases": [[]], "nosuch": ["x"]}
        res = {k: rng.choice(v) for k, v in ch.items() if rng.random() < (p if k != "nosuch" else 0.03)}
        if rng.random() < 0.5:
            res["mirror_url"] = rng.choice([*self.up, "ftp://up1/simple/"] if rng.random() < 0.2 or not self.up else list(self.up))
        return res

    def g_mkix(self):
        rng = self.rng
        u = rng.choice(self.users)
        free = [f"{u_}/{n}" for u_ in sorted(self.listed_users) if u_ in self.users for n in self.names if f"{u_}/{n}" not in self.cfg]
        x = rng.choice(free) if free and rng.random() < 0.8 else f"{u}/{rng.choice(self.names)}"
        u = self.owner(x)
        valid = True
        if rng.random() < 0.04:
            x = f"{u}/" + rng.choice(["a b", "x;y", "(z)"])
            valid = False
        typ = "mirror" if rng.random() < self.mirror_share else rng.choice(["stage"] * 20 + ["nosuch"])
        cfg = self.mirror_cfg() if typ == "mirror" else self.stage_cfg()
        self.do("mkix", x=x, u=u, valid=valid, type=typ, cfg=cfg, **{"as": self.admin(u)})

    mirror_share = 0.1
    config_only = False

    def g_modix(self):
        rng = self.rng
        x = self.pick_x(False)
        typ = self.cfg.get(x, {}).get("type", "stage")
        cfg = self.mirror_cfg(0.2) if typ == "mirror" else self.stage_cfg(0.18)
        t = rng.choice(["", "", "", typ, typ, "mirror" if rng.random() < 0.2 else typ])
        self.do("modix", touched=[(x, p) for p in self.projects], x=x, u=self.owner(x), type=t, cfg=cfg,
                **{"as": self.admin(self.owner(x))})

    def g_opix(self):
        rng = self.rng
        xs = [x for x, c in self.cfg.items() if c.get("type") == "stage"]
        if not xs:
            return self.g_mkix()
        x = rng.choice(xs)
        cur = self.cfg[x]
        ops = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            op = rng.choice(["set", "add", "add", "del", "del", "drop"])
            if op in ("add", "del"):
                k = rng.choice(LISTKEYS)
                if any(o["k"] == k and o["op"] == "set" for o in ops):
                    continue    # such mixtures are not supported
                have = cur.get(k, [])
                v = rng.choice(have) if have and rng.random() < (0.2 if op == "add" else 0.8) else \
                    (self.stage_value(k) or ["u1"])[0]
                ops.append(dict(op=op, k=k, v=v, l=[]))
            elif op == "set":
                k = rng.choice([*self.STAGEKEYS, "nosuch"] if rng.random() < 0.1 else self.STAGEKEYS)
                v = self.stage_value(k)
                ops.append(dict(op=op, k=k, v="" if k in LISTKEYS else v, l=v if k in LISTKEYS else []))
            else:
                k = rng.choice(["title", "description", "custom_data", "volatile", "bases"])
                ops.append(dict(op=op, k=k, v="", l=[]))
        # operators which make no sense may be answered with an error
        self.do("opix", weird=True, touched=[(x, p) for p in self.projects], x=x, u=self.owner(x), ops=ops,
                **{"as": self.admin(self.owner(x))})

    def g_push(self):
        rng = self.rng
        x, p, v = self.pick_x(), rng.choice(self.projects), rng.choice(self.versions)
        if rng.random() < 0.9 and self.releases():
            x, p, v = rng.choice(self.releases())
        dst = self.pick_x()
        if dst == x and rng.random() < 0.8:
            dst = self.pick_x()
        d = rng.random()
        self.do("push", touched=[(x, p), (dst, p)], x=x, u=self.owner(x), dst=dst, du=self.owner(dst), name=self.name(p), ver=v,
                no_docs=d < 0.15 or d > 0.97, only_docs=0.15 < d < 0.3 or d > 0.97, **{"as": self.who(dst)})

    def g_invalid(self):
        """requests which can not be right"""
        rng = self.rng
        x = self.pick_x(False)
        req, kw = rng.choice([
            (("PATCH", f"/{x}"), dict(json_body={"title": None})),
            (("PATCH", f"/{x}"), dict(json_body="text")),
            (("PATCH", f"/{x}"), dict(json_body=["acl_nosuch+=x"])),
            (("PATCH", f"/{x}"), dict(body=b"{no json", headers={"Content-Type": "application/json"})),
            (("PUT", f"/{x}"), dict(body=b"", headers={"Content-Type": "application/json"})) if x in self.cfg else
            (("PATCH", f"/{x}"), dict(json_body={"volatile": 7})),
            (("POST", f"/{x}/"), dict(form={":action": "nosuch", "name": "pkg", "version": "1.0"})),
            (("POST", f"/{x}/"), dict(form={":action": "file_upload", "name": "pkg", "version": "1.0"})),
            (("POST", f"/{x}"), dict(json_body={"name": "pkg"})),
            (("POST", f"/{x}"), dict(json_body={"name": "pkg", "version": "1.0", "targetindex": "nosuch"})),
            (("DELETE", f"/{x}/+f/123/4567890123456/pkg-1.0.zip"), {}),
            (("DELETE", "/nosuch/nosuch"), {}), (("DELETE", "/nosuch"), {}), (("PATCH", "/nosuch"), dict(json_body={})),
            (("POST", f"/{x}/+f/123/4567890123456/pkg-1.0.zip"), dict(json_body={})),
        ])
        self.do("invalid", x=x, req=req, kw=kw, weird=True, **{"as": self.admin(self.owner(x))})

    def g_shape(self):
        """the indexes arranged anew: chains, diamonds and cycles with several
        mirrors, whitelists and private releases at every level"""
        rng = self.rng
        stages = [x for x, c in self.cfg.items() if c.get("type") == "stage"]
        mirrors = [x for x, c in self.cfg.items() if c.get("type") == "mirror"]
        rng.shuffle(stages)
        stages = stages[:rng.choice([3, 4, 4, 5])]
        chain = rng.random() < 0.5
        wlp = rng.choice([0.25, 0.5, 0.7])
        quiet = dict(downs=0, brief=True)
        for i, x in enumerate(stages):
            rest = stages[i + 1:]
            bases = rest[:1] if chain else rng.sample(rest, min(len(rest), rng.choice([1, 1, 2, 2, 3])))
            if rng.random() < 0.12:
                bases.append(rng.choice(stages))
            if mirrors and (rng.random() < 0.35 or not rest):
                for m in rng.sample(mirrors, rng.choice([1, 1, min(2, len(mirrors))])):
                    bases.insert(rng.randrange(len(bases) + 1), m)
            cfg = dict(bases=bases, mirror_whitelist_inheritance=rng.choice(["union", "intersection"]),
                       mirror_whitelist=rng.sample(["pkg", "pkg", "*", "other", "Pkg_A"], rng.choice([1, 1, 2])) if rng.random() < wlp else [])
            cfg["mirror_whitelist"] = sorted(set(cfg["mirror_whitelist"]))
            self.do("modix", x=x, u=self.owner(x), type="", cfg=cfg, **quiet, **{"as": "root"})
            for p in self.projects:
                want = rng.random() < 0.3
                have = p in self.known.get(x, {})
                if want and not have:
                    v = rng.choice(self.versions)
                    f = self.filename(p, v)
                    self.do("upload", touched=[(x, p)], x=x, u=self.owner(x), name=p, ver=v, file=f, c=self.some_content(f),
                            meta={}, valid=True, **quiet, **{"as": "root"})
                elif have and not want:
                    self.do("delproj", touched=[(x, p)], x=x, u=self.owner(x), name=p, ver="", force=True, **quiet, **{"as": "root"})
        self.count("shapes")
        self.events[-1]["obs"] += self.observe(touched=[(x, p) for x in stages for p in self.projects], downs=0,
                                               names=stages)

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def run(self, steps, weights, full_every=12):
        gens = list(weights)
        ws = [weights[g] for g in gens]
        for i in range(steps):
            getattr(self, "g_" + self.rng.choices(gens, ws)[0])()
            if (i + 1) % full_every == 0 or i == steps - 1:
                self.events[-1]["obs"] += self.observe(full=True)

    def setup(self, volatile=None, mirrors=()):
        """some users and indexes to begin with"""
        for u in self.users:
            if u != "root":
                self.do("mkuser", u=u, valid=True, cfg={}, haspw=True, **{"as": "root"})
        for x, url in mirrors:
            self.do("mkix", x=x, u=self.owner(x), valid=True, type="mirror",
                    cfg={"mirror_url": url, "mirror_cache_expiry": "100000"}, **{"as": "root"})
        for i, u in enumerate(u for u in self.users if u != "root"):
            for j, n in enumerate(self.names):
                if f"{u}/{n}" in [m[0] for m in mirrors]:
                    continue
                self.do("mkix", x=f"{u}/{n}", u=u, valid=True, type="stage", **{"as": "root"},
                        cfg={"volatile": "true" if (i + j) % 2 == 0 else "false"} if volatile is None else {"volatile": volatile})


BASE = dict(register=6, upload=22, docup=8, toxup=7, delfile=9, delver=5, delproj=3, delix=1.5, deluser=.5,
            mkuser=1, moduser=1, mkix=3, modix=3, opix=2, push=14, invalid=1)
WEIGHTS = {
    "base": BASE,
    "S01": dict(BASE, delix=1, deluser=1, modix=1),
    "S03": dict(BASE, delfile=10, delver=9, delproj=7, delix=6, deluser=3, mkuser=4, mkix=10),
    "S05": dict(upload=25, register=4, delfile=3, delproj=3, delix=4, mkix=8, modix=22, opix=8, push=3, shape=4),
    "S06": dict(upload=20, register=4, delfile=4, delproj=6, delix=2, mkix=4, modix=22, opix=10, push=3, shape=14),
    "S07": dict(BASE, push=35, toxup=14, docup=12),
    "S09": dict(mkuser=10, moduser=16, deluser=4, mkix=14, modix=30, opix=24, delix=7, upload=2, invalid=4),
    "A01": dict(BASE, mkix=8, modix=10, opix=6, delix=5, deluser=2, mkuser=4, moduser=6, push=16),
}
UP = {"http://up1/simple/": {"pkg": [("pkg-1.0.tar.gz", "1.0"), ("pkg-5.0.tar.gz", "5.0")],
                             "other": [("other-1.0.zip", "1.0")], "third": [("third-1.0.zip", "1.0")]},
      "http://up2/simple/": {"pkg": [("pkg-1.0.tar.gz", "1.0"), ("pkg-6.0.zip", "6.0")],
                             "pkg-a": [("pkg_a-1.10-py3-none-any.whl", "1.10")]}}


def upstream():
    return {u: {p: [dict(name=n, v=v, c=f"{u} {n}") for n, v in fs] for p, fs in ps.items()} for u, ps in UP.items()}


def run(shard, scratch):
    rng = random.Random(shard["seed"])
    profile = shard["profile"]
    traces, counts = [], {}
    for i in range(shard["traces"]):
        path = os.path.join(scratch, f"server{i}")
        kw = {}
        mirrors = ()
        names = ["a", "b"]
        users = ["root", "u1", "u2"]
        if profile in ("S05", "S06"):
            kw["up"] = upstream()
            kw["projects"] = ["pkg", "pkg-a", "other"]
            kw["versions"] = ["1.0", "1.10"]
            mirrors = [("root/m1", "http://up1/simple/"), ("root/m2", "http://up2/simple/")]
            names = ["a", "b", "c"]
        if profile == "S09":
            kw["up"] = upstream()
            kw["projects"] = ["pkg"]
        if profile == "A01":
            users = ["root", "u1", "u2", "u3"]
            mode = i % 3
            kw["groups"] = {"u2": [":g1"], "u3": [":g1", ":g2"]}
            kw["projects"] = ["pkg"]
            kw["versions"] = ["1.0", "2.0"]
            if mode == 1:
                kw["restrict"] = ["root"] if i % 2 else ["u1", ":g2"]
        d = Driver(rng, path, users=users, names=names, backend=shard.get("backend", "sqlite"), **kw)
        if profile == "A01":
            d.who = lambda x=None, permitted=0.8, d=d: Driver.who(d, x, 0.35)
            d.admin = lambda o, permitted=0.8, d=d: Driver.admin(d, o, 0.35)
            d.acl_always = True
        d.mirror_share = {"S05": .05, "S06": .05, "S09": .25}.get(profile, 0)
        d.config_only = profile == "S09"
        if profile in ("S05", "S06"):
            # a changed URL has no effect before the expiry
            d.mirror_cfg = lambda p=0.3, d=d: (
                {"mirror_url": rng.choice(list(d.up)), "mirror_cache_expiry": "100000"} if p == 0.3
                else {"title": rng.choice(["T1", "T2"]), "volatile": rng.choice(["true", "false"])})
        d.setup("true" if profile == "S03" and i % 2 else None, mirrors)
        d.run(shard["steps"], WEIGHTS[profile])
        d.close()
        for k, v in d.counts.items():
            counts[k] = counts.get(k, 0) + v
        traces.append(dict(meta=dict(profile=profile, seed=shard["seed"], trace=i), events=d.events))
        devpi_app.rm(path)
    return dict(traces=traces, counts={"requests: " + k: v for k, v in counts.items()})


def run_shared(shard, scratch):
    """Equal files of two releases of one index (the known deviation)."""
    rng = random.Random(shard["seed"])
    traces = []
    for i, (p2, v2) in enumerate([("pkg-a", "1.0"), ("pkg", "1.0.post1")]):
        path = os.path.join(scratch, f"server{i}")
        d = Driver(rng, path, users=["root"], names=["a"])
        d.do("mkix", x="root/a", u="root", valid=True, type="stage", cfg={})
        name = "pkg-a-1.0.zip" if i == 0 else "pkg-1.0.post1.zip"
        for p, v in [("pkg", "1.0"), (p2, v2)]:
            d.do("upload", touched=[("root/a", p)], x="root/a", u="root", name=p, ver=v, file=name, c="equal", meta={}, valid=True)
        d.do("delver", x="root/a", u="root", name="pkg", ver="1.0", force=False, full=True)
        d.do("upload", touched=[("root/a", p2)], x="root/a", u="root", name=p2, ver=v2, file=name, c="equal", meta={}, valid=True, full=True)
        d.close()
        traces.append(dict(meta=dict(profile="shared", trace=i), events=d.events))
        devpi_app.rm(path)
    return dict(traces=traces)
