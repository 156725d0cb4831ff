"""Shared parts of the drivers: scratch directories, workers, reporting."""
import contextlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def make_scratch(name):
    base = os.environ.get("VP_SCRATCH_BASE") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix=f"vp-{name}-", dir=base)


def child_env(scratch):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8",
        HOME=scratch, TMPDIR=scratch, VP_CHILD_SCRATCH=scratch,
        PYTHONPATH=os.pathsep.join([os.path.join(VERIF, "harness"), *(
            os.path.join(REPO, x) for x in ("server", "common", "web", "client", "postgresql")
            if REPO != "/repo")]),
        PYTHONWARNINGS="ignore")
    for k in list(env):
        if k.startswith("DEVPI") or k.lower().endswith("_proxy"):
            env.pop(k)
    return env


PYTHON = "/opt/venv/bin/python"


def run_shards(module, func, shards, *, scratch, timeout, jobs=8, env=None):
    """Run harness.<module>.<func>(shard, scratchdir) for every shard (a JSON
    value) in its own process; returns the list of results.  A shard whose
    process dies or runs out of time yields {"died": ...}."""
    import concurrent.futures

    def one(i, shard):
        d = os.path.join(scratch, f"s{i}")
        os.makedirs(d)
        out = os.path.join(d, "result.json")
        with open(os.path.join(d, "shard.json"), "w") as f:
            json.dump(shard, f)
        code = ("import sys, json; sys.path.insert(0, %r); import common; "
                "common.child_main(%r, %r, %r, %r)" % (
                    os.path.join(VERIF, "harness"), module, func,
                    os.path.join(d, "shard.json"), out))
        w = os.path.join(d, "w")
        os.makedirs(w)
        with open(os.path.join(d, "log"), "wb") as log:
            p = subprocess.Popen([PYTHON, "-c", code], cwd=w, env=dict(child_env(w), **(env or {})),
                                 stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            finally:
                with contextlib.suppress(ProcessLookupError, PermissionError):
                    os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        with open(os.path.join(d, "log"), errors="replace") as f:
            tail = f.read()[-4000:]
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        else:
            res = {"died": f"exit {rc}", "log": tail}
        shutil.rmtree(d, ignore_errors=True)
        return res

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(one, i, s) for i, s in enumerate(shards)]
        return [f.result() for f in futs]


def child_main(module, func, shard_path, out):
    with open(shard_path) as f:
        shard = json.load(f)
    import importlib
    try:
        m = importlib.import_module(module)
        res = getattr(m, func)(shard, os.environ["VP_CHILD_SCRATCH"])
    except BaseException as e:  # noqa
        res = {"died": exc_name(e), "log": traceback.format_exc()[-4000:],
               "in_repo": from_repo(e)}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def exc_name(e):
    return f"{type(e).__name__}: {e}"[:500]


def from_repo(e):
    """Did the exception pass through code of /repo?"""
    tb = e.__traceback__
    hit = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "/"):
            hit = True
        tb = tb.tb_next
    if not hit and e.__cause__ is not None:
        return from_repo(e.__cause__)
    return hit


class Worker:
    """A thread executing callables one after another on request."""

    def __init__(self, name):
        import queue
        self.q = queue.Queue()
        self.r = queue.Queue()
        self.pending = False
        self.thread = threading.Thread(target=self._run, name=name, daemon=True)
        self.thread.start()

    def _run(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put(("ok", f()))
            except BaseException as e:  # noqa
                self.r.put(("exc", e))

    def start(self, f):
        assert not self.pending
        self.pending = True
        self.q.put(f)

    def result(self, timeout=60):
        """(kind, value) or None if not finished in time"""
        import queue
        try:
            res = self.r.get(timeout=timeout)
        except queue.Empty:
            return None
        self.pending = False
        return res

    def call(self, f, timeout=60):
        self.start(f)
        res = self.result(timeout)
        if res is None:
            raise TimeoutError("operation did not finish")
        return res

    def stop(self):
        self.q.put(None)


# ---------------------------------------------------------------------------
# reporting

class Report:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.extra = {}

    def model(self, res):
        self.cov["states"] += res["distinct"]
        self.cov["transitions"] += res["generated"]
        self.cov.setdefault("models", []).append(res)

    def traces(self, stats, name):
        self.cov["traces_validated_against_impl"] += stats["traces"]
        self.cov.setdefault("trace_events", 0)
        self.cov["trace_events"] += stats["events"]
        self.cov["states"] += stats["distinct"]
        self.cov["transitions"] += stats["states"]
        self.cov.setdefault("trace_sets", []).append(dict(name=name, **stats))

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(path + ".tmp", path)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for i, (what, replay) in enumerate(self.violations[:5]):
            rp = os.path.join(VERIF, "replay", f"{self.prop}-{self.tier}-{i}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, what=what, seed=self.seed, replay=replay), f, indent=1, default=str)
            print(f"-- {what}"[:3000])
            print(f"VIOLATION property={self.prop} replay={rp}")
        n = self.cov
        print(f"{self.prop} {self.tier}: {n['states']} distinct states, {n['transitions']} transitions, "
              f"{n['traces_validated_against_impl']} traces, {len(self.violations)} violations, {ev['wall_s']}s")
        return 1 if self.violations else 0


def describe(rej, trace, context=6):
    """Human readable account of a rejected trace."""
    at = rej["at"]
    lo = max(0, at - 1 - context)
    lines = [f"event {at} of {rej['length']} is not allowed by the specification"]
    for c in rej["clauses"]:
        lines.append(f"   clause: {c}")
    for i in range(lo, min(at, len(trace))):
        e = {k: v for k, v in trace[i].items() if k != "obs"}
        lines.append(f"   {'>>' if i == at - 1 else '  '} {i + 1}: {json.dumps(e)[:600]}")
    return "\n".join(lines)


KNOWN = None


def known_findings(prop):
    """names of the deviations listed for a property"""
    global KNOWN
    if KNOWN is None:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            KNOWN = json.load(f)
    return {k["name"]: k["what"] for k in KNOWN["findings"] if k["property"] == prop}


def build_shim(scratch):
    so = os.path.join(scratch, "crashshim.so")
    r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so,
                        os.path.join(VERIF, "harness", "crashshim.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        import tlc
        raise tlc.MachineryError(r.stdout.decode())
    return so


def judge(report, module, traces, *, name, scratch, meta=None, timeout=600, cfg=None, consts="", jobs=8):
    """Validate traces with TLC and turn rejections into violations.  A trace
    which is accepted only by using a deviation of the specification that is
    listed as a known finding is reported as such."""
    import tlc
    stats, rejs, devs = tlc.validate_traces(module, traces, cfg=cfg, scratch=scratch, timeout=timeout, consts=consts, jobs=jobs)
    report.traces(stats, name)
    listed = known_findings(report.prop)
    for d in devs:
        tr = traces[d["trace"]]
        if d["name"] in listed:
            k = f"{d['name']}: {listed[d['name']]}"
            if k not in report.known:
                report.known.append(k)
            report.add("known_finding_occurrences")
        else:
            d = dict(d, length=len(tr), clauses=["deviation " + d["name"]])
            report.violation(f"[{name}] {meta[d['trace']] if meta else ''} " + describe(d, tr),
                             dict(module=module, rejection=d, trace=tr))
    for r in rejs:
        tr = traces[r["trace"]]
        m = meta[r["trace"]] if meta else None
        report.violation(f"[{name}] {m or ''} " + describe(r, tr),
                         dict(module=module, meta=m, rejection=r, trace=tr))
    return rejs


def collect(report, results, name):
    """Split shard results into traces and meta; processes that died inside
    the code under test are violations, others machinery errors."""
    import tlc
    traces, meta = [], []
    for r in results:
        if "died" in r:
            log = r.get("log", "")
            if r.get("in_repo") or REPO + "/" in log or r["died"].startswith("exit timeout"):
                report.violation(f"[{name}] execution did not complete: {r['died']}", dict(log=log))
                continue
            raise tlc.MachineryError(f"driver died: {r['died']}\n{log}")
        for t in r["traces"]:
            traces.append(t["events"])
            meta.append(t.get("meta"))
        for k, v in r.get("counts", {}).items():
            report.add(k, v)
    return traces, meta
