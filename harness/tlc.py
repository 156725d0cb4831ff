"""Running TLC: exhaustive model checking of a specification, simulation, and
trace validation.  Nothing in here looks at /repo."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    """Something in the verification machinery (not in the code under test)
    did not work."""


def _java(heap, short):
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-Djava.awt.headless=true"]
    if short:
        cmd += ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"]
    else:
        cmd += ["-XX:+UseParallelGC"]
    return cmd + ["-cp", JAR, "tlc2.TLC"]


def run_tlc(module, cfg, *, scratch, workers=1, timeout=600, env=None, heap="2g",
            short=False, args=(), deadlock=True):
    """Run TLC on specs/<module>.tla with the config text or file `cfg`.
    Returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    if "\n" in cfg:
        cfgpath = os.path.join(meta, f"{module}.cfg")
        with open(cfgpath, "w") as f:
            f.write(cfg)
    else:
        cfgpath = os.path.join(SPECS, cfg)
    cmd = _java(heap, short) + [
        "-config", cfgpath, "-metadir", meta, "-noGenerateSpecTE",
        "-workers", str(workers)]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(args) + [os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace")
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        if isinstance(out, bytes):
            out = out.decode("utf8", "replace")
        return (-9, out + "\nTIMEOUT")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return (r.returncode, r.stdout)


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(module, cfg, *, scratch, workers=4, timeout=600, heap="4g", expect_violation=None):
    """Exhaustively check a design model.  The model does not depend on /repo,
    so a failure here is an error of the machinery, unless a violation is
    expected (used to show that a weakened design is rejected)."""
    t = time.time()
    rc, out = run_tlc(module, cfg, scratch=scratch, workers=workers, timeout=timeout, heap=heap)
    m = STATES.findall(out)
    if expect_violation:
        if expect_violation not in out:
            raise MachineryError(f"{module}/{cfg}: expected {expect_violation!r} in TLC output, got rc={rc}\n{out[-3000:]}")
    elif rc != 0 or "No error has been found" not in out:
        raise MachineryError(f"TLC failed on design model {module}/{cfg}: rc={rc}\n{out[-4000:]}")
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(model=f"{module}/{cfg}" if "\n" not in cfg else module,
                generated=gen, distinct=dist, wall_s=round(time.time() - t, 2))


STUCK = re.compile(r'^"STUCK (\d+) (\d+) (\d+)"$', re.M)
KNOWN = re.compile(r'^"KNOWN (\d+) (\d+) (.*)"$', re.M)
MISMATCH = re.compile(r'^"MISMATCH (\d+) (\d+) (.*)"$')


def _validate_chunk(module, cfg, traces, scratch, timeout, heap):
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".json", dir=scratch)
    with os.fdopen(fd, "w") as f:
        json.dump(traces, f)
    rc, out = run_tlc(module, cfg, scratch=scratch, workers=1, timeout=timeout,
                      env={"TRACE_FILE": path}, short=True, heap=heap, deadlock=False)
    os.unlink(path)
    return rc, out


def validate_traces(module, traces, *, cfg=None, scratch, timeout=600, heap="2g", jobs=NCPU, consts=""):
    """Check every trace (list of event dicts) against trace spec `module`.

    Returns (stats, rejections); a rejection is a dict with the index of the
    trace, how far it could be matched and the clauses that failed."""
    if not traces:
        raise MachineryError("no traces to validate")
    if cfg is None:
        cfg = ("SPECIFICATION TraceSpec\nCONSTRAINT TraceProgress\n"
               "POSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + consts)
    jobs = max(1, min(jobs, len(traces)))
    total = sum(len(t) for t in traces)
    jobs = max(1, min(jobs, total // 150 + 1))
    # spread by size
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    chunks = [[] for _ in range(jobs)]
    for n, i in enumerate(order):
        chunks[n % jobs].append(i)
    chunks = [c for c in chunks if c]
    stats = dict(traces=len(traces), events=total, states=0, distinct=0)
    rejections = []
    deviations = []
    with concurrent.futures.ThreadPoolExecutor(len(chunks)) as ex:
        futs = [ex.submit(_validate_chunk, module, cfg, [traces[i] for i in c], scratch, timeout, heap)
                for c in chunks]
        results = [f.result() for f in futs]
    for c, (rc, out) in zip(chunks, results):
        m = STATES.findall(out)
        if m:
            stats["states"] += int(m[-1][0])
            stats["distinct"] += int(m[-1][1])
        stuck = STUCK.findall(out)
        bad = {int(t) for t, _, _ in stuck}
        for t, l, name in sorted(set(KNOWN.findall(out))):
            if int(t) not in bad:
                deviations.append(dict(trace=c[int(t) - 1], at=int(l), name=name))
        if rc == 0 and "No error has been found" in out and not stuck:
            if f'"TRACESCHECKED {len(c)}"' not in out:
                raise MachineryError(f"{module}: acceptance was not evaluated\n{out[-2000:]}")
            continue
        if stuck:
            mism = {}
            for line in out.splitlines():
                mm = MISMATCH.match(line.strip())
                if mm:
                    mism.setdefault((int(mm.group(1)), int(mm.group(2))), []).append(mm.group(3))
            for (t, l, n) in stuck:
                t, l = int(t), int(l)
                rejections.append(dict(
                    trace=c[t - 1], at=l, length=int(n),
                    clauses=sorted(set(mism.get((t, l), [])))[:12]))
            continue
        inv = re.search(r"Error: (Invariant \S+ is violated|Action property \S+ is violated|.*property.*violated)", out)
        if inv:
            # a property of the specification failed on a state of the trace
            k = re.findall(r"/\\ tid = (\d+)", out)
            ll = re.findall(r"/\\ l = (\d+)", out)
            if k:
                rejections.append(dict(trace=c[int(k[-1]) - 1], at=int(ll[-1]) if ll else 0,
                                       length=len(traces[c[int(k[-1]) - 1]]), clauses=[inv.group(1)]))
                continue
        if len(c) > 1 and rc not in (-9,):
            # evaluation error somewhere in this chunk: find the trace
            for i in c:
                rc1, out1 = _validate_chunk(module, cfg, [traces[i]], scratch, timeout, heap)
                if rc1 == 0 and not STUCK.findall(out1):
                    continue
                s1, r1 = _classify_single(out1, rc1, i, traces[i], module)
                rejections.append(r1)
            continue
        s1, r1 = _classify_single(out, rc, c[0], traces[c[0]], module)
        rejections.append(r1)
    return stats, rejections, deviations


def _classify_single(out, rc, i, trace, module):
    stuck = STUCK.findall(out)
    if stuck:
        return None, dict(trace=i, at=int(stuck[0][1]), length=len(trace), clauses=[])
    m = re.findall(r"/\\ l = (\d+)", out)
    evalerr = ("Attempted to" in out or "The first argument of" in out
               or "was not in the domain" in out or "evaluat" in out
               or "EvalException" in out or "TLC threw an unexpected exception" in out)
    if rc == -9 or not evalerr:
        raise MachineryError(f"TLC failed on traces for {module}: rc={rc}\n{out[-3000:]}")
    err = re.search(r"Error: (.*(?:\n.*){0,6})", out)
    return None, dict(trace=i, at=int(m[-1]) if m else 0, length=len(trace),
                      clauses=["observation not interpretable by the specification: "
                               + (err.group(1).strip()[:800] if err else out[-800:])])


SIM_JSON = re.compile(r'^"?BEHAVIOUR (\{.*\}|\[.*\])"?$')


def simulate(module, cfg, *, scratch, num, depth, seed, timeout=300, heap="2g", env=None):
    """Behaviours of a specification, printed by the specification itself as
    lines `BEHAVIOUR <json>`."""
    rc, out = run_tlc(module, cfg, scratch=scratch, workers=1, timeout=timeout, heap=heap, short=True,
                      env=env, args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"BEHAVIOUR '):
            # PrintT of a TLA+ string: undo its escaping
            res.append(json.loads(json.loads(line)[len("BEHAVIOUR "):]))
    if not res:
        raise MachineryError(f"no behaviours from {module}: rc={rc}\n{out[-3000:]}")
    return res
