"""What is run for each property."""
import common
import tlc


class Ctx:
    def __init__(self, report, scratch, tier, seed):
        self.r, self.scratch, self.tier, self.seed = report, scratch, tier, seed
        self.thorough = tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg=None, **kw):
        self.r.model(tlc.model_check(module, cfg or module + ".cfg", scratch=self.scratch,
                                     workers=8, timeout=kw.pop("timeout", 700), **kw))

    def drive(self, module, func, shards, name, timeout=600, jobs=8, env=None):
        for i, s in enumerate(shards):
            s.setdefault("seed", self.seed * 1000 + i)
        res = common.run_shards(module, func, shards, scratch=self.scratch, timeout=timeout, jobs=jobs, env=env)
        return common.collect(self.r, res, name)

    def conform(self, spec, module, func, shards, name, consts="", timeout=600, jobs=8, cfg=None, env=None):
        traces, meta = self.drive(module, func, shards, name, timeout=timeout, jobs=jobs, env=env)
        self.judge(spec, traces, meta, name, consts=consts, cfg=cfg)
        return traces, meta

    def judge(self, spec, traces, meta, name, consts="", cfg=None):
        if traces:
            self.r.sample(dict(name=name, meta=meta[0], events=traces[0][:12]))
            common.judge(self.r, spec, traces, name=name, scratch=self.scratch, meta=meta, consts=consts, cfg=cfg)
        elif not self.r.violations:
            raise tlc.MachineryError(f"no traces for {name}")


CHECKS = {}


def check(prop, level="model_checking"):
    def deco(f):
        CHECKS[prop] = (f, level)
        return f
    return deco


# ---------------------------------------------------------------------------
# the key value store

KEYFS_CONSTS = "CONSTANTS Keys <- TrKeys\nFiles <- TrFiles\nTxs <- TrTxs\nVals = {}\n"


def keyfs_random(c, backends, n, traces, steps, name="random"):
    shards = [dict(backend=b, traces=traces, steps=steps) for b in backends for _ in range(n)]
    c.conform("KeyFSTrace", "keyfs_driver", "run_random", shards, name, consts=KEYFS_CONSTS)


def keyfs_threads(c, backends, n, traces, steps, threads):
    shards = [dict(backend=b, traces=traces, steps=steps, threads=threads) for b in backends for _ in range(n)]
    c.conform("KeyFSTrace", "keyfs_driver", "run_threads", shards, "threads", consts=KEYFS_CONSTS)


@check("K01")
def k01(c):
    c.model("MCKeyFS")
    keyfs_random(c, ["sqlite", "sqlite_db_files"], c.pick(6, 24), c.pick(10, 40), c.pick(180, 250))
    keyfs_random(c, ["pg"], c.pick(2, 8), c.pick(3, 15), c.pick(120, 250), name="random-pg")


@check("K02")
def k02(c):
    c.model("MCKeyFS")
    keyfs_threads(c, ["sqlite", "sqlite_db_files"], c.pick(4, 12), c.pick(5, 20), c.pick(40, 60), 4)
    keyfs_threads(c, ["pg"], 4, c.pick(1, 8), c.pick(20, 40), 4)
    keyfs_random(c, ["sqlite", "sqlite_db_files"], c.pick(4, 16), c.pick(8, 40), c.pick(150, 250))
    keyfs_random(c, ["pg"], c.pick(2, 8), c.pick(3, 15), c.pick(120, 250), name="random-pg")


@check("K03")
def k03(c):
    c.model("MCKeyFS")
    env = dict(LD_PRELOAD=common.build_shim(c.scratch))
    shards = [dict(backend=b, histories=c.pick(4, 40)) for b in ("sqlite", "sqlite_db_files") for _ in range(c.pick(4, 8))]
    shards += [dict(backend="pg", histories=c.pick(1, 6), points=c.pick(12, 60), nested=False) for _ in range(c.pick(1, 4))]
    c.conform("KeyFSTrace", "crash_driver", "run", shards, "crash", consts=KEYFS_CONSTS, env=env)


NOTIFY_CONSTS = "CONSTANTS Keys <- TrKeys\nSubs <- TrSubs\nSubscribed <- TrSubscribed\nVals = {}\n"


@check("K04")
def k04(c):
    c.model("MCNotify")
    c.model("MCNotify", "MCNotifyLive.cfg")
    shards = [dict(backend=b, traces=c.pick(15, 80), steps=c.pick(60, 120)) for b in ("sqlite", "sqlite_db_files") for _ in range(c.pick(4, 12))]
    c.conform("NotifyTrace", "notify_driver", "run", shards, "notify", consts=NOTIFY_CONSTS)
    c.conform("NotifyTrace", "notify_driver", "run_threads",
              [dict(backend="sqlite", traces=c.pick(3, 20), steps=20) for _ in range(c.pick(4, 8))], "notify-threads", consts=NOTIFY_CONSTS)
    env = dict(LD_PRELOAD=common.build_shim(c.scratch))
    c.conform("NotifyTrace", "notify_driver", "run_crash",
              [dict(traces=c.pick(3, 20), steps=c.pick(40, 80)) for _ in range(8)], "notify-crash", consts=NOTIFY_CONSTS, env=env)


# ---------------------------------------------------------------------------
# users, indexes and releases through the HTTP API

def server(c, profile, traces=5, steps=60, backends=("sqlite",)):
    n = c.pick(8, 32)
    shards = [dict(profile=profile, backend=backends[i % len(backends)],
                   traces=c.pick(traces, traces * 3), steps=c.pick(steps, steps * 2)) for i in range(n)]
    c.conform("ServerTrace", "stage_driver", "run", shards, profile, timeout=c.pick(600, 800))


def server_check(prop, profile, models=("MCServer",), **kw):
    @check(prop)
    def f(c):
        for m in models:
            if m == "MCInherit":
                c.model("MCInherit", c.pick("MCInherit.cfg", "MCInheritFull.cfg"))
            elif m == "MCServerIx":
                c.model("MCServer", "MCServerIx.cfg")
            else:
                c.model(m)
        server(c, profile, **kw)
        if prop in ("S03", "S04"):
            c.conform("ServerTrace", "stage_driver", "run_shared", [dict()], "shared")


server_check("S01", "S01", backends=("sqlite", "sqlite_db_files"))
server_check("S02", "base")
server_check("S03", "S03", backends=("sqlite", "sqlite_db_files"))
server_check("S04", "base", backends=("sqlite", "sqlite_db_files"))
server_check("S05", "S05", models=("MCInherit",))
server_check("S06", "S06", models=("MCInherit",))
server_check("S07", "S07")
server_check("S09", "S09", models=("MCServerIx",))
server_check("A01", "A01", models=("MCServerIx",))


# ---------------------------------------------------------------------------
# replicas

def replica(c, profile, traces, steps):
    shards = [dict(profile=profile, traces=c.pick(traces, traces * 3), steps=c.pick(steps, steps * 2)) for _ in range(c.pick(8, 32))]
    c.conform("ReplicaTrace", "replica_driver", "run", shards, profile, timeout=c.pick(600, 800))


@check("R01")
def r01(c):
    c.model("MCReplica", "MCReplicaTwo.cfg")
    replica(c, "R01", 8, 120)


@check("R02")
def r02(c):
    c.model("MCReplica", c.pick("MCReplica.cfg", "MCReplicaFull.cfg"))
    for i in range(1, 5):
        c.model("MCReplica", f"MCReplicaBad{i}.cfg", expect_violation="Invariant Settled is violated")
    replica(c, "R02", 9, 120)


@check("R03")
def r03(c):
    c.model("MCReplica", "MCReplicaTwo.cfg")
    replica(c, "R03", 8, 120)


@check("R04")
def r04(c):
    c.model("MCReplica", "MCReplicaTwo.cfg")
    replica(c, "R04", 7, 100)


# ---------------------------------------------------------------------------
# for MANIFEST.json

TECHNIQUE = {}
NOT_APPLICABLE = {}
NOTES = dict(
    K01="KeyFS.tla model-checked exhaustively for small constants (2 keys, 1 file, 2 transactions); seeded random schedules of up to 4 concurrently open transactions on the real store (3 backends) validated step by step. Sampled schedules, not all of them; trusts TLC and the recording driver.",
    K02="As K01, plus free running threads whose transactions are validated in commit order (each must start from the state its predecessor left). Sampled schedules.",
    K04="Notify.tla model-checked (safety exhaustively, delivery as liveness under fairness); the real notification thread stepped through random commits, failing subscribers, kills and storage errors, run freely against concurrent committers, and killed at each of its own disk changes; deliveries validated in order, value and against the persisted progress.",
    **{i: "Server.tla model-checked for small constants (" + m + "); seeded random histories of requests (" + w + ") sent to the real WSGI application, answers and everything listed or downloadable afterwards validated against Server.tla after every request. Sampled histories with at most 4 users, 9 indexes, 3 projects, 6 versions; requests one at a time."
       for i, m, w in [
        ("S01", "invariants over all reachable states", "mostly non-volatile indexes"),
        ("S02", "invariants over all reachable states", "all kinds of requests"),
        ("S03", "invariants over all reachable states", "many removals and re-creations"),
        ("S04", "invariants over all reachable states", "all kinds of requests"),
        ("S05", "every inheritance graph over 3 indexes", "changing inheritance graphs with mirrors of a static upstream"),
        ("S06", "every inheritance graph and whitelist over 3 indexes", "changing whitelists and bases with mirrors of a static upstream"),
        ("S07", "invariants over all reachable states", "mostly pushes"),
        ("S09", "users and indexes", "changes of users and indexes in every accepted form"),
        ("A01", "users and indexes", "every request by every user and anonymous, groups, acls, --restrict-modify")]},
    **{i: "Replica.tla model-checked (" + m + "); a real primary and a real replica in one process, joined by stand-ins for the network which delay, repeat, cut, damage, refuse or answer from another server; after every step the replica's changelog, files and identity are validated against Replica.tla (" + w + "). Sampled histories; the replica's threads are stepped one at a time, except for what is nested into a running download."
       for i, m, w in [
        ("R01", "two servers, all interleavings of imports", "its changes are a prefix of the primary's, complete at the end"),
        ("R02", "all interleavings of file tasks, downloads, requests, faults and restarts for 2 files; each rule shown to be needed by a configuration without it", "files stored, removed and served; exactly the expected ones at the end"),
        ("R03", "two servers, all interleavings of imports", "another server, wrong or missing identities, older state; changelog requests with every kind of credential"),
        ("R04", "two servers, all interleavings of imports", "requests sent through the replica: carried out once, answer of the primary, serial reached")]},
    K03="Every call of the process which changes the disk (or, PostgreSQL, sends to the server) during seeded sample transactions is a crash point; the recovery is crashed again at its own points; the reopened store must be in the state before or after the commit of KeyFS.tla and keep working. Process death, not power loss (the page cache survives).",
)
