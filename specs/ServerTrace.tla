---------------------------- MODULE ServerTrace ----------------------------
(* Requests sent to the real server (stage_driver.py) and what it listed     *)
(* after each of them, against Server.                                       *)
EXTENDS Server, TraceBase

VARIABLE st
vars == <<st>>

TraceInit == TraceStart /\ st = Empty

ToSetMap(r) == [k \in DOMAIN r |-> SeqSet(r[k])]
TStart ==
    /\ IsEvent("start")
    /\ st' = [usr |-> ("root" :> Empty), ix |-> Empty, rel |-> Empty, clob |-> {},
              restrict |-> SeqSet(Ev.restrict), groups |-> ToSetMap(Ev.groups),
              up |-> [u \in DOMAIN Ev.up |-> ToSetMap(Ev.up[u])]]

NoDup(name, seq) == Cond(name \o ": listed more than once", Cardinality(SeqSet(seq)) = Len(seq))
ListedOnce(name, want, seq) == NoDup(name, seq) /\ Chk(name, want, SeqSet(seq))
Where(o) == o.x \o " " \o o.p

\* the releases of a project stored on an index
OOwn(s, o) ==
    /\ Cond("index " \o o.x, o.x \in DOMAIN s.ix)
    /\ Chk("versions of " \o Where(o), Versions(s, o.x, o.p), DOMAIN o.rel)
    /\ \A v \in DOMAIN o.rel :
        LET r == s.rel[o.x][o.p][v]
            g == o.rel[v] IN
        /\ Chk("metadata of " \o Where(o) \o " " \o v, r.meta, g.meta)
        /\ ListedOnce("files of " \o Where(o) \o " " \o v, {<<n, r.files[n]>> : n \in DOMAIN r.files}, g.files)
        /\ ListedOnce("documentation of " \o Where(o) \o " " \o v, IF r.doc = NoDoc THEN {} ELSE {r.doc}, g.docs)
        /\ ListedOnce("test results of " \o Where(o) \o " " \o v, {<<t.f, t.c>> : t \in r.tox}, g.tox)
\* the simple page: name, checksum, place and requires-python of each file
OSimple(s, o) ==
    LET M == MergedFiles(s, o.x, o.p) IN
    /\ ListedOnce("simple page of " \o Where(o), {<<f.name, f.c, f.rp, f.ix>> : f \in M}, o.files)
OVersions(s, o) == ListedOnce("all versions of " \o Where(o), MergedVersions(s, o.x, o.p), o.versions)
OVersion(s, o) ==
    IF o.v \in MergedVersions(s, o.x, o.p)
    THEN LET y == FirstWith(s, o.x, o.p, o.v) IN
         IF s.ix[y].type = "mirror" THEN Cond("version of a mirror", o.found)
         ELSE Cond("version " \o Where(o) \o " " \o o.v, o.found)
              /\ Chk("metadata of " \o Where(o) \o " " \o o.v, s.rel[y][o.p][o.v].meta, o.meta)
    ELSE Cond("no version " \o Where(o) \o " " \o o.v, ~o.found)
ONames(s, o) == ListedOnce("project names of " \o o.x, MergedNames(s, o.x), o.names)
OProjects(s, o) == ListedOnce("projects of " \o o.x, DOMAIN s.rel[o.x], o.names)
OUsers(s, o) ==
    /\ Chk("users", DOMAIN s.usr, DOMAIN o.users)
    /\ \A u \in DOMAIN s.usr : Chk("user " \o u, s.usr[u], o.users[u])
OConfig(s, x, cfg) ==
    /\ Chk("settings of " \o x, DOMAIN s.ix[x], DOMAIN cfg)
    /\ \A k \in DOMAIN cfg : Chk("setting " \o k \o " of " \o x, s.ix[x][k], cfg[k])
OIndexes(s, o) ==
    /\ Chk("indexes", DOMAIN s.ix, DOMAIN o.ix)
    /\ \A x \in DOMAIN s.ix : OConfig(s, x, o.ix[x])
\* a place once linked: delivers that content as long as the link is there
ODown(s, o) ==
    LET there == IsStage(s, o.x) /\ HasVersion(s, o.x, o.p, o.v) /\
                 LET r == s.rel[o.x][o.p][o.v] IN
                 CASE o.kind = "file" -> Get(r.files, o.name, "-") = o.c
                   [] o.kind = "doc" -> r.doc = o.c
                   [] o.kind = "tox" -> <<o.name, o.c>> \in {<<t.f, t.c>> : t \in r.tox}
        other == o.kind = "file" /\ IsStage(s, o.x) /\ <<o.x, o.name, o.c>> \in AllLocs(s, o.x, "-", "-")
    IN IF there THEN
          IF o.got = o.c THEN TRUE
          ELSE IF o.got = "gone" /\ <<o.x, o.name, o.c>> \in s.clob THEN Known("shared-file-path")
          ELSE Chk("download of " \o o.name \o " from " \o Where(o), o.c, o.got)
       ELSE IF other THEN Cond("other content", o.got \in {o.c, "gone"})
       ELSE Chk("download of removed " \o o.name \o " from " \o Where(o), "gone", o.got)
OStray(s, o) == Chk("removed " \o o.name, "gone", o.got)

Agrees(s, o) ==
    CASE o.o = "own" -> OOwn(s, o)
      [] o.o = "simple" -> OSimple(s, o)
      [] o.o = "versions" -> OVersions(s, o)
      [] o.o = "version" -> OVersion(s, o)
      [] o.o = "names" -> ONames(s, o)
      [] o.o = "projects" -> OProjects(s, o)
      [] o.o = "users" -> OUsers(s, o)
      [] o.o = "indexes" -> OIndexes(s, o)
      [] o.o = "config" -> Cond("index " \o o.x, o.x \in DOMAIN s.ix) /\ OConfig(s, o.x, o.cfg)
      [] o.o = "noindex" -> Cond("no index " \o o.x, o.x \notin DOMAIN s.ix)
      [] o.o = "down" -> ODown(s, o)
      [] o.o = "stray" -> OStray(s, o)

Requests == {"register", "upload", "docup", "toxup", "delfile", "delver", "delproj", "delix",
             "deluser", "mkuser", "moduser", "mkix", "modix", "opix", "push", "invalid"}
SelfPush == Ev.ev = "push" /\ Ev.x = Ev.dst
TRequest ==
    /\ l <= Len(Tr) /\ Ev.ev \in Requests
    /\ l' = l + 1 /\ UNCHANGED tid
    /\ LET r == Apply(st, Ev) IN
       \* pushing onto itself changes nothing, whatever it says
       /\ IF SelfPush THEN TRUE
          ELSE IF r.ok THEN Chk("answer", "ok", Ev.res)
          ELSE Cond("must be refused, answer: " \o Ev.res, Ev.res = "refused" \/ (Ev.weird /\ Ev.res = "error"))
       /\ st' = IF SelfPush THEN st ELSE r.st
    /\ \A i \in 1..Len(Ev.obs) : Agrees(st', Ev.obs[i])

TraceNext == TStart \/ TRequest
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, traceVars>>
============================================================================
