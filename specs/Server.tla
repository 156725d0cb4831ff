------------------------------- MODULE Server -------------------------------
(* The server as seen through its HTTP API: users, indexes, releases.       *)
(*                                                                          *)
(* The state is one record:                                                 *)
(*   usr       user name -> its settings (absent settings are absent)       *)
(*   ix        index name "user/index" -> its configuration                 *)
(*   rel       index name (type stage) -> project -> version -> release     *)
(*   clob      stored files broken by a known deviation (see DropLocs)      *)
(*   and, constant: restrict (principals of --restrict-modify, {} if not    *)
(*   used), groups (user -> groups), up (mirror_url -> project -> files)    *)
(* A release is [meta, files: name -> content, doc, tox: set of [f, c]].    *)
(*                                                                          *)
(* Apply(st, a) is what a request a does: [ok, st].  A refused request      *)
(* leaves the state as it was.                                              *)
EXTENDS Inherit, TLC

NoDoc == "<none>"
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Empty == [y \in {} |-> "?"]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

(* Spelling of project names: only these are used.                          *)
NormName(n) ==
    CASE n \in {"pkg", "Pkg", "PKG"} -> "pkg"
      [] n \in {"pkg-a", "Pkg_A", "pkg.a", "PKG--a"} -> "pkg-a"
      [] n \in {"other", "Other"} -> "other"
      [] OTHER -> n
VersionOrder == <<"0.9", "1.0", "1.0.post1", "1.10", "2.0rc1", "2.0">>
VRank(v) == CHOOSE i \in 1..Len(VersionOrder) : VersionOrder[i] = v
Newest(V) == CHOOSE v \in V : \A w \in V : VRank(w) <= VRank(v)
NormAcl(a) == CASE a = ":anonymous:" -> ":ANONYMOUS:"
                [] a = ":authenticated:" -> ":AUTHENTICATED:"
                [] a = ":Authenticated:" -> ":AUTHENTICATED:"
                [] OTHER -> a

MetaFields == {"summary", "author", "description", "requires_python", "classifiers"}
FullMeta(name, given) == [f \in MetaFields \cup {"name"} |->
                            IF f = "name" THEN name ELSE Get(given, f, "")]
PatchMeta(meta, name, given) == [f \in DOMAIN meta |->
                            IF f = "name" THEN name ELSE Get(given, f, meta[f])]
NewRelease(meta) == [meta |-> meta, files |-> Empty, doc |-> NoDoc, tox |-> {}]

Accept(st) == [ok |-> TRUE, st |-> st]
Refuse(st) == [ok |-> FALSE, st |-> st]

----------------------------------------------------------------------------
(* who may do what                                                          *)
Principals(st, u) == IF u \in DOMAIN st.usr
                     THEN {"+everyone", "+authenticated", u} \cup Get(st.groups, u, {})
                     ELSE {"+everyone"}
AclEntry(e) == CASE e = ":ANONYMOUS:" -> "+everyone"
                 [] e = ":AUTHENTICATED:" -> "+authenticated"
                 [] OTHER -> e
AclSet(seq) == {AclEntry(seq[i]) : i \in 1..Len(seq)}
Restricted(st) == st.restrict /= {}
Admins(st, owner) == IF Restricted(st) THEN st.restrict ELSE {"root", owner}
Holders(st, perm, owner, x) ==
    CASE perm = "user_create" -> IF Restricted(st) THEN st.restrict ELSE {"+everyone"}
      [] perm = "user_modify" -> Admins(st, owner)
      [] perm = "index_create" -> Admins(st, owner)
      [] perm = "user_delete" -> IF Restricted(st) THEN st.restrict \ {owner}
                                 ELSE IF owner = "root" THEN {} ELSE {"root", owner}
      [] perm \in {"index_modify", "index_delete"} -> Admins(st, owner)
      [] perm = "upload" -> AclSet(Get(st.ix[x], "acl_upload", <<>>))
      [] perm = "toxresult_upload" -> AclSet(Get(st.ix[x], "acl_toxresult_upload", <<":ANONYMOUS:">>))
      [] perm = "del" -> AclSet(Get(st.ix[x], "acl_upload", <<>>)) \cup Admins(st, owner)
May(st, who, perm, owner, x) == Principals(st, who) \cap Holders(st, perm, owner, x) /= {}

----------------------------------------------------------------------------
(* releases                                                                 *)
IsStage(st, x) == x \in DOMAIN st.ix /\ st.ix[x].type = "stage"
Volatile(st, x) == st.ix[x].volatile = "true"
Versions(st, x, p) == IF p \in DOMAIN st.rel[x] THEN DOMAIN st.rel[x][p] ELSE {}
HasVersion(st, x, p, v) == v \in Versions(st, x, p)
SetRel(st, x, p, v, r) ==
    [st EXCEPT !.rel = Put(@, x, Put(@[x], p, Put(Get(@[x], p, Empty), v, r)))]

\* where the release files of an index are stored: two releases with equally
\* named files of equal content share the place
LocsOf(x, r) == {<<x, n, r.files[n]>> : n \in DOMAIN r.files}
AllLocs(st, x, p0, v0) ==    \* ... of all releases but p0 v0
    UNION {LocsOf(x, st.rel[x][pv[1]][pv[2]]) :
             pv \in {q \in UNION {{p} \X DOMAIN st.rel[x][p] : p \in DOMAIN st.rel[x]} : q /= <<p0, v0>>}}
\* release r of p v is replaced by r2: places no longer used by it are
\* removed, also if another release still uses them
DropLocs(st, x, p, v, r, r2) ==
    [st EXCEPT !.clob = (@ \cup ((LocsOf(x, r) \ LocsOf(x, r2)) \cap AllLocs(st, x, p, v)))
                        \ (LocsOf(x, r2) \ LocsOf(x, r))]
Change(st, x, p, v, r2) ==
    LET r == IF HasVersion(st, x, p, v) THEN st.rel[x][p][v] ELSE NewRelease(Empty)
    IN SetRel(DropLocs(st, x, p, v, r, r2), x, p, v, r2)

RemoveVersion(st, x, p, v) ==
    LET st1 == DropLocs(st, x, p, v, st.rel[x][p][v], NewRelease(Empty))
        rest == Drop(st1.rel[x][p], v)
    IN [st1 EXCEPT !.rel = Put(@, x, IF DOMAIN rest = {} THEN Drop(@[x], p) ELSE Put(@[x], p, rest))]

\* one more file: what replaces an existing file takes its test results along
AddFile(r, name, c) ==
    [r EXCEPT !.files = Put(@, name, c), !.tox = {t \in @ : t.f /= name}]

Register(st, a) ==
    IF ~IsStage(st, a.x) \/ ~May(st, a.as, "upload", a.u, a.x) \/ ~a.valid THEN Refuse(st)
    ELSE LET p == NormName(a.name) IN
         Accept(SetRel(st, a.x, p, a.ver,
            IF HasVersion(st, a.x, p, a.ver)
            THEN [st.rel[a.x][p][a.ver] EXCEPT !.meta = FullMeta(a.name, a.meta)]
            ELSE NewRelease(FullMeta(a.name, a.meta))))

\* the release with the metadata of a form
WithMeta(st, x, p, v, name, given) ==
    IF HasVersion(st, x, p, v)
    THEN LET r == st.rel[x][p][v] IN [r EXCEPT !.meta = PatchMeta(@, name, given)]
    ELSE NewRelease(FullMeta(name, given))

Upload(st, a) ==
    IF ~IsStage(st, a.x) \/ ~May(st, a.as, "upload", a.u, a.x) \/ ~a.valid THEN Refuse(st)
    ELSE LET p == NormName(a.name)
             r == WithMeta(st, a.x, p, a.ver, a.name, a.meta)
         IN IF a.file \in DOMAIN r.files /\ ~Volatile(st, a.x)
            THEN IF r.files[a.file] = a.c THEN Accept(SetRel(st, a.x, p, a.ver, r)) ELSE Refuse(st)
            ELSE Accept(Change(st, a.x, p, a.ver, AddFile(r, a.file, a.c)))

DocUpload(st, a) ==
    IF ~IsStage(st, a.x) \/ ~May(st, a.as, "upload", a.u, a.x) \/ ~a.valid THEN Refuse(st)
    ELSE LET p == NormName(a.name) IN
         IF a.ver = "" /\ Versions(st, a.x, p) = {} THEN Refuse(st)
         ELSE LET v == IF a.ver = "" THEN Newest(Versions(st, a.x, p)) ELSE a.ver
                  r == IF a.ver = "" THEN st.rel[a.x][p][v]
                       ELSE WithMeta(st, a.x, p, v, a.name, a.meta)
              IN IF r.doc /= NoDoc /\ ~Volatile(st, a.x)
                 THEN IF r.doc = a.c THEN Accept(SetRel(st, a.x, p, v, r)) ELSE Refuse(st)
                 ELSE Accept(SetRel(st, a.x, p, v, [r EXCEPT !.doc = a.c]))

\* a file is addressed by the place of a link: project, version, name, content
HasFile(st, x, p, v, name, c) ==
    IsStage(st, x) /\ HasVersion(st, x, p, v)
    /\ name \in DOMAIN st.rel[x][p][v].files /\ st.rel[x][p][v].files[name] = c

ToxUpload(st, a) ==
    IF ~HasFile(st, a.x, a.p, a.v, a.file, a.base) \/ ~May(st, a.as, "toxresult_upload", a.u, a.x)
    THEN Refuse(st)
    ELSE Accept(SetRel(st, a.x, a.p, a.v,
            [st.rel[a.x][a.p][a.v] EXCEPT !.tox = @ \cup {[f |-> a.file, c |-> a.c]}]))

NoLinks(r) == DOMAIN r.files = {} /\ r.doc = NoDoc /\ r.tox = {}
DelFile(st, a) ==
    IF ~IsStage(st, a.x) \/ ~May(st, a.as, "del", a.u, a.x) THEN Refuse(st)
    ELSE IF ~Volatile(st, a.x) /\ ~a.force THEN Refuse(st)
    ELSE IF ~HasVersion(st, a.x, a.p, a.v) THEN Refuse(st)
    ELSE LET r == st.rel[a.x][a.p][a.v]
             there == CASE a.kind = "file" -> HasFile(st, a.x, a.p, a.v, a.file, a.c)
                        [] a.kind = "doc" -> r.doc = a.c
                        [] a.kind = "tox" -> [f |-> a.file, c |-> a.c] \in r.tox
             r2 == CASE a.kind = "file" -> [r EXCEPT !.files = Drop(@, a.file), !.tox = {t \in @ : t.f /= a.file}]
                     [] a.kind = "doc" -> [r EXCEPT !.doc = NoDoc]
                     [] a.kind = "tox" -> [r EXCEPT !.tox = @ \ {[f |-> a.file, c |-> a.c]}]
         IN IF ~there THEN Refuse(st)
            ELSE IF NoLinks(r2) THEN Accept(RemoveVersion(st, a.x, a.p, a.v))
            ELSE Accept(Change(st, a.x, a.p, a.v, r2))

DelVersion(st, a) ==
    LET p == NormName(a.name) IN
    IF ~IsStage(st, a.x) \/ ~May(st, a.as, "del", a.u, a.x) THEN Refuse(st)
    ELSE IF (~Volatile(st, a.x) /\ ~a.force) \/ ~HasVersion(st, a.x, p, a.ver) THEN Refuse(st)
    ELSE Accept(RemoveVersion(st, a.x, p, a.ver))

RECURSIVE RemoveVersions(_, _, _, _)
RemoveVersions(st, x, p, V) ==
    IF V = {} THEN st
    ELSE LET v == CHOOSE w \in V : TRUE IN RemoveVersions(RemoveVersion(st, x, p, v), x, p, V \ {v})
DelProject(st, a) ==
    LET p == NormName(a.name) IN
    IF ~IsStage(st, a.x) \/ ~May(st, a.as, "del", a.u, a.x) THEN Refuse(st)
    ELSE IF (~Volatile(st, a.x) /\ ~a.force) \/ Versions(st, a.x, p) = {} THEN Refuse(st)
    ELSE Accept(RemoveVersions(st, a.x, p, Versions(st, a.x, p)))

Push(st, a) ==
    LET p == NormName(a.name) IN
    IF ~IsStage(st, a.x) \/ ~IsStage(st, a.dst) \/ (a.no_docs /\ a.only_docs) THEN Refuse(st)
    ELSE IF ~HasVersion(st, a.x, p, a.ver) THEN Refuse(st)
    ELSE LET r == st.rel[a.x][p][a.ver]
             names == IF a.only_docs THEN {} ELSE DOMAIN r.files
             docs == ~a.no_docs /\ r.doc /= NoDoc
             old == IF HasVersion(st, a.dst, p, a.ver) THEN st.rel[a.dst][p][a.ver]
                    ELSE NewRelease(r.meta)
             conflict == ~Volatile(st, a.dst)
                         /\ (names \cap DOMAIN old.files /= {} \/ (docs /\ old.doc /= NoDoc))
             new == [meta |-> r.meta,
                     files |-> [n \in names |-> r.files[n]] @@ old.files,
                     doc |-> IF docs THEN r.doc ELSE old.doc,
                     tox |-> {t \in old.tox : t.f \notin names} \cup {t \in r.tox : t.f \in names}]
         IN IF (names = {} /\ ~docs) \/ ~May(st, a.as, "upload", a.du, a.dst) \/ conflict THEN Refuse(st)
            ELSE Accept(Change(st, a.dst, p, a.ver, new))

----------------------------------------------------------------------------
(* users and indexes                                                        *)
UserKeys == {"email", "title", "description", "custom_data"}
Given(cfg) == [k \in {k \in DOMAIN cfg : cfg[k] /= ""} |-> cfg[k]]
MakeUser(st, a) ==
    IF a.u \in DOMAIN st.usr \/ ~a.valid \/ ~a.haspw \/ ~(DOMAIN a.cfg \subseteq UserKeys)
       \/ ~May(st, a.as, "user_create", a.u, "") THEN Refuse(st)
    ELSE Accept([st EXCEPT !.usr = Put(@, a.u, Given(a.cfg))])
\* unknown settings are ignored, empty ones removed
ModifyUser(st, a) ==
    IF a.u \notin DOMAIN st.usr \/ ~May(st, a.as, "user_modify", a.u, "") THEN Refuse(st)
    ELSE LET cfg == [k \in DOMAIN a.cfg \cap UserKeys |-> a.cfg[k]]
             new == cfg @@ st.usr[a.u]
         IN Accept([st EXCEPT !.usr[a.u] = Given(new)])

ListKeys == {"bases", "acl_upload", "acl_toxresult_upload", "mirror_whitelist"}
FreeKeys == {"title", "description", "custom_data"}
StageKeys == ListKeys \cup FreeKeys \cup {"volatile", "mirror_whitelist_inheritance"}
MirrorKeys == FreeKeys \cup {"volatile", "mirror_url", "mirror_cache_expiry", "mirror_web_url_fmt",
                             "mirror_no_project_list", "mirror_use_external_urls"}
BoolKeys == {"volatile", "mirror_no_project_list", "mirror_use_external_urls"}
IgnoredOnMirror == {"bases", "acl_upload", "mirror_whitelist"}
KeysOf(type) == IF type = "stage" THEN StageKeys ELSE MirrorKeys
StageDefaults(owner) ==
    [volatile |-> "true", acl_upload |-> <<owner>>, acl_toxresult_upload |-> <<":ANONYMOUS:">>,
     bases |-> <<>>, mirror_whitelist |-> <<>>, mirror_whitelist_inheritance |-> "intersection"]
Defaults(type, owner) == IF type = "stage" THEN StageDefaults(owner) ELSE [volatile |-> "true"]

Trues == {"true", "True", "yes"}
Falses == {"false", "False", "no"}
Inherits == {"union", "intersection", "Union", "INTERSECTION"}
\* v: the value as sent
ValidValue(st, k, v) ==
    CASE k \in BoolKeys -> v \in Trues \cup Falses
      [] k = "bases" -> SeqSet(v) \subseteq DOMAIN st.ix
      [] k = "mirror_whitelist_inheritance" -> v \in Inherits
      [] k = "mirror_url" -> v \notin {"ftp://up1/simple/", ""}
      [] k = "mirror_cache_expiry" -> v \notin {"often", ""}
      [] OTHER -> TRUE
NormWhite(w) == IF w = "*" THEN "*" ELSE NormName(w)
Normal(k, v) ==
    CASE k \in BoolKeys -> IF v \in Trues THEN "true" ELSE "false"
      [] k \in {"acl_upload", "acl_toxresult_upload"} -> [i \in 1..Len(v) |-> NormAcl(v[i])]
      [] k = "mirror_whitelist" -> [i \in 1..Len(v) |-> NormWhite(v[i])]
      [] k = "mirror_whitelist_inheritance" -> IF v \in {"union", "Union"} THEN "union" ELSE "intersection"
      [] OTHER -> v
\* accepted settings among those sent, for an index of this type
Considered(type, sent) == IF type = "mirror" THEN [k \in DOMAIN sent \ IgnoredOnMirror |-> sent[k]] ELSE sent
ValidSettings(st, type, sent) ==
    LET s == Considered(type, sent) IN
    DOMAIN s \subseteq KeysOf(type) /\ \A k \in DOMAIN s : ValidValue(st, k, s[k])
NormalSettings(type, sent) ==
    LET s == Considered(type, sent) IN [k \in DOMAIN s |-> Normal(k, s[k])]

MakeIndex(st, a) ==
    IF a.u \notin DOMAIN st.usr \/ a.x \in DOMAIN st.ix \/ ~a.valid
       \/ ~May(st, a.as, "index_create", a.u, "")
       \/ a.type \notin {"stage", "mirror"} THEN Refuse(st)
    ELSE IF ~ValidSettings(st, a.type, a.cfg) THEN Refuse(st)
    ELSE LET cfg == NormalSettings(a.type, a.cfg) @@ Defaults(a.type, a.u) @@ [type |-> a.type]
             st1 == [st EXCEPT !.ix = Put(@, a.x, cfg)]
         IN Accept(IF a.type = "stage" THEN [st1 EXCEPT !.rel = Put(@, a.x, Empty)] ELSE st1)

ModifyIndex(st, a) ==
    IF a.x \notin DOMAIN st.ix \/ ~May(st, a.as, "index_modify", a.u, a.x) THEN Refuse(st)
    ELSE LET type == st.ix[a.x].type IN
         IF a.type \notin {"", type} \/ ~ValidSettings(st, type, a.cfg) THEN Refuse(st)
         ELSE Accept([st EXCEPT !.ix[a.x] = NormalSettings(type, a.cfg) @@ @])

\* a sequence of operators applied to the current settings
RECURSIVE RemoveFirst(_, _)
RemoveFirst(s, v) == IF s = <<>> THEN <<>> ELSE IF Head(s) = v THEN Tail(s)
                     ELSE <<Head(s)>> \o RemoveFirst(Tail(s), v)
RemoveAll(s, v) == LET Other(y) == y /= v IN SelectSeq(s, Other)
RECURSIVE Operate(_, _)
Operate(acc, ops) ==     \* acc: [ok, cfg, drop]
    IF ops = <<>> \/ ~acc.ok THEN acc
    ELSE LET o == Head(ops)
             bad == [acc EXCEPT !.ok = FALSE]
             set(v) == [acc EXCEPT !.cfg = Put(@, o.k, v), !.drop = @ \ {o.k}]
             next == CASE o.op = "set" -> IF o.k \in ListKeys THEN set(o.l) ELSE set(o.v)
                       [] o.op = "drop" -> [acc EXCEPT !.cfg = Drop(@, o.k), !.drop = @ \cup {o.k}]
                       [] o.k \notin DOMAIN acc.cfg \/ o.k \notin ListKeys -> bad
                       [] o.op = "add" -> IF o.v \in SeqSet(acc.cfg[o.k]) THEN acc ELSE set(Append(acc.cfg[o.k], o.v))
                       [] o.op = "del" -> IF o.v \notin SeqSet(acc.cfg[o.k]) THEN bad
                                          ELSE IF o.k = "bases" THEN set(RemoveAll(acc.cfg[o.k], o.v))
                                          ELSE set(RemoveFirst(acc.cfg[o.k], o.v))
         IN Operate(next, Tail(ops))
OperateIndex(st, a) ==
    IF a.x \notin DOMAIN st.ix \/ ~May(st, a.as, "index_modify", a.u, a.x) THEN Refuse(st)
    ELSE LET cur == st.ix[a.x]
             res == Operate([ok |-> TRUE, cfg |-> Drop(cur, "type"), drop |-> {}], a.ops)
         IN IF ~res.ok \/ res.drop \cap DOMAIN Defaults(cur.type, a.u) /= {}
               \/ ~ValidSettings(st, cur.type, res.cfg) THEN Refuse(st)
            ELSE Accept([st EXCEPT !.ix[a.x] = NormalSettings(cur.type, res.cfg) @@ [type |-> cur.type]])

RemoveIndex(st, x) ==
    LET st1 == [st EXCEPT !.ix = Drop(@, x), !.clob = {q \in @ : q[1] /= x}]
    IN [st1 EXCEPT !.rel = Drop(@, x)]
DelIndex(st, a) ==
    IF a.x \notin DOMAIN st.ix \/ ~May(st, a.as, "index_delete", a.u, a.x) THEN Refuse(st)
    ELSE IF ~Volatile(st, a.x) THEN Refuse(st)
    ELSE Accept(RemoveIndex(st, a.x))
RECURSIVE RemoveIndexes(_, _)
RemoveIndexes(st, X) == IF X = {} THEN st
                        ELSE LET x == CHOOSE y \in X : TRUE IN RemoveIndexes(RemoveIndex(st, x), X \ {x})
\* a.owned: the names the user's indexes can have
Owned(st, a) == SeqSet(a.owned) \cap DOMAIN st.ix
DelUser(st, a) ==
    IF a.u \notin DOMAIN st.usr \/ ~May(st, a.as, "user_delete", a.u, "") THEN Refuse(st)
    ELSE IF \E x \in Owned(st, a) : ~Volatile(st, x) THEN Refuse(st)
    ELSE LET st1 == RemoveIndexes(st, Owned(st, a)) IN Accept([st1 EXCEPT !.usr = Drop(@, a.u)])

----------------------------------------------------------------------------
Apply(st, a) ==
    CASE a.ev = "register" -> Register(st, a)
      [] a.ev = "upload" -> Upload(st, a)
      [] a.ev = "docup" -> DocUpload(st, a)
      [] a.ev = "toxup" -> ToxUpload(st, a)
      [] a.ev = "delfile" -> DelFile(st, a)
      [] a.ev = "delver" -> DelVersion(st, a)
      [] a.ev = "delproj" -> DelProject(st, a)
      [] a.ev = "delix" -> DelIndex(st, a)
      [] a.ev = "deluser" -> DelUser(st, a)
      [] a.ev = "mkuser" -> MakeUser(st, a)
      [] a.ev = "moduser" -> ModifyUser(st, a)
      [] a.ev = "mkix" -> MakeIndex(st, a)
      [] a.ev = "modix" -> ModifyIndex(st, a)
      [] a.ev = "opix" -> OperateIndex(st, a)
      [] a.ev = "push" -> Push(st, a)
      [] a.ev = "invalid" -> Refuse(st)

----------------------------------------------------------------------------
(* what is listed                                                           *)
UpOf(st, x) == Get(st.up, Get(st.ix[x], "mirror_url", ""), Empty)
HasMap(st) == [x \in DOMAIN st.ix |-> IF st.ix[x].type = "mirror" THEN DOMAIN UpOf(st, x)
                                      ELSE DOMAIN st.rel[x]]
\* all files of a project on one index: set of [name, c, v, rp, ix]
OwnFiles(st, x, p) ==
    IF st.ix[x].type = "mirror"
    THEN {[name |-> f.name, c |-> f.c, v |-> f.v, rp |-> "", ix |-> x] : f \in Get(UpOf(st, x), p, {})}
    ELSE UNION {LET r == st.rel[x][p][v] IN
                {[name |-> n, c |-> r.files[n], v |-> v, rp |-> r.meta.requires_python, ix |-> x]
                   : n \in DOMAIN r.files} : v \in Versions(st, x, p)}
\* the first index with an equally named file wins
RECURSIVE Merge(_, _, _, _)
Merge(st, todo, p, seen) ==
    IF todo = <<>> THEN {}
    ELSE LET own == {f \in OwnFiles(st, Head(todo), p) : f.name \notin seen}
         IN own \cup Merge(st, Tail(todo), p, seen \cup {f.name : f \in own})
MergedFiles(st, x, p) == Merge(st, Contributing(st.ix, HasMap(st), x, p), p, {})
OwnVersions(st, x, p) == IF st.ix[x].type = "mirror" THEN {f.v : f \in Get(UpOf(st, x), p, {})}
                         ELSE Versions(st, x, p)
MergedVersions(st, x, p) == UNION {OwnVersions(st, y, p) : y \in SeqSet(Contributing(st.ix, HasMap(st), x, p))}
MergedNames(st, x) == UNION {HasMap(st)[y] : y \in SeqSet(Sro(st.ix, x))}
\* the metadata shown for a version: of the first index which has it
FirstWith(st, x, p, v) ==
    LET C == Contributing(st.ix, HasMap(st), x, p)
        i == CHOOSE i \in 1..Len(C) : v \in OwnVersions(st, C[i], p) /\ \A j \in 1..(i-1) : v \notin OwnVersions(st, C[j], p)
    IN C[i]
=============================================================================
