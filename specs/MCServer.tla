------------------------------ MODULE MCServer ------------------------------
(* Server with few users, indexes and files: the guarantees hold for the    *)
(* design itself.                                                           *)
EXTENDS Server
CONSTANTS Files, Contents, Who, Small

VARIABLE st

U == "u1"
XA == "u1/a"
XB == "u1/b"
V == "1.0"
Init == st = [usr |-> ("root" :> Empty) @@ (U :> Empty),
              ix |-> (XA :> ([StageDefaults(U) EXCEPT !.volatile = "true"] @@ [type |-> "stage"]))
                     @@ (XB :> ([StageDefaults(U) EXCEPT !.volatile = "false"] @@ [type |-> "stage"])),
              rel |-> (XA :> Empty) @@ (XB :> Empty),
              clob |-> {}, restrict |-> {}, groups |-> Empty, up |-> Empty]

Exist == {XA, XB}
Ops ==
    [ev : {"register"}, as : Who, u : {U}, x : Exist, name : {"pkg"}, ver : {V}, valid : {TRUE}, meta : {[summary |-> "s"]}]
    \cup [ev : {"upload"}, as : Who, u : {U}, x : Exist, name : {"PKG"}, ver : {V}, valid : {TRUE}, meta : {Empty}, file : Files, c : Contents]
    \cup [ev : {"docup"}, as : {U}, u : {U}, x : Exist, name : {"pkg"}, ver : {"", V}, valid : {TRUE}, meta : {Empty}, c : {"d1"}]
    \cup [ev : {"toxup"}, as : {""}, u : {U}, x : Exist, p : {"pkg"}, v : {V}, file : Files, base : Contents, c : {"t1"}]
    \cup [ev : {"delfile"}, as : {U}, u : {U}, x : Exist, p : {"pkg"}, v : {V}, kind : {"file"}, file : Files, c : Contents, force : BOOLEAN]
    \cup [ev : {"delfile"}, as : {U}, u : {U}, x : Exist, p : {"pkg"}, v : {V}, kind : {"doc"}, file : {"-"}, c : {"d1"}, force : BOOLEAN]
    \cup [ev : {"delver", "delproj"}, as : Who, u : {U}, x : Exist, name : {"Pkg"}, ver : {V}, force : BOOLEAN]
    \cup [ev : {"push"}, as : {U}, u : {U}, x : Exist, du : {U}, dst : Exist, name : {"pkg"}, ver : {V}, no_docs : BOOLEAN, only_docs : BOOLEAN]
    \cup (IF Small THEN {} ELSE
         [ev : {"delix"}, as : Who, u : {U}, x : Exist]
    \cup [ev : {"deluser"}, as : {"root"}, u : {U}, owned : {<<XA, XB>>}]
    \cup [ev : {"mkix"}, as : {U}, u : {U}, x : Exist, valid : {TRUE}, type : {"stage"}, cfg : {[bases |-> <<XB>>], [volatile |-> "no"]}]
    \cup [ev : {"mkuser"}, as : {""}, u : {U}, valid : {TRUE}, haspw : {TRUE}, cfg : {Empty}])

Forced(a) == "force" \in DOMAIN a /\ a.force
Rel(s, x) == Get(s.rel, x, Empty)
\* every file and documentation kept with its content
Kept(s, s2, x) ==
    \A p \in DOMAIN Rel(s, x) : \A v \in DOMAIN s.rel[x][p] :
       LET r == s.rel[x][p][v] IN
       /\ x \in DOMAIN s2.rel /\ HasVersion(s2, x, p, v)
       /\ \A f \in DOMAIN r.files : Get(s2.rel[x][p][v].files, f, "-") = r.files[f]
       /\ r.doc /= NoDoc => s2.rel[x][p][v].doc = r.doc

Good(a, ok, s2) ==
    /\ Assert(~ok => s2 = st, <<"refused but changed", a>>)
    /\ Assert(\A x \in DOMAIN st.ix : ~Volatile(st, x) /\ ~Forced(a) => Kept(st, s2, x), <<"S01", a>>)
    /\ Assert((ok /\ a.ev = "push" /\ a.x /= a.dst) =>
                /\ s2.rel[a.x] = st.rel[a.x]
                /\ LET r == st.rel[a.x]["pkg"][V]
                       t == s2.rel[a.dst]["pkg"][V] IN
                   /\ ~a.only_docs => \A f \in DOMAIN r.files : t.files[f] = r.files[f]
                                        /\ {x \in t.tox : x.f = f} = {x \in r.tox : x.f = f}
                   /\ (~a.no_docs /\ r.doc /= NoDoc) => t.doc = r.doc
                   /\ t.meta = r.meta, <<"S07", a>>)
    /\ Assert((ok /\ a.ev \in {"delver", "delproj"}) => Versions(s2, a.x, "pkg") = {}, <<"S03", a>>)
    /\ Assert((ok /\ a.ev \in {"delver", "delproj", "delfile"}) =>
                 \A x \in DOMAIN st.rel \ {a.x} : s2.rel[x] = st.rel[x] /\ s2.ix = st.ix, <<"S03 others", a>>)
    /\ Assert((ok /\ a.ev = "delix") => a.x \notin DOMAIN s2.ix /\ a.x \notin DOMAIN s2.rel, <<"S03 index", a>>)
    /\ Assert(Principals(st, a.as) \cap {"root", U, "+everyone"} = {"+everyone"} => (s2 = st \/ a.ev \in {"toxup", "mkuser"}), <<"A01", a>>)

Next == \E a \in Ops : LET r == Apply(st, a) IN
           /\ Good(a, r.ok, r.st)
           /\ st' = r.st
Spec == Init /\ [][Next]_st

Inv ==
    /\ DOMAIN st.rel = {x \in DOMAIN st.ix : st.ix[x].type = "stage"}
    /\ st.clob = {}
    /\ \A x \in DOMAIN st.rel : \A p \in DOMAIN st.rel[x] :
          /\ DOMAIN st.rel[x][p] /= {}
          /\ \A v \in DOMAIN st.rel[x][p] : LET r == st.rel[x][p][v] IN
                 \A t \in r.tox : t.f \in DOMAIN r.files
    /\ \A x \in DOMAIN st.ix : LET M == MergedFiles(st, x, "pkg") IN
          Cardinality({f.name : f \in M}) = Cardinality(M)
=============================================================================
