----------------------------- MODULE MCReplica -----------------------------
(* The tasks for files of a replica: everything is interleaved freely.      *)
(* Checks that what is looked at when a task is processed suffices for the  *)
(* files to converge, and (MCReplicaBad*.cfg) that each rule is needed.     *)
EXTENDS Replica

CONSTANTS Servers, Paths, MaxLen,
          Superseded,  \* tasks and downloads look at the newest change of the file
          Demand,      \* so do downloads for requests
          Leftovers,   \* removals are looked for after a restart as well
          Retried,     \* what was received incompletely is fetched again
          MaxFails

VARIABLES tasks,   \* set of [s, p, c]: serial, path, content ("" removal)
          loads,   \* downloads in progress: set of [s, p, c]
          fails    \* number of faults so far (bound)
mvars == <<vars, tasks, loads, fails>>

Content(p) == p     \* content is determined by the path
Init ==
    /\ hist = [s \in Servers |-> <<>>]
    /\ ReplicaInit
    /\ tasks = {} /\ loads = {} /\ fails = 0

\* a server adds or removes a file (or both, of two paths)
PWrite ==
    \E s \in Servers, P \in SUBSET Paths \ {{}} :
        /\ Len(hist[s]) < MaxLen
        /\ Commit(s, [d |-> <<s, Len(hist[s])>>,
                      f |-> [p \in P |-> IF At(PMeta(s), p) = "" THEN Content(p) ELSE ""]])
        /\ UNCHANGED <<tasks, loads, fails>>

TasksOf(n, cs) == UNION {{[s |-> n + i, p |-> p, c |-> cs[i].f[p]] : p \in DOMAIN cs[i].f} : i \in 1..Len(cs)}
MImport ==
    \E s \in Servers, k \in 1..2 :
        /\ rn + k <= Len(hist[s])
        /\ LET cs == SubSeq(hist[s], rn + 1, rn + k) IN
           /\ Import(s, cs)
           /\ tasks' = tasks \cup TasksOf(rn, cs)
        /\ UNCHANGED <<loads, fails>>

TRemove(t) ==
    /\ t.c = ""
    /\ tasks' = tasks \ {t}
    /\ IF t.p \in DOMAIN rfiles /\ (~Superseded \/ At(rmeta, t.p) = "")
       THEN rfiles' = Without(rfiles, {t.p}) ELSE UNCHANGED rfiles
    /\ UNCHANGED <<hist, pinned, rn, rmeta, failed, loads, fails>>
TStart(t) ==
    /\ t.c /= ""
    /\ tasks' = tasks \ {t}
    \* nothing to do if it is there already or gone from the primary
    /\ loads' = IF t.p \in DOMAIN rfiles \/ At(PMeta(pinned), t.p) = "" THEN loads ELSE loads \cup {t}
    /\ UNCHANGED <<vars, fails>>
LDone(t) ==
    /\ loads' = loads \ {t}
    /\ IF ~Superseded \/ At(rmeta, t.p) /= "" THEN rfiles' = Override(rfiles, t.p :> Content(t.p)) ELSE UNCHANGED rfiles
    /\ failed' = failed \ {t.p}
    /\ UNCHANGED <<hist, pinned, rn, rmeta, tasks, fails>>
LFail(t) ==
    /\ fails < MaxFails /\ fails' = fails + 1
    /\ loads' = loads \ {t} /\ tasks' = IF Retried THEN tasks \cup {t} ELSE tasks
    /\ UNCHANGED vars
LDamaged(t) ==
    /\ fails < MaxFails /\ fails' = fails + 1
    /\ loads' = loads \ {t}
    /\ Damaged(t.p)
    /\ UNCHANGED tasks
MRestart ==
    /\ fails < MaxFails /\ fails' = fails + 1
    /\ loads' = {}
    \* everything known is looked at again
    /\ tasks' = {[s |-> 0, p |-> p, c |-> rmeta[p]] : p \in {q \in DOMAIN rmeta :
                    rmeta[q] /= "" \/ (Leftovers /\ q \in DOMAIN rfiles)}}
    /\ Restart
\* a missing file is requested
GStart ==
    \E p \in Paths :
        /\ At(rmeta, p) /= "" /\ p \notin DOMAIN rfiles
        /\ At(PMeta(pinned), p) /= ""
        /\ loads' = loads \cup {[s |-> -1, p |-> p, c |-> Content(p)]}
        /\ UNCHANGED <<vars, tasks, fails>>
GDone(t) ==
    /\ loads' = loads \ {t}
    /\ IF ~Demand \/ At(rmeta, t.p) /= "" THEN rfiles' = Override(rfiles, t.p :> Content(t.p)) ELSE UNCHANGED rfiles
    /\ failed' = failed \ {t.p}
    /\ UNCHANGED <<hist, pinned, rn, rmeta, tasks, fails>>
GFail(t) == loads' = loads \ {t} /\ UNCHANGED <<vars, tasks, fails>>

Next ==
    \/ PWrite \/ MImport \/ MRestart \/ GStart
    \/ \E t \in tasks : TRemove(t) \/ TStart(t)
    \/ \E t \in loads : IF t.s < 0 THEN GDone(t) \/ GFail(t) ELSE LDone(t) \/ LFail(t) \/ LDamaged(t)
Spec == Init /\ [][Next]_mvars
Settled == pinned /= "" /\ CaughtUp /\ tasks = {} /\ loads = {} => Converged
TypeOK == failed \subseteq Paths /\ DOMAIN rfiles \subseteq Paths
=============================================================================
