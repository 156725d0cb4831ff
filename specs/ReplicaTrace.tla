---------------------------- MODULE ReplicaTrace ----------------------------
(* Recorded replication (replica_driver.py) against Replica.                *)
EXTENDS Replica, TraceBase

ToF(f) == f      \* path -> content
CI(c) == [d |-> c.d, f |-> c.f]
CS(cs) == [i \in 1..Len(cs) |-> CI(cs[i])]

TraceInit ==
    /\ TraceStart
    /\ hist = [s \in TraceSet(AllTraces[tid][1].servers) |-> <<>>]
    /\ ReplicaInit

TStart == IsEvent("start") /\ UNCHANGED vars

TCommit ==
    /\ IsEvent("commit")
    /\ Chk("commit.serial", Len(hist[Ev.s]), Ev.serial)
    /\ Commit(Ev.s, CI(Ev))

\* whatever happened in one step of the replica: the changes it has now in
\* addition, the files it stored and removed since the last observation
\* (tasks of several threads can be part of one step)
TReplica ==
    /\ IsEvent("replica")
    /\ LET src == IF pinned = "" THEN Ev.src ELSE pinned
           cs == CS(Ev.new)
           m == Fold(rmeta, cs, 1)
           n == rn + Len(cs)
       IN
       /\ Chk("replica.serial", n - 1, Ev.serial)
       /\ Cond("replica.foreign_changes", cs = <<>> \/ pinned \in {"", Ev.src})
       /\ Cond("replica.ahead", cs = <<>> \/ n <= Len(hist[src]))
       /\ cs /= <<>> => \A i \in 1..Len(cs) : Chk("replica.change " \o ToString(rn + i - 1), hist[src][rn + i], cs[i])
       \* the identity of the first source is remembered
       /\ Cond("replica.identity", IF pinned = "" THEN Ev.pinned \in {"", Ev.src} ELSE Ev.pinned = pinned)
       /\ Cond("replica.identity_unknown", n > 0 => Ev.pinned /= "")
       /\ pinned' = IF pinned # "" THEN pinned ELSE Ev.pinned
       /\ rn' = n
       /\ rmeta' = m
       /\ \A p \in DOMAIN Ev.stored :
            \* metadata seen at any time during the step
            Cond("replica.stored " \o p \o " " \o Ev.stored[p],
                 \/ At(m, p) = Ev.stored[p]
                 \/ \E i \in 1..Len(cs) : At(cs[i].f, p) = Ev.stored[p]
                 \/ At(rmeta, p) = Ev.stored[p])
       /\ \A i \in 1..Len(Ev.removed) :
            LET p == Ev.removed[i] IN
            Cond("replica.removed " \o p, At(m, p) = "" \/ (\E j \in 1..Len(cs) : At(cs[j].f, p) = "" /\ p \in DOMAIN cs[j].f))
       /\ rfiles' = Override(Without(rfiles, TraceSet(Ev.removed)), Ev.stored)
          /\ failed' = (failed \cup TraceSet(Ev.damaged)) \ DOMAIN Ev.stored
       /\ UNCHANGED hist

TRestart ==
    /\ IsEvent("restart")
    /\ Chk("restart.serial", rn - 1, Ev.serial)
    /\ Restart

\* a file was requested from the replica
TGet ==
    /\ IsEvent("get")
    /\ LET c == At(rmeta, Ev.p)
           pc == IF pinned = "" THEN "" ELSE At(PMeta(pinned), Ev.p) IN
       /\ Cond("get.content " \o Ev.p \o " " \o Ev.got, Ev.got \in {"gone", "failed", "redirect", c, pc})
       \* it can be delivered unless it could not be fetched
       /\ Cond("get.failed " \o Ev.p, Ev.got \in {"gone", "failed"} /\ c /= "" => Ev.fault \/ (Ev.p \notin DOMAIN rfiles /\ pc = ""))
    /\ UNCHANGED vars

\* a request to read, answered by the replica and the primary at the same serial
TSame ==
    /\ IsEvent("same")
    /\ Cond("same.serial", Ev.serial = rn - 1)
    /\ Chk("same.answer " \o Ev.url, Ev.primary, Ev.replica)
    /\ UNCHANGED vars

\* a modifying request was sent to the replica
\*   executed: how often the primary got it; committed: serial of the primary's
\*   answer; at: serial of the replica when it answered
TWrite ==
    /\ IsEvent("write")
    /\ Cond("write.executed", Ev.executed <= 1 /\ (Ev.fault \in {"", "lost", "error"} => Ev.executed = 1))
    /\ Cond("write.executed_after_fault", Ev.fault = "refused" => Ev.executed = 0)
    /\ Ev.fault = "" => Chk("write.status", Ev.pstatus, Ev.status) /\ Cond("write.body", Ev.samebody)
    /\ Ev.fault /= "" => Cond("write.reported", Ev.status >= 400)
    /\ Cond("write.early", Ev.status < 400 => Ev.at >= Ev.committed)
    /\ Cond("write.unanswered", Ev.status /= 0)
    \* nothing is written locally
    /\ Chk("write.local", rn - 1, Ev.local)
    /\ UNCHANGED vars

\* a request for changes, as sent by a replica or somebody else
\*   role of the server, expected: which identity the client expects,
\*   cred: what it presents, wants: first serial
Permitted(role, expected, cred) ==
    /\ role = "primary"
    /\ expected \in {"empty", "same"}
    /\ cred \in {"none", "token"}
TChangelog ==
    /\ IsEvent("changelog")
    /\ LET ok == Permitted(Ev.role, Ev.expected, Ev.cred) IN
       /\ Cond("changelog.leak " \o Ev.form, Ev.status \in {200, 202} => ok)
       /\ Cond("changelog.refused " \o Ev.form \o ToString(Ev.status), ok /\ Ev.wants <= Ev.serial => Ev.status = 200)
       /\ Cond("changelog.body " \o Ev.form, Ev.status = 200 => Ev.body)
       /\ Cond("changelog.nothing_yet", ok /\ Ev.wants = Ev.serial + 1 => Ev.status = 202)
       /\ Cond("changelog.future", ok /\ Ev.wants > Ev.serial + 1 => Ev.status = 404)
    /\ UNCHANGED vars

\* everything transferred which could be: the primary's answers were without
\* fault for long enough
TSettled ==
    /\ IsEvent("settled")
    /\ Cond("settled.behind", CaughtUp)
    /\ LET e == Expected(rmeta) IN
       /\ \A p \in DOMAIN e \ TraceSet(Ev.external) : Cond("settled.missing " \o p, p \in DOMAIN rfiles \/ p \in failed)
       /\ \A p \in DOMAIN rfiles : Cond("settled.left " \o p, p \in DOMAIN e)
       /\ \A p \in DOMAIN e \cap DOMAIN rfiles : Chk("settled.content " \o p, e[p], rfiles[p])
    /\ UNCHANGED vars

TraceNext == TStart \/ TCommit \/ TReplica \/ TRestart \/ TGet \/ TSame \/ TWrite \/ TChangelog \/ TSettled
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, traceVars>>
=============================================================================
