------------------------------- MODULE Notify -------------------------------
(* Delivery of committed changes to subscribers (TxNotificationThread).     *)
(* log[i+1] is the changelog entry of serial i: key -> [val, back].         *)
(* The progress on disk (done) is the last serial whose delivery finished.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Subs, Subscribed(_, _), Vals

VARIABLES log,       \* committed changes
          done,      \* persisted progress
          cur,       \* serial being delivered, -1: none
          got,       \* deliveries attempted for cur: <<key, subscriber>>
          complete,  \* serials of which every delivery was attempted (history)
          order      \* last delivered serial in this run of the thread

vars == <<log, done, cur, got, complete, order>>

Serial == Len(log) - 1
Needed(s) == {p \in (DOMAIN log[s+1]) \X Subs : Subscribed(p[2], p[1])}

Init == log = <<>> /\ done = -1 /\ cur = -1 /\ got = {} /\ complete = {} /\ order = -1

LastOf(k) == LET C == {i \in 1..Len(log) : k \in DOMAIN log[i]} IN
             IF C = {} THEN -1 ELSE (CHOOSE i \in C : \A j \in C : j <= i) - 1
Commit(e) ==
    /\ log' = Append(log, [k \in DOMAIN e |-> [val |-> e[k], back |-> LastOf(k)]])
    /\ UNCHANGED <<done, cur, got, complete, order>>

Start ==
    /\ cur = -1 /\ done < Serial
    /\ cur' = done + 1 /\ got' = {}
    /\ UNCHANGED <<log, done, complete, order>>

\* the subscriber is called, whether it succeeds or fails
Deliver(k, s) ==
    /\ cur /= -1
    /\ <<k, s>> \in Needed(cur) \ got
    /\ got' = got \cup {<<k, s>>}
    /\ order' = cur
    /\ UNCHANGED <<log, done, cur, complete>>

Finished == cur /= -1 /\ got = Needed(cur)
Complete ==
    /\ Finished /\ cur \notin complete
    /\ complete' = complete \cup {cur}
    /\ UNCHANGED <<log, done, cur, got, order>>

\* progress is written after the last delivery of the serial
Persist ==
    /\ Finished /\ cur \in complete
    /\ done' = cur /\ cur' = -1 /\ got' = {}
    /\ UNCHANGED <<log, complete, order>>

\* crash, shutdown or an error outside of a subscriber
Stop ==
    /\ cur' = -1 /\ got' = {} /\ order' = done
    /\ UNCHANGED <<log, done, complete>>

Next ==
    \/ \E K \in SUBSET Keys \ {{}} : \E v \in Vals : Commit([k \in K |-> v])
    \/ Start
    \/ \E k \in Keys, s \in Subs : Deliver(k, s)
    \/ Complete \/ Persist \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Complete) /\ WF_vars(Persist)
             /\ \A k \in Keys, s \in Subs : WF_vars(Deliver(k, s))

-----------------------------------------------------------------------------
ProgressNeverAhead == \A i \in 0..done : i \in complete
\* within one run of the thread serials are delivered in increasing order
InOrder == [][(got' /= got /\ got' /= {}) => order' >= order]_vars
NotBeforeCommit == cur <= Serial /\ done <= Serial
NoSkip == [][(cur' /= cur /\ cur' /= -1) => \A i \in 0..(cur' - 1) : i \in complete]_vars
=============================================================================
