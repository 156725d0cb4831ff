------------------------------ MODULE MCNotify ------------------------------
EXTENDS Notify
MCSubscribed(s, k) == \/ s = "a" /\ k \in {"x", "y"}
                      \/ s = "b" /\ k = "y"
Bound == Len(log) <= 3
\* liveness: without stops, a committed change is eventually delivered
NextNoStop ==
    \/ Len(log) < 3 /\ \E K \in SUBSET Keys \ {{}} : \E v \in Vals : Commit([k \in K |-> v])
    \/ Start
    \/ \E k \in Keys, s \in Subs : Deliver(k, s)
    \/ Complete \/ Persist
LiveSpec == Init /\ [][NextNoStop]_vars /\ WF_vars(Start) /\ WF_vars(Complete) /\ WF_vars(Persist)
             /\ \A k \in Keys, s \in Subs : WF_vars(Deliver(k, s))
EventuallyAll == \A n \in 0..2 : (n <= Serial) ~> (n <= done)
=============================================================================
