----------------------------- MODULE TraceBase -----------------------------
(* Reading recorded executions and deciding whether they are accepted.      *)
(* A trace file holds a sequence of traces, a trace is a sequence of events *)
(* (records with a field ev).  Every trace is validated independently: the  *)
(* initial state chooses the trace id tid, l is the next event.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

AllTraces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l
traceVars == <<tid, l>>

Tr == AllTraces[tid]
Ev == Tr[l]
TraceStart == tid \in 1..Len(AllTraces) /\ l = 1 /\ TLCSet(tid, 1)
IsEvent(e) == l <= Len(Tr) /\ Tr[l].ev = e /\ l' = l + 1 /\ UNCHANGED tid

(* A named comparison of what the specification expects with what was       *)
(* observed: a failing one is reported.                                     *)
Chk(name, expected, observed) ==
    IF expected = observed THEN TRUE
    ELSE PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(l) \o " " \o name
                 \o ": expected " \o ToString(expected) \o " observed " \o ToString(observed)) /\ FALSE
Cond(name, c) ==
    IF c THEN TRUE
    ELSE PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(l) \o " " \o name) /\ FALSE

(* A deviation of the implementation that is a recorded finding.            *)
Known(name) == PrintT("KNOWN " \o ToString(tid) \o " " \o ToString(l) \o " " \o name)

(* highest position reached per trace, kept in TLC registers (1 worker)     *)
TraceProgress == IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE
TraceAccepted ==
    /\ \A t \in 1..Len(AllTraces) :
        IF TLCGet(t) = Len(AllTraces[t]) + 1 THEN TRUE
        ELSE PrintT("STUCK " \o ToString(t) \o " " \o ToString(TLCGet(t)) \o " " \o ToString(Len(AllTraces[t])))
    /\ PrintT("TRACESCHECKED " \o ToString(Len(AllTraces)))
TraceSet(seq) == {seq[i] : i \in 1..Len(seq)}
Has(r, f) == f \in DOMAIN r
============================================================================
