---------------------------- MODULE NotifyTrace ----------------------------
(* Recorded deliveries (notify_driver.py) against Notify.                   *)
EXTENDS Notify, TraceBase

TrKeys == {"k1", "k2", "k3", "k4", "k5"}
TrSubs == {"a", "b", "c"}
TrSubscribed(s, k) == \/ s = "a" /\ k \in {"k1", "k2", "k3"}
                      \/ s = "b" /\ k \in {"k1", "k4"}
                      \/ s = "c" /\ k \in {"k1", "k2", "k3", "k4"}

TraceInit == TraceStart /\ Init
Quiet(i) == i \in complete \/ Needed(i) = {}
\* steps which are not recorded: deliveries of a serial are complete, progress
\* is written, a serial nobody subscribed to is passed
TCommit ==
    /\ IsEvent("commit")
    /\ Chk("commit.serial", Serial + 1, Ev.serial)
    /\ Commit(Ev.changes)
TDeliver ==
    /\ IsEvent("deliver")
    /\ LET s == Ev.serial
           comp == IF Finished THEN complete \cup {cur} ELSE complete
           g == IF cur = s THEN got ELSE {}
       IN  /\ Cond("deliver.not_committed", s >= 0 /\ s <= Serial)
           /\ Cond("deliver.not_visible", Ev.visible >= s)
           /\ Cond("deliver.progress_not_ahead", Ev.done >= done /\ \A i \in (done + 1)..Ev.done :
                       i \in comp \/ Needed(i) = {})
           /\ Cond("deliver.progress_before_delivery", Ev.done < s)
           /\ Cond("deliver.skipped", \A i \in (Ev.done + 1)..(s - 1) : i \in comp \/ Needed(i) = {})
           /\ Cond("deliver.order", s >= order)
           /\ Cond("deliver.previous_incomplete", cur = -1 \/ cur = s \/ Finished)
           /\ Cond("deliver.unexpected", <<Ev.k, Ev.sub>> \in Needed(s))
           /\ Chk("deliver.value", log[s+1][Ev.k].val, Ev.val)
           /\ Chk("deliver.back_serial", log[s+1][Ev.k].back, Ev.back)
           /\ done' = Ev.done /\ cur' = s /\ order' = s
           /\ got' = g \cup {<<Ev.k, Ev.sub>>}
           /\ complete' = comp
           /\ UNCHANGED log
\* progress as read from disk: never ahead of complete deliveries
TProgress ==
    /\ IsEvent("progress")
    /\ LET comp == IF Finished THEN complete \cup {cur} ELSE complete IN
       /\ Cond("progress.range", Ev.done >= done /\ Ev.done <= Serial)
       /\ Cond("progress.ahead", \A i \in (done + 1)..Ev.done : i \in comp \/ Needed(i) = {})
       /\ done' = Ev.done
       /\ complete' = comp
       /\ UNCHANGED <<log, cur, got, order>>
TStop ==
    /\ IsEvent("stop")
    /\ LET comp == IF Finished THEN complete \cup {cur} ELSE complete IN
       /\ complete' = comp
       /\ cur' = -1 /\ got' = {} /\ order' = -1
       /\ UNCHANGED <<log, done>>
\* the thread has nothing more to do
TSettled ==
    /\ IsEvent("settled")
    /\ LET comp == IF Finished THEN complete \cup {cur} ELSE complete IN
       /\ Cond("settled.all_delivered", \A i \in 0..Serial : i \in comp \/ Needed(i) = {})
       /\ Chk("settled.progress", Serial, Ev.done)
       /\ done' = Ev.done /\ complete' = comp /\ cur' = -1 /\ got' = {}
       /\ UNCHANGED <<log, order>>
\* a waiter for a serial was released
TWaited ==
    /\ IsEvent("waited")
    /\ LET comp == IF Finished THEN complete \cup {cur} ELSE complete IN
       Cond("waited.too_early", \A i \in 0..Ev.serial : i \in comp \/ Needed(i) = {})
    /\ UNCHANGED vars
TraceNext == TCommit \/ TDeliver \/ TProgress \/ TStop \/ TSettled \/ TWaited
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, traceVars>>
=============================================================================
