----------------------------- MODULE KeyFSTrace -----------------------------
(* Executions of the real store (driver keyfs_driver.py) against KeyFS.     *)
EXTENDS KeyFS, TraceBase

TrKeys == {"k1", "k2", "k3", "k4", "k5"}
TrFiles == {"f1", "f2", "f3"}
TrTxs == {"t1", "t2", "t3", "t4"}

TraceInit == TraceStart /\ Init

Same == UNCHANGED vars

TBegin ==
    /\ IsEvent("begin")
    /\ Chk("begin.result", "ok", Ev.res)
    /\ IF Ev.write THEN BeginWrite(Ev.t) ELSE BeginRead(Ev.t, Ev.at)
    /\ Chk("begin.at_serial", tx'[Ev.t].at, Ev.at_serial)
TRestart ==
    /\ IsEvent("restart")
    /\ Chk("restart.result", "ok", Ev.res)
    /\ IF Ev.write THEN RestartWrite(Ev.t) ELSE RestartRead(Ev.t)
    /\ Chk("restart.at_serial", tx'[Ev.t].at, Ev.at_serial)
Shown(v) == IF Exists(v) THEN v ELSE "empty"
TGet ==
    /\ IsEvent("get") /\ Same
    /\ Chk("get.value", Shown(View(Ev.t, Ev.k)), Ev.val)
TExists ==
    /\ IsEvent("exists") /\ Same
    /\ Chk("exists", Exists(View(Ev.t, Ev.k)), Ev.val)
TOriginal ==
    /\ IsEvent("original") /\ Same
    /\ Chk("original.serial", LastChange(Ev.k, tx[Ev.t].at), Ev.serial)
    /\ Chk("original.value", Original(Ev.t, Ev.k), Ev.val)
TGetAt ==
    /\ IsEvent("getat") /\ Same
    /\ LET v == ValAt(Ev.k, Ev.at) IN
       IF Exists(v)
       THEN Chk("getat.value", v, Ev.val) /\ Chk("getat.serial", LastChange(Ev.k, Ev.at), Ev.serial)
       ELSE Chk("getat.value", "KeyError", Ev.val)
TLastSerial ==
    /\ IsEvent("lastserial") /\ Same
    /\ Chk("lastserial", IF Exists(Original(Ev.t, Ev.k)) THEN LastChange(Ev.k, tx[Ev.t].at) ELSE -1, Ev.serial)
\* all changes of a key backwards from the serial the transaction reads at
TBack ==
    /\ IsEvent("back") /\ Same
    /\ LET C == Changes(Ev.k, tx[Ev.t].at) IN
       /\ Chk("back.count", Cardinality(C), Len(Ev.chain))
       /\ \A i \in 1..Len(Ev.chain) :
            LET s == Ev.chain[i].serial IN
            /\ Cond("back.serial", s \in C /\ Cardinality({c \in C : c > s}) = i - 1)
            /\ Chk("back.value", log[s+1][Ev.k].val, Ev.chain[i].val)
TSet ==
    /\ IsEvent("set")
    /\ IF tx[Ev.t].mode = "read"
       THEN Chk("set.result", "ReadOnly", Ev.res) /\ Same
       ELSE Chk("set.result", "ok", Ev.res) /\ SetKey(Ev.t, Ev.k, Ev.val)
TDel ==
    /\ IsEvent("del")
    /\ IF tx[Ev.t].mode = "read"
       THEN Chk("del.result", "ReadOnly", Ev.res) /\ Same
       ELSE Chk("del.result", "ok", Ev.res) /\ DelKey(Ev.t, Ev.k)
TFSet ==
    /\ IsEvent("fset") /\ Chk("fset.result", "ok", Ev.res) /\ SetFile(Ev.t, Ev.f, Ev.val)
TFDel ==
    /\ IsEvent("fdel") /\ Chk("fdel.result", "ok", Ev.res) /\ DelFile(Ev.t, Ev.f)
TFGet ==
    /\ IsEvent("fget") /\ Same
    /\ Chk("fget.value", FileView(Ev.t, Ev.f), Ev.val)
    /\ Chk("fget.exists", FileView(Ev.t, Ev.f) /= NoFile, Ev.exists)
    /\ Chk("fget.size", IF FileView(Ev.t, Ev.f) = NoFile THEN "none" ELSE Ev.vsize, Ev.size)
TDoom == IsEvent("doom") /\ Doom(Ev.t)
TCommit ==
    /\ IsEvent("commit")
    /\ Commit(Ev.t)
    /\ Chk("commit.result", "ok", Ev.res)
    /\ IF Effective(Ev.t)
       THEN /\ Chk("commit.serial", Len(log') - 1, Ev.serial)
            /\ Chk("commit.success_listeners", 1, Ev.succ)
       ELSE /\ Chk("commit.serial", -99, Ev.serial)
            /\ Chk("commit.success_listeners", 0, Ev.succ)
    /\ Chk("commit.finished_listeners", 1, Ev.fin)
TRollback ==
    /\ IsEvent("rollback") /\ Rollback(Ev.t)
    /\ Chk("rollback.result", "ok", Ev.res)
    /\ Chk("rollback.success_listeners", 0, Ev.succ)
    /\ Chk("rollback.finished_listeners", 1, Ev.fin)
\* a commit during which the storage failed: nothing happened
TFailedCommit ==
    /\ IsEvent("failedcommit") /\ tx[Ev.t].mode = "write" /\ Rollback(Ev.t)
    /\ Chk("failedcommit.result", "fault", Ev.res)
    /\ Chk("failedcommit.success_listeners", 0, Ev.succ)
TSerial ==
    /\ IsEvent("serial") /\ Same
    /\ Chk("serial", Serial, Ev.serial)
\* the stored changelog entry of a serial
TChanges ==
    /\ IsEvent("changes") /\ Same
    /\ Chk("changes.keys", DOMAIN log[Ev.serial + 1], DOMAIN Ev.changes)
    /\ \A k \in DOMAIN Ev.changes :
          /\ Chk("changes.value", log[Ev.serial + 1][k].val, Ev.changes[k].val)
          /\ Chk("changes.back", log[Ev.serial + 1][k].back, Ev.changes[k].back)
\* the store is closed and opened again: open transactions are gone
TReopen ==
    /\ IsEvent("reopen")
    /\ tx' = [t \in Txs |-> Idle]
    /\ UNCHANGED <<log, files>>
    /\ Chk("reopen.result", "ok", Ev.res)
Gone(v) == IF Exists(v) THEN v ELSE "<gone>"
\* The process died during the write transaction of t1 (phase: while it did
\* its operations, while it committed, after that) and the store was opened
\* again: all of it is there or nothing.
TCrash ==
    /\ IsEvent("crash")
    /\ Chk("crash.recovery", "ok", Ev.res)
    /\ LET t == "t1"
           done == tx[t].mode = "write" /\ Effective(t) /\ Ev.serial = Serial + 1
           log2 == IF done THEN Append(log, Entry(t)) ELSE log
           fls2 == IF done THEN [f \in Files |-> FileView(t, f)] ELSE files
       IN  /\ Chk("crash.serial", Len(log2) - 1, Ev.serial)
           /\ Cond("crash.visible_before_commit", done => Ev.phase \notin {"none", "ops"})
           /\ Cond("crash.lost_after_commit", (tx[t].mode = "write" /\ Effective(t) /\ ~done) => Ev.phase /= "done")
           /\ log' = log2
           /\ \A k \in Keys : LET v == IF LastOf(log2, k) = -1 THEN NoValue ELSE log2[LastOf(log2, k)+1][k].val
                             IN Chk("crash.key " \o k, Gone(v), Ev.keys[k])
           /\ \A f \in Files :
                 IF Ev.files[f] = fls2[f] THEN TRUE
                 \* a new file may already be in place, no metadata refers to it
                 ELSE IF /\ ~done /\ Ev.phase = "commit" /\ fls2[f] = NoFile
                         /\ f \in DOMAIN tx[t].fov /\ Ev.files[f] = tx[t].fov[f]
                 THEN TRUE
                 ELSE Chk("crash.file " \o f, fls2[f], Ev.files[f])
           /\ files' = [f \in Files |-> Ev.files[f]]
    /\ tx' = [t \in Txs |-> Idle]
TState ==
    /\ IsEvent("state") /\ Same
    /\ Chk("state.serial", Serial, Ev.serial)
    /\ \A k \in Keys : Chk("state.key " \o k, Gone(ValAt(k, Serial)), Ev.keys[k])
    /\ \A f \in Files : Chk("state.file " \o f, files[f], Ev.files[f])
\* an already recorded concurrent write transaction: ran alone, at the end
\* of the history, and not before anything that had finished when it started
TAtomicWrite ==
    /\ IsEvent("atomicwrite")
    /\ NoWriter
    /\ Chk("atomicwrite.at_serial", Serial, Ev.at_serial)
    /\ Chk("atomicwrite.serial", Serial + 1, Ev.serial)
    /\ Cond("atomicwrite.realtime", Ev.at_serial >= Ev.lb)
    /\ \A k \in DOMAIN Ev.reads : Chk("atomicwrite.read", Shown(ValAt(k, Serial)), Ev.reads[k])
    /\ log' = Append(log, [k \in DOMAIN Ev.writes |->
                 [val |-> Ev.writes[k], back |-> LastChange(k, Serial)]])
    /\ UNCHANGED <<files, tx>>
TAtomicRead ==
    /\ IsEvent("atomicread") /\ Same
    /\ Cond("atomicread.realtime", Ev.at_serial >= Ev.lb /\ Ev.at_serial <= Serial)
    /\ \A k \in DOMAIN Ev.reads : Chk("atomicread.read", Shown(ValAt(k, Ev.at_serial)), Ev.reads[k])

TraceNext ==
    \/ TBegin \/ TRestart \/ TGet \/ TExists \/ TOriginal \/ TGetAt \/ TLastSerial \/ TBack
    \/ TSet \/ TDel \/ TFSet \/ TFDel \/ TFGet \/ TDoom \/ TCommit \/ TRollback \/ TFailedCommit
    \/ TSerial \/ TChanges \/ TReopen \/ TAtomicWrite \/ TAtomicRead
    \/ TCrash \/ TState
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, traceVars>>
=============================================================================
