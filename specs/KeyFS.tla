------------------------------- MODULE KeyFS -------------------------------
(* The transactional key/value store with files (keyfs.py and the storage   *)
(* backends).  The committed state is a sequence of changelog entries; an   *)
(* entry maps every key changed in that serial to its value and the serial  *)
(* of the previous change.  Serials start at 0, so entry i is log[i+1].     *)
(*                                                                          *)
(* A transaction is opened at a serial, keeps an overlay of uncommitted     *)
(* writes, and ends by commit, rollback or by being doomed.  At most one    *)
(* write transaction exists at any time (write lock taken when opened).     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Files, Txs, Vals

NoValue == "<absent>"     \* the key was never written (as seen at a serial)
Deleted == "<deleted>"    \* tombstone
NoFile  == "<nofile>"

VARIABLES log,     \* committed changelog
          files,   \* committed file contents
          tx       \* tx[t] : state of transaction slot t

vars == <<log, files, tx>>

Idle == [mode |-> "idle", at |-> -1, ov |-> <<>>, fov |-> <<>>, doomed |-> FALSE]

Serial == Len(log) - 1

\* serials in which k changed, up to s
Changes(k, s) == {i \in 0..(IF s < Serial THEN s ELSE Serial) : k \in DOMAIN log[i+1]}
LastChange(k, s) ==
    LET C == Changes(k, s) IN IF C = {} THEN -1 ELSE CHOOSE i \in C : \A j \in C : j <= i
LastOf(lg, k) ==
    LET C == {i \in 1..Len(lg) : k \in DOMAIN lg[i]} IN IF C = {} THEN -1 ELSE (CHOOSE i \in C : \A j \in C : j <= i) - 1
ValAt(k, s) == LET c == LastChange(k, s) IN IF c = -1 THEN NoValue ELSE log[c+1][k].val

\* what transaction t sees
View(t, k) == IF k \in DOMAIN tx[t].ov THEN tx[t].ov[k] ELSE ValAt(k, tx[t].at)
Original(t, k) == ValAt(k, tx[t].at)
Exists(v) == v \notin {NoValue, Deleted}
FileView(t, f) == IF f \in DOMAIN tx[t].fov THEN tx[t].fov[f] ELSE files[f]

Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]

NoWriter == \A t \in Txs : tx[t].mode /= "write"
Active(t) == tx[t].mode /= "idle"

Init ==
    /\ log = <<>>
    /\ files = [f \in Files |-> NoFile]
    /\ tx = [t \in Txs |-> Idle]

\* at = -2 means: no serial requested, use the newest one
BeginRead(t, at) ==
    /\ tx[t].mode = "idle"
    /\ tx' = [tx EXCEPT ![t] = [Idle EXCEPT !.mode = "read",
                                            !.at = IF at = -2 THEN Serial ELSE at]]
    /\ UNCHANGED <<log, files>>

BeginWrite(t) ==
    /\ tx[t].mode = "idle"
    /\ NoWriter
    /\ tx' = [tx EXCEPT ![t] = [Idle EXCEPT !.mode = "write", !.at = Serial]]
    /\ UNCHANGED <<log, files>>

\* a read transaction continues at the newest serial, for reading or writing
RestartRead(t) ==
    /\ tx[t].mode = "read"
    /\ tx' = [tx EXCEPT ![t].at = Serial]
    /\ UNCHANGED <<log, files>>
RestartWrite(t) ==
    /\ tx[t].mode = "read"
    /\ NoWriter
    /\ tx' = [tx EXCEPT ![t] = [Idle EXCEPT !.mode = "write", !.at = Serial]]
    /\ UNCHANGED <<log, files>>

SetKey(t, k, v) ==
    /\ tx[t].mode = "write"
    /\ tx' = [tx EXCEPT ![t].ov = Put(tx[t].ov, k, v)]
    /\ UNCHANGED <<log, files>>
DelKey(t, k) == SetKey(t, k, Deleted)

SetFile(t, f, c) ==
    /\ tx[t].mode = "write"
    /\ tx' = [tx EXCEPT ![t].fov = Put(tx[t].fov, f, c)]
    /\ UNCHANGED <<log, files>>
DelFile(t, f) == SetFile(t, f, NoFile)

Doom(t) ==
    /\ Active(t)
    /\ tx' = [tx EXCEPT ![t].doomed = TRUE]
    /\ UNCHANGED <<log, files>>

\* keys whose new value differs from the one at the start of the transaction
Changed(t) == {k \in DOMAIN tx[t].ov : tx[t].ov[k] /= Original(t, k)}
Effective(t) ==
    /\ tx[t].mode = "write"
    /\ ~tx[t].doomed
    /\ Changed(t) /= {} \/ DOMAIN tx[t].fov /= {}
Entry(t) == [k \in Changed(t) |->
                [val |-> tx[t].ov[k], back |-> LastChange(k, tx[t].at)]]

Commit(t) ==
    /\ Active(t)
    /\ IF Effective(t)
       THEN /\ log' = Append(log, Entry(t))
            /\ files' = [f \in Files |-> FileView(t, f)]
       ELSE UNCHANGED <<log, files>>
    /\ tx' = [tx EXCEPT ![t] = Idle]

Rollback(t) ==
    /\ Active(t)
    /\ tx' = [tx EXCEPT ![t] = Idle]
    /\ UNCHANGED <<log, files>>

Next ==
    \E t \in Txs :
        \/ BeginRead(t, -2)
        \/ \E s \in 0..Serial : BeginRead(t, s)
        \/ BeginWrite(t)
        \/ RestartRead(t)
        \/ RestartWrite(t)
        \/ \E k \in Keys : DelKey(t, k) \/ \E v \in Vals : SetKey(t, k, v)
        \/ \E f \in Files : DelFile(t, f) \/ \E v \in Vals : SetFile(t, f, v)
        \/ Doom(t)
        \/ Commit(t)
        \/ Rollback(t)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design *)

AtMostOneWriter == Cardinality({t \in Txs : tx[t].mode = "write"}) <= 1

\* a writer always starts from everything committed before it
WriterIsCurrent == \A t \in Txs : tx[t].mode = "write" => tx[t].at = Serial

\* committed history is append only, one serial at a time
AppendOnly == [][/\ Len(log') \in {Len(log), Len(log) + 1}
                 /\ SubSeq(log', 1, Len(log)) = log]_vars

\* back references chain all changes of a key
BackRefs == \A i \in 1..Len(log) : \A k \in DOMAIN log[i] :
               log[i][k].back = LastChange(k, i - 2)

\* an entry never records a change that is none
NoIdleChange == \A i \in 1..Len(log) : \A k \in DOMAIN log[i] :
                   log[i][k].val /= ValAt(k, i - 2)

\* what an open transaction sees of committed data never changes under it
Snapshot == [][\A t \in Txs : (tx[t].mode = "read" /\ tx'[t].mode = "read" /\ tx'[t].at = tx[t].at)
                  => \A k \in Keys : View(t, k) = View(t, k)']_vars

\* nothing of a transaction is visible outside before its commit
OnlyCommitChanges == [][(files' /= files \/ log' /= log) =>
                          \E t \in Txs : Effective(t) /\ tx'[t] = Idle]_vars

\* lost updates: the value a writer read is the committed one when it commits
NoLostUpdate == \A t \in Txs : tx[t].mode = "write" =>
                   \A k \in Keys : Original(t, k) = ValAt(k, Serial)
=============================================================================
