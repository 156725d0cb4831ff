------------------------------ MODULE Replica ------------------------------
(* Replication of a primary's changelog and files.                          *)
(*                                                                           *)
(* hist is the history of every server which could answer as the primary:   *)
(* a sequence of changes, one per serial.  A change is a record             *)
(* [d |-> digest of everything changed, f |-> function from the paths of the *)
(* files changed to their content, "" for a removed one].                   *)
(* The replica follows the first server whose changes it got (pinned), its  *)
(* own serial is rn - 1: the changes it has are the first rn of pinned's.   *)
(* Files are transferred independently of the changes: by tasks derived     *)
(* from the changes, processed in any order, repeatedly if they fail, and   *)
(* for requests of files which are missing.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES hist, pinned, rn, rmeta, rfiles, failed

vars == <<hist, pinned, rn, rmeta, rfiles, failed>>

Override(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE ""
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
RECURSIVE Fold(_, _, _)
Fold(m, s, i) == IF i > Len(s) THEN m ELSE Fold(Override(m, s[i].f), s, i + 1)

\* what a server's metadata says about files after its first n changes
MetaOf(s, n) == Fold(<<>>, SubSeq(hist[s], 1, n), 1)
\* the files which have to exist
Expected(m) == Without(m, {p \in DOMAIN m : m[p] = ""})
PMeta(s) == MetaOf(s, Len(hist[s]))

ReplicaInit == pinned = "" /\ rn = 0 /\ rmeta = <<>> /\ rfiles = <<>> /\ failed = {}

\* a transaction on one of the servers
Commit(s, c) ==
    /\ hist' = [hist EXCEPT ![s] = Append(@, c)]
    /\ UNCHANGED <<pinned, rn, rmeta, rfiles, failed>>

\* changes are only taken from the pinned server, in order, complete
MayImport(s, cs) ==
    /\ pinned \in {"", s}
    /\ rn + Len(cs) <= Len(hist[s])
    /\ \A i \in 1..Len(cs) : hist[s][rn + i] = cs[i]
Import(s, cs) ==
    /\ MayImport(s, cs)
    /\ pinned' = s
    /\ rn' = rn + Len(cs)
    /\ rmeta' = Fold(rmeta, cs, 1)
    /\ UNCHANGED <<hist, rfiles, failed>>

\* a file is only stored with the content the metadata names
MayStore(p, c) == At(rmeta, p) /= "" /\ c = rmeta[p]
Store(p, c) ==
    /\ MayStore(p, c)
    /\ rfiles' = Override(rfiles, p :> c)
    /\ failed' = failed \ {p}
    /\ UNCHANGED <<hist, pinned, rn, rmeta>>
MayRemove(p) == p \in DOMAIN rfiles /\ At(rmeta, p) = ""
Remove(p) ==
    /\ MayRemove(p)
    /\ rfiles' = Without(rfiles, {p})
    /\ UNCHANGED <<hist, pinned, rn, rmeta, failed>>
\* received completely, but with another checksum: given up until it is
\* requested or the process starts again
Damaged(p) == failed' = failed \cup {p} /\ UNCHANGED <<hist, pinned, rn, rmeta, rfiles>>
Restart == failed' = {} /\ UNCHANGED <<hist, pinned, rn, rmeta, rfiles>>

-----------------------------------------------------------------------------
IsPrefix == pinned /= "" => rn <= Len(hist[pinned]) /\ rmeta = MetaOf(pinned, rn)
\* paths contain the checksum, so their content never changes: a file on the
\* replica is one the primary had there
NeverWrong == \A p \in DOMAIN rfiles : \E i \in 1..rn : At(hist[pinned][i].f, p) = rfiles[p]
CaughtUp == pinned /= "" /\ rn = Len(hist[pinned])
Converged == CaughtUp /\ Without(rfiles, failed) = Without(Expected(rmeta), failed) /\ DOMAIN rfiles \subseteq DOMAIN Expected(rmeta)
=============================================================================
