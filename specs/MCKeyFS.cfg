SPECIFICATION Spec
CONSTANTS
  Keys = {k1, k2}
  Files = {f1}
  Txs = {t1, t2}
  Vals = {v1}
  MaxLog = 3
CONSTRAINT Bound
SYMMETRY Symm
INVARIANT AtMostOneWriter
INVARIANT WriterIsCurrent
INVARIANT BackRefs
INVARIANT NoIdleChange
INVARIANT NoLostUpdate
PROPERTY AppendOnly
PROPERTY Snapshot
PROPERTY OnlyCommitChanges
CHECK_DEADLOCK FALSE
