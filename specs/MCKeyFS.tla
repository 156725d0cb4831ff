------------------------------ MODULE MCKeyFS ------------------------------
EXTENDS KeyFS
CONSTANT MaxLog
Bound == Len(log) <= MaxLog /\ \A t \in Txs : Cardinality(DOMAIN tx[t].ov) + Cardinality(DOMAIN tx[t].fov) <= 2
Symm == Permutations(Keys) \cup Permutations(Txs) \cup Permutations(Vals)
=============================================================================
