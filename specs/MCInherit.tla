----------------------------- MODULE MCInherit -----------------------------
(* All inheritance graphs over three indexes and one mirror (bases as       *)
(* sequences without repetition, cyclic ones and such naming a missing      *)
(* index included), all placements of a project, all whitelists.            *)
EXTENDS Inherit, TLC
CONSTANTS Stages, Mirror, Missing,
          Few   \* the indexes with whitelists and placements of the project

VARIABLES ix, has
vars == <<ix, has>>

Targets == Stages \cup {Mirror, Missing}
BaseSeqs == {<<>>} \cup {<<a>> : a \in Targets}
            \cup {<<a, b>> : a \in Targets, b \in Targets}
Lists == {<<>>, <<"p">>}
\* without repetition and in a fixed order
Rank(y) == IF y = "a" THEN 1 ELSE IF y = "b" THEN 2 ELSE IF y = "c" THEN 3 ELSE 4
FewSeqs == {s \in BaseSeqs : /\ Missing \notin SeqSet(s)
                             /\ Len(s) = 2 => Rank(s[1]) < Rank(s[2])}
Config(B, inh, wl) ==
    [x \in Stages \cup {Mirror} |->
        IF x = Mirror THEN [type |-> "mirror"]
        ELSE [type |-> "stage", bases |-> B[x], mirror_whitelist |-> wl[x],
              mirror_whitelist_inheritance |-> inh]]
\* every graph, nothing whitelisted; or few graphs with all whitelists
Init ==
    \/ /\ \E B \in [Stages -> BaseSeqs] : ix = Config(B, "union", [x \in Stages |-> <<>>])
       /\ has = [x \in Stages \cup {Mirror} |-> IF x = Mirror \/ x = "b" THEN {"p"} ELSE {}]
    \/ /\ \E B \in [Few -> FewSeqs], inh \in {"union", "intersection"}, wl \in [Few -> Lists] :
            ix = Config([x \in Stages |-> IF x \in Few THEN B[x] ELSE <<>>], inh,
                        [x \in Stages |-> IF x \in Few THEN wl[x] ELSE <<>>])
       /\ \E h \in [Few \cup {Mirror} -> {{}, {"p"}}] :
            has = [x \in Stages \cup {Mirror} |-> IF x \in Few \cup {Mirror} THEN h[x] ELSE {"p"}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* independent definition of what can be reached
RECURSIVE Reach(_, _)
Reach(S, n) ==
    IF n = 0 THEN S
    ELSE Reach(S \cup {b \in DOMAIN ix : \E x \in S : ix[x].type = "stage" /\ b \in SeqSet(ix[x].bases)}, n - 1)
Dist(x, y) == CHOOSE n \in 0..5 : y \in Reach({x}, n) /\ \A m \in 0..n : y \in Reach({x}, m) => m = n

Pos(s, y) == CHOOSE i \in 1..Len(s) : s[i] = y
SroOk ==
    \A x \in DOMAIN ix :
        LET s == Sro(ix, x) IN
        /\ s[1] = x
        /\ SeqSet(s) = Reach({x}, Cardinality(DOMAIN ix))
        /\ Len(s) = Cardinality(SeqSet(s))
        /\ \A i, j \in 1..Len(s) : i < j /\ i > 1 /\ IsMirror(ix, s[i]) => IsMirror(ix, s[j])
        /\ \A i, j \in 1..Len(s) : i < j /\ ~IsMirror(ix, s[i]) /\ ~IsMirror(ix, s[j])
                => Dist(x, s[i]) <= Dist(x, s[j])
        /\ ix[x].type = "stage" =>
             \A i, j \in 1..Len(ix[x].bases) :
                LET a == ix[x].bases[i]
                    b == ix[x].bases[j] IN
                (i < j /\ {a, b} \subseteq DOMAIN ix /\ a /= b /\ x \notin {a, b} /\ ~IsMirror(ix, a)) =>
                    Pos(s, a) < Pos(s, b) \/ \E k \in 1..(i - 1) : ix[x].bases[k] = b

\* mirrored releases never mix into a private project unless whitelisted
Private ==
    \A x \in DOMAIN ix :
        LET s == Sro(ix, x)
            C == Contributing(ix, has, x, "p")
            stages == {y \in SeqSet(s) : ~IsMirror(ix, y)}
            wls == {SeqSet(ix[y].mirror_whitelist) : y \in stages}
        IN /\ (\A y \in stages : ix[y].mirror_whitelist = <<>>)
                 /\ (\E y \in stages : "p" \in has[y]) => Mirror \notin SeqSet(C) \/ x = Mirror
           \* intersection: the looked up index itself has to list the project
           /\ (x /= Mirror /\ ix[x].mirror_whitelist_inheritance = "intersection"
                 /\ ix[x].mirror_whitelist = <<>> /\ (\E y \in stages : "p" \in has[y]))
                 => Mirror \notin SeqSet(C)
           \* projects without private releases resolve from the mirror
           /\ ((\A y \in stages : "p" \notin has[y]) /\ Mirror \in SeqSet(s) /\ "p" \in has[Mirror])
                 => C = <<Mirror>>
           \* private releases are never hidden
           /\ \A y \in stages : "p" \in has[y] => y \in SeqSet(C)
Inv == SroOk /\ Private
============================================================================
