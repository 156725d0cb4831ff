------------------------------ MODULE Inherit ------------------------------
(* Resolution of index inheritance.                                          *)
(*   ix:  index name -> configuration with at least                          *)
(*        type ("stage" or "mirror"), bases (sequence of index names),       *)
(*        mirror_whitelist (sequence), mirror_whitelist_inheritance          *)
(*   has: index name -> set of normalized project names known there          *)
EXTENDS Naturals, Sequences, FiniteSets

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Key(cfg, k, default) == IF k \in DOMAIN cfg THEN cfg[k] ELSE default
IsMirror(ix, x) == ix[x].type = "mirror"

\* the bases not met yet, existing, each once, in order
RECURSIVE Fresh(_, _, _)
Fresh(ix, bases, seen) ==
    IF bases = <<>> THEN <<>>
    ELSE LET b == Head(bases) IN
         IF b \in seen \/ b \notin DOMAIN ix THEN Fresh(ix, Tail(bases), seen)
         ELSE <<b>> \o Fresh(ix, Tail(bases), seen \cup {b})

RECURSIVE SroFrom(_, _, _, _)
SroFrom(ix, todo, seen, mirrors) ==
    IF todo = <<>> THEN mirrors
    ELSE LET x == Head(todo)
             new == Fresh(ix, Key(ix[x], "bases", <<>>), seen)
             IsM(b) == IsMirror(ix, b)
             NotM(b) == ~IsMirror(ix, b)
         IN <<x>> \o SroFrom(ix, Tail(todo) \o SelectSeq(new, NotM),
                             seen \cup SeqSet(new), mirrors \o SelectSeq(new, IsM))

\* the resolution order: breadth first, mirrors last
Sro(ix, x) == SroFrom(ix, <<x>>, {x}, <<>>)

(* The indexes contributing to a project, in order.  The whitelists of the   *)
(* non mirror indexes passed so far are combined; once that contains the     *)
(* project (or "*") mirrors stay allowed, otherwise an index with the        *)
(* project blocks the mirrors.                                               *)
RECURSIVE Walk(_, _, _, _, _, _, _, _, _)
Walk(ix, has, todo, inh, wl, first, white, hit, p) ==
    IF todo = <<>> THEN <<>>
    ELSE LET x == Head(todo)
             here == p \in has[x]
         IN IF IsMirror(ix, x)
            THEN (IF here /\ (~hit \/ white) THEN <<x>> ELSE <<>>)
                 \o Walk(ix, has, Tail(todo), inh, wl, first, white, hit, p)
            ELSE LET own == SeqSet(Key(ix[x], "mirror_whitelist", <<>>))
                     w == IF first THEN own
                          ELSE IF inh = "union" THEN wl \cup own ELSE wl \cap own
                     listed == w \cap {"*", p} /= {}
                 IN (IF here THEN <<x>> ELSE <<>>)
                    \o Walk(ix, has, Tail(todo), inh, w, FALSE, white \/ listed,
                            hit \/ (here /\ ~listed), p)

Contributing(ix, has, x, p) ==
    Walk(ix, has, Sro(ix, x), Key(ix[x], "mirror_whitelist_inheritance", "union"),
         {}, TRUE, FALSE, FALSE, p)

\* is the project known anywhere on the way (no whitelist involved)
Known0(ix, has, x, p) == \E y \in SeqSet(Sro(ix, x)) : p \in has[y]
============================================================================
