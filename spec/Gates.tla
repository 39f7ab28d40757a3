--------------------------------- MODULE Gates ---------------------------------
(***************************************************************************)
(* Gates are conditions on chunks, alone or combined.                      *)
(*   k    "csid" "msid" "type" "all" "any"                                 *)
(*   n    the ID (four bytes) or type a chunk must have                    *)
(*   gs   the members of a combination                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Open(_, _)
Open(g, c) ==
  CASE g.k = "csid" -> c.csid = g.n
    [] g.k = "msid" -> c.msid = g.n
    [] g.k = "type" -> << c.type >> = g.n
    [] g.k = "all"  -> Len(g.gs) > 0 /\ \A i \in 1..Len(g.gs) : Open(g.gs[i], c)
    [] g.k = "any"  -> \E i \in 1..Len(g.gs) : Open(g.gs[i], c)
================================================================================
