------------------------------- MODULE Packaging -------------------------------
(***************************************************************************)
(* Outgoing messages of any number of connections, packaged in any order   *)
(* by anybody.  A package is its builder's own: it keeps saying what the   *)
(* message said when it was packaged, unless its owner changes that very   *)
(* package.                                                                *)
(***************************************************************************)
EXTENDS Commands

VARIABLE packs   \* sequence of [m, own]: the message; the owner's content, or << >>

PInit == packs = << >>

\* What package i must look like.
Looks(i, c) ==
  IF packs[i].own = << >> THEN InEnvelope(packs[i].m, c)
  ELSE c.data = packs[i].own /\ Len(c.data) = Len(Payload(packs[i].m))

PBuild(m, c) == InEnvelope(m, c) /\ packs' = Append(packs, [m |-> m, own |-> << >>])
PScribble(i, d) == packs' = [packs EXCEPT ![i].own = d]
\* Looking at a package, or sending it, changes none.
PLook(cs) == Len(cs) = Len(packs) /\ (\A i \in 1..Len(packs) : Looks(i, cs[i])) /\ UNCHANGED packs
=============================================================================
