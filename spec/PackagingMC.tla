----------------------------- MODULE PackagingMC -----------------------------
(***************************************************************************)
(* A design for Packaging: payloads live in buffers.  Every package gets   *)
(* a buffer of its own (Fresh), as opposed to all that begin alike being   *)
(* built in what is left of one buffer: then the invariant fails.  The     *)
(* histories are printed.                                                  *)
(***************************************************************************)
EXTENDS Packaging, Json, TLC

CONSTANTS Fresh, Max, History

VARIABLES bufs, ref, ops

vars == << packs, bufs, ref, ops >>

O(n) == Val("obj", << >>, << [k |-> << 97 >>, v |-> Num(<< 64, n, 0, 0, 0, 0, 0, 0 >>)] >>)
Messages == { [c |-> "status", vs |-> << O(n) >>] : n \in {1, 2} }
            \cup { [c |-> "createStreamResponse", vs |-> << Zero, Num(<< 64, n, 0, 0, 0, 0, 0, 0 >>) >>] : n \in {1} }
            \cup { [c |-> "dataFrame", vs |-> << Str(<< 1 >>), Str(<< >>), Val("arr", << >>, << >>) >>] }

Shape(m, d) == LET e == Envelope4(m) IN
  [fmt |-> 0, mfmt |-> 0, csid |-> e[1], msid |-> e[2], type |-> e[3], len |-> Len(d), data |-> d]

Init == PInit /\ bufs = << >> /\ ref = << >> /\ ops = << >>
Log(op) == ops' = IF History THEN Append(ops, op) ELSE ops

\* The buffer a package of m goes to.
Buf(m) == IF Fresh \/ ~\E i \in DOMAIN packs : packs[i].m.c = m.c THEN Len(bufs) + 1
          ELSE ref[CHOOSE i \in DOMAIN packs : packs[i].m.c = m.c]

Build(m) ==
  /\ Len(packs) < Max
  /\ LET b == Buf(m) IN
     /\ bufs' = IF b > Len(bufs) THEN Append(bufs, Payload(m)) ELSE [bufs EXCEPT ![b] = Payload(m)]
     /\ ref' = Append(ref, b)
     /\ PBuild(m, Shape(m, bufs'[b]))
  /\ Log([o |-> "build", c |-> m.c])
Scribble(i) ==
  /\ packs[i].own = << >>
  /\ bufs' = [bufs EXCEPT ![ref[i]] = [j \in DOMAIN @ |-> 170]]
  /\ PScribble(i, bufs'[ref[i]]) /\ UNCHANGED ref
  /\ Log([o |-> "scribble", i |-> i])

Next == (\E m \in Messages : Build(m)) \/ \E i \in DOMAIN packs : Scribble(i)
Spec == Init /\ [][Next]_vars

Own == \A i \in DOMAIN packs : Looks(i, Shape(packs[i].m, bufs[ref[i]])) \/ packs[i].own # << >>
Show == (History /\ Len(packs) = Max) => PrintT("WIRE " \o ToJson(ops))
=============================================================================
