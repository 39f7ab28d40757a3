--------------------------- MODULE TracePackaging ---------------------------
(***************************************************************************)
(* A history of packaging by the real code:                                *)
(*   build     m, c       m was packaged as c                              *)
(*   refuse    m          m could not be packaged and was not              *)
(*   scribble  i, d       its owner filled package i with d                *)
(*   look      cs         what the packages are by now                     *)
(***************************************************************************)
EXTENDS Packaging, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == << packs, s, l >>

Init == s \in 1..Len(Trace) /\ l = 1 /\ PInit
Ev == Trace[s].ev[l]

Next ==
  /\ l <= Len(Trace[s].ev) /\ l' = l + 1 /\ UNCHANGED s
  /\ \/ Ev.k = "build" /\ PBuild(Ev.m, Ev.c)
     \/ Ev.k = "refuse" /\ Ev.ok = FALSE /\ UNCHANGED packs
     \/ Ev.k = "scribble" /\ PScribble(Ev.i, Ev.d)
     \/ Ev.k = "look" /\ PLook(Ev.cs)
     \/ Ev.k = "done" /\ PrintT(<< "ACCEPTED", Trace[s].id >>) /\ UNCHANGED packs
Spec == Init /\ [][Next]_vars
Inv == \A i \in DOMAIN packs : packs[i].m.c \in {"connectResponse", "createStreamResponse", "status", "dataFrame"}
Progress == PrintT(<< "AT", Trace[s].id, l >>)
=============================================================================
