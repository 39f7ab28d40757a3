---------------------------- MODULE TraceAcceptor ----------------------------
(***************************************************************************)
(* Traces of a server against Acceptor:                                    *)
(*   dial refused take listen short close   what was done to it            *)
(*   client c   the next client handed out is bound to connection c, or to *)
(*              none that was dialed (0)                                   *)
(*   error      an error was reported                                      *)
(*   rest       nothing more happened                                      *)
(***************************************************************************)
EXTENDS Acceptor, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == << avars, s, l >>

Init == AInit /\ s \in 1..Len(Trace) /\ l = 1

Ev == Trace[s].ev[l]

Next ==
  /\ l <= Len(Trace[s].ev) /\ l' = l + 1 /\ UNCHANGED s
  /\ \/ Ev.k = "dial" /\ ADial
     \/ Ev.k = "refused" /\ ARefused
     \/ Ev.k = "take" /\ ATake(Ev.n)
     \/ Ev.k = "listen" /\ AListen(Ev.n)
     \/ Ev.k = "short" /\ AShort(Ev.on)
     \/ Ev.k = "close" /\ AClose
     \/ Ev.k = "client" /\ AGive(Ev.c)
     \/ Ev.k = "error" /\ AError
     \/ Ev.k = "rest" /\ AtRest = TRUE /\ UNCHANGED avars
     \/ Ev.k = "done" /\ PrintT(<< "ACCEPTED", Trace[s].id >>) /\ UNCHANGED avars

Spec == Init /\ [][Next]_vars
Inv == ATypeOK
Progress == PrintT(<< "AT", Trace[s].id, l >>)
==============================================================================
