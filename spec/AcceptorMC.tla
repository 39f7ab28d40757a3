------------------------------ MODULE AcceptorMC ------------------------------
(***************************************************************************)
(* The server as this repository builds it: a loop that accepts one        *)
(* connection of the backlog after the other, or fails to, and waits until *)
(* somebody has taken the client, or the error.                            *)
(***************************************************************************)
EXTENDS Acceptor, Json, TLC

CONSTANTS MaxOps, History, Shorts

VARIABLES backlog, hand, ops, n
vars == << avars, backlog, hand, ops, n >>

\* hand: the connection in hand, 0, or -1 for an error.
Init == AInit /\ backlog = << >> /\ hand = 0 /\ ops = << >> /\ n = 0

Log(op) == n < MaxOps /\ n' = n + 1 /\ ops' = (IF History THEN Append(ops, op) ELSE ops) /\ UNCHANGED hand
Same == UNCHANGED backlog
Env ==
  \/ ADial /\ backlog' = Append(backlog, dialed') /\ Log("dial")
  \/ ARefused /\ Same /\ Log("dial")
  \/ want < 2 /\ ATake(1) /\ Same /\ Log("take")
  \/ ears = 0 /\ AListen(1) /\ Same /\ Log("listen")
  \/ Shorts /\ AShort(~short) /\ Same /\ Log("short")
  \/ AClose /\ backlog' = << >> /\ Log("close")

Idle == UNCHANGED << ops, n >>
Accept ==
  /\ hand = 0 /\ UNCHANGED avars /\ Idle
  /\ IF closed THEN hand' = -1 /\ Same
     ELSE /\ backlog # << >>
          /\ IF short THEN hand' = -1 /\ Same ELSE hand' = Head(backlog) /\ backlog' = Tail(backlog)
Give == hand > 0 /\ AGive(hand) /\ hand' = 0 /\ Same /\ Idle
Report == hand = -1 /\ AError /\ hand' = 0 /\ Same /\ Idle

Internal == Accept \/ Give \/ Report
Next == Env \/ Internal
Spec == Init /\ [][Next]_vars

TypeOK == ATypeOK
Rest == ~ENABLED Internal => AtRest
Bound == hand > 0 => hand \in Pending
Show == (n = MaxOps /\ ~ENABLED Internal /\ History) => PrintT("WIRE " \o ToJson([ops |-> ops]))
===============================================================================
