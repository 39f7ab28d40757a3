-------------------------------- MODULE FanInMC --------------------------------
(***************************************************************************)
(* Combined streams as chunk.MultiStream builds them: a forwarder for each *)
(* source that holds one message at a time, and a count of forwarders.     *)
(* Checked: this implements FanIn and only rests where FanIn allows it to. *)
(***************************************************************************)
EXTENDS FanIn, Json, TLC

CONSTANTS Srcs, MaxOps, MaxSent, History

VARIABLES
  given,   \* source -> messages its forwarder has taken out of it
  fwd,     \* source -> number of the message its forwarder holds, or 0
  live,    \* sources whose forwarders have not ended
  closed,  \* the combined stream has been closed
  ops, n

vars == << fvars, given, fwd, live, closed, ops, n >>

Init ==
  /\ FInit(Srcs) /\ given = [s \in Srcs |-> 0] /\ fwd = [s \in Srcs |-> 0]
  /\ live = {} /\ closed = FALSE /\ ops = << >> /\ n = 0

Log(op) == n < MaxOps /\ n' = n + 1 /\ ops' = IF History THEN Append(ops, op) ELSE ops
Same == UNCHANGED << given, fwd, live, closed >>
Idle == UNCHANGED << ops, n >>

Env ==
  \/ \E s \in Srcs : sent[s] < MaxSent /\ FSend(s, 1) /\ Log([o |-> "send", s |-> s, n |-> 1]) /\ Same
  \/ \E s \in Srcs : FOver(s) /\ Log([o |-> "over", s |-> s]) /\ Same
  \/ \E S \in (SUBSET Srcs) \ {{}} :
       FJoin(S) /\ Log([o |-> "join", ss |-> S]) /\ live' = live \cup S /\ UNCHANGED << given, fwd, closed >>
  \/ FTake(1) /\ Log([o |-> "take", n |-> 1]) /\ Same
  \/ FWait /\ Log([o |-> "wait"]) /\ Same

Fetch == \E s \in live :
  /\ fwd[s] = 0 /\ given[s] < sent[s]
  /\ fwd' = [fwd EXCEPT ![s] = given[s] + 1] /\ given' = [given EXCEPT ![s] = @ + 1]
  /\ UNCHANGED << fvars, live, closed >> /\ Idle
Give == \E s \in live :
  /\ fwd[s] > 0 /\ FDeliver(s, fwd[s]) /\ fwd' = [fwd EXCEPT ![s] = 0]
  /\ UNCHANGED << given, live, closed >> /\ Idle
Finish == \E s \in live :
  /\ s \in over /\ given[s] = sent[s] /\ fwd[s] = 0
  /\ live' = live \ {s} /\ UNCHANGED << fvars, given, fwd, closed >> /\ Idle
CloseOut ==
  /\ wait = "called" /\ live = {} /\ FReturn /\ closed' = TRUE
  /\ UNCHANGED << given, fwd, live >> /\ Idle
GiveEnd == closed /\ FEnd /\ Same /\ Idle

Internal == Fetch \/ Give \/ Finish \/ CloseOut \/ GiveEnd
Next == Env \/ Internal
Spec == Init /\ [][Next]_vars

TypeOK == FTypeOK
Rest == ~ENABLED Internal => FQuiet
Show == (n = MaxOps /\ ~ENABLED Internal /\ History) => PrintT("WIRE " \o ToJson(ops))
=============================================================================
