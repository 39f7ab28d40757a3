------------------------------ MODULE TraceFanIn ------------------------------
(***************************************************************************)
(* Traces of chunk.MultiStream against FanIn.  In each step operations     *)
(* were started one after the other; res are the answers the consumer had  *)
(* got by the time nothing more happened, in order, as pairs of source and *)
(* number (the end is << 0, 0 >>).                                         *)
(***************************************************************************)
EXTENDS FanIn, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, o, r
vars == << fvars, s, l, o, r >>

Init == \E i \in 1..Len(Trace) : s = i /\ FInit(1..Trace[i].sources) /\ l = 1 /\ o = 0 /\ r = 0

Ev == Trace[s].ev[l]
More == l <= Len(Trace[s].ev)
Step == More /\ Ev.k = "step"
SetOf(q) == { q[i] : i \in 1..Len(q) }

Op(op) ==
  \/ op.o = "send" /\ FSend(op.s, op.n)
  \/ op.o = "over" /\ FOver(op.s)
  \/ op.o = "join" /\ FJoin(SetOf(op.ss))
  \/ op.o = "take" /\ FTake(op.n)
  \/ op.o = "wait" /\ FWait

TOp == Step /\ o < Len(Ev.ops) /\ o' = o + 1 /\ Op(Ev.ops[o + 1]) /\ UNCHANGED << s, l, r >>

TAnswer ==
  /\ Step /\ r < Len(Ev.res) /\ r' = r + 1
  /\ LET x == Ev.res[r + 1] IN
       IF x = << 0, 0 >> THEN FEnd ELSE x[1] \in Sources /\ FDeliver(x[1], x[2])
  /\ UNCHANGED << s, l, o >>

TQuiet ==
  /\ Step /\ o = Len(Ev.ops) /\ r = Len(Ev.res)
  /\ FQuiet /\ (Ev.waited <=> wait = "returned")
  /\ l' = l + 1 /\ o' = 0 /\ r' = 0 /\ UNCHANGED << fvars, s >>

TDone ==
  /\ More /\ Ev.k = "done" /\ PrintT(<< "ACCEPTED", Trace[s].id >>)
  /\ l' = l + 1 /\ UNCHANGED << fvars, s, o, r >>

Next == (FReturn /\ UNCHANGED << s, l, o, r >>) \/ TOp \/ TAnswer \/ TQuiet \/ TDone

Spec == Init /\ [][Next]_vars
Inv == FTypeOK
Progress == PrintT(<< "AT", Trace[s].id, l, wait >>)
=============================================================================
