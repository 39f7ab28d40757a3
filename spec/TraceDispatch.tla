----------------------------- MODULE TraceDispatch -----------------------------
(***************************************************************************)
(* Traces of the command manager against Dispatch.  In each step some      *)
(* operations were started, one after the other, and by the time nothing   *)
(* more happened the following had come of them:                           *)
(*   outs    what came out: of endpoint e, on channel c ("in", "errs" or   *)
(*           "out", the transport)                                         *)
(*   ends    channels that answered with their end                         *)
(*   acc     how many submissions each endpoint has accepted so far        *)
(*   fed     how many chunks the manager has taken so far                  *)
(*   closed  whether close has returned                                    *)
(* A sweep is one manager given chunks of every type, one after the other, *)
(* and which of them each endpoint reacted to.  A gate is a gate, a chunk  *)
(* and whether the gate was open for it.                                   *)
(***************************************************************************)
EXTENDS Dispatch, Commands, Json, IOUtils, TLC
Gt == INSTANCE Gates

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, o, r, turned
vars == << dvars, s, l, o, r, turned >>

Init == \E i \in 1..Len(Trace) : DInit(Trace[i].mine) /\ s = i /\ l = 1 /\ o = 0 /\ r = 0 /\ turned = FALSE

Ev == Trace[s].ev[l]
More == l <= Len(Trace[s].ev)
Step == More /\ Ev.k = "step"

Of(x) == Class(x.h.csid4, x.h.msid, x.type)
Cmdof(e, x) ==
  CASE e = "conn"   -> ConnCmd(x.data)
    [] e = "stream" -> StreamCmd(x.data)
    [] e = "data"   -> FrameCmd(x.data)
Media(e, x) == e = "data" /\ x.type \in {8, 9}
Good(e, x) == IF Media(e, x) THEN Len(x.data) > 0 ELSE Cmdof(e, x).ok

Ref(items) == [i \in 1..Len(items) |->
  LET e == Of(items[i]) IN
  [to |-> e, bad |-> e # "none" /\ ~Good(e, items[i]), at |-> << l, o + 1, i >>]]
Item(x) == Trace[s].ev[x.at[1]].ops[x.at[2]].items[x.at[3]]

Delivered(e, x, y) ==
  IF Media(e, x) THEN y.name = "media" /\ y.c = [type |-> x.type, h |-> x.h, data |-> x.data]
  ELSE LET c == Cmdof(e, x) IN y.name = c.name /\ AllSame(c.vs, y.vs)

Op(op) ==
  \/ op.o = "feed" /\ DFeed(Ref(op.items))
  \/ op.o = "inend" /\ DInEnd
  \/ op.o = "submit" /\ DSubmit(op.e, [i \in 1..Len(op.items) |-> [at |-> << l, o + 1, i >>]])
  \/ op.o = "take" /\ DTake(op.e, op.c, op.n)
  \/ op.o = "start" /\ DStart(op.e)
  \/ op.o = "bye" /\ DBye(op.e)
  \/ op.o = "close" /\ DClose

TOp ==
  /\ Step /\ o < Len(Ev.ops) /\ o' = o + 1
  /\ Op(Ev.ops[o + 1])
  /\ UNCHANGED << s, l, r, turned >>

\* Operations make more possible and never less, and what comes out of one
\* endpoint has nothing to do with what comes out of another: the order in which
\* the trace has it is as good as any.
TOut ==
  /\ Step /\ o = Len(Ev.ops) /\ r < Len(Ev.outs) /\ r' = r + 1
  /\ LET y == Ev.outs[r + 1] IN
     \/ y.c = "in" /\ \E i \in Todo : DOut(y.e, "in", i) /\ Delivered(y.e, Item(inc[i]), y.v) = TRUE
     \/ y.c = "errs" /\ \E i \in Todo : DOut(y.e, "errs", i)
     \/ y.c = "out" /\ DWrite(y.e) /\ InEnvelope(Item(Next1(y.e)), y.v) = TRUE
  /\ UNCHANGED << s, l, o, turned >>

TTurn ==
  /\ Step /\ o = Len(Ev.ops) /\ r = Len(Ev.outs) /\ ~turned /\ turned' = TRUE
  /\ \E S \in SUBSET { e \in E : MayStop(e) } : DTurn(Ev.closed, S)
  /\ UNCHANGED << s, l, o, r >>

TEnd ==
  /\ Step /\ turned /\ r < Len(Ev.outs) + Len(Ev.ends) /\ r' = r + 1
  /\ LET y == Ev.ends[r + 1 - Len(Ev.outs)] IN DEndOf(y.e, y.c)
  /\ UNCHANGED << s, l, o, turned >>

TQuiet ==
  /\ Step /\ turned /\ r = Len(Ev.outs) + Len(Ev.ends)
  /\ (ph = "closed") = Ev.closed
  /\ DQuiet(Ev.acc, Ev.fed)
  /\ l' = l + 1 /\ o' = 0 /\ r' = 0 /\ turned' = FALSE /\ UNCHANGED s

Ranged(q) == { q[i] : i \in 1..Len(q) }
TOther ==
  /\ More
  /\ \/ Ev.k = "sweep" /\ (\A e \in E : Ranged(Ev.got[e]) = { t \in 0..255 : Class(Ev.csid, Ev.msid, t) = e }) = TRUE
     \/ Ev.k = "gate" /\ Ev.open = Gt!Open(Ev.g, Ev.c)
     \/ Ev.k = "done" /\ PrintT(<< "ACCEPTED", Trace[s].id, ph >>)
  /\ l' = l + 1 /\ UNCHANGED << dvars, s, o, r, turned >>

Next == TOp \/ TOut \/ TTurn \/ TEnd \/ TQuiet \/ TOther
Spec == Init /\ [][Next]_vars

Inv == DTypeOK
Progress == PrintT(<< "AT", Trace[s].id, l, ph >>)
===============================================================================
