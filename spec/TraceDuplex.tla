----------------------------- MODULE TraceDuplex -----------------------------
(***************************************************************************)
(* Traces of an endpoint against Duplex.  In each step some operations     *)
(* were started, one after the other, and by the time nothing more         *)
(* happened the following had come of them:                                *)
(*   ins    what the consumer of the delivery channel got, in order        *)
(*   errs   the kinds of the errors that were taken, in order              *)
(*   outs   what was handed to the transport, in order                     *)
(*   acc    how many submissions each submitter has got rid of so far      *)
(*   fed    how many incoming chunks it has taken so far, if known         *)
(*   closed whether close has returned                                     *)
(* "end" is the end of a channel, "?" an error that does not tell its      *)
(* kind.                                                                   *)
(***************************************************************************)
EXTENDS Duplex, Json, IOUtils, TLC

CONSTANTS
  Delivered(_, _),  \* Delivered(x, y): y is what delivering x gives
  Written(_, _),    \* Written(x, y): y is what writing x gives
  WellFed(_)        \* an incoming item is what the scenario says it is

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, o, ri, re, ro   \* ri, re, ro: results of this step accounted for

vars == << xvars, s, l, o, ri, re, ro >>

Init == \E i \in 1..Len(Trace) :
  XInit(1..Trace[i].subs) /\ s = i /\ l = 1 /\ o = 0 /\ ri = 0 /\ re = 0 /\ ro = 0

Ev == Trace[s].ev[l]
More == l <= Len(Trace[s].ev)
Step == More /\ Ev.k = "step"

\* An item of the state is only what Duplex needs, and where the rest is.
Ref(items) == [i \in 1..Len(items) |->
  [bad |-> items[i].bad, p |-> ("p" \in DOMAIN items[i] /\ items[i].p), at |-> << l, o + 1, i >>]]
Item(x) == Trace[s].ev[x.at[1]].ops[x.at[2]].items[x.at[3]]

Op(op) ==
  \/ op.o = "feed" /\ (\A i \in 1..Len(op.items) : WellFed(op.items[i])) = TRUE /\ XFeed(Ref(op.items))
  \/ op.o = "inend" /\ XInEnd
  \/ op.o = "submit" /\ XSubmit(op.s, Ref(op.items))
  \/ op.o = "take" /\ XTake(op.c, op.n)
  \/ op.o = "hold" /\ XHold(op.b)
  \/ op.o = "close" /\ XClose

TOp ==
  /\ Step /\ o < Len(Ev.ops) /\ o' = o + 1
  /\ Op(Ev.ops[o + 1])
  /\ UNCHANGED << s, l, ri, re, ro >>

\* The order in which independent things are accounted for does not matter: one
\* is enough. Operations other than closing and holding only make more possible,
\* so they come first; while the endpoint is open and no operation is left,
\* deliveries, writes and errors have nothing to do with one another except that
\* errors may be of writes.
Ready == (o = Len(Ev.ops) \/ Ev.ops[o + 1].o \in {"close", "hold"}) = TRUE
Calm == o = Len(Ev.ops) /\ ph = "open"
AfterIn == (Ready /\ (Calm => ri = Len(Ev.ins))) = TRUE
AfterOut == (AfterIn /\ (Calm => ro = Len(Ev.outs))) = TRUE

TIn ==
  /\ Step /\ Ready /\ ri < Len(Ev.ins) /\ ri' = ri + 1
  /\ LET y == Ev.ins[ri + 1] IN
     IF y.end THEN XEndOf("in")
     ELSE \E i \in Todo : XDeliver(i) /\ Delivered(Item(inc[i]), y.v) = TRUE
  /\ UNCHANGED << s, l, o, re, ro >>

Kin(bad, e) == e = "?" \/ e = bad

TErr ==
  /\ Step /\ AfterOut /\ re < Len(Ev.errs) /\ re' = re + 1
  /\ LET e == Ev.errs[re + 1] IN
     IF e = "end" THEN XEndOf("errs")
     ELSE \/ \E i \in Todo : Kin(inc[i].bad, e) /\ XErrIn(i)
          \/ \E x \in owed : Kin(x[1], e) /\ XErrOut(x)
  /\ UNCHANGED << s, l, o, ri, ro >>

TOut ==
  /\ Step /\ AfterIn /\ ro < Len(Ev.outs) /\ ro' = ro + 1
  /\ \E k \in Submitters : XWrite(k) /\ Written(Item(Next1(k)), Ev.outs[ro + 1]) = TRUE
  /\ UNCHANGED << s, l, o, ri, re >>

TInternal ==
  /\ Step /\ AfterIn
  /\ XClosed \/ \E k \in Submitters : XSpoilt(k)
  /\ UNCHANGED << s, l, o, ri, re, ro >>

TQuiet ==
  /\ Step /\ o = Len(Ev.ops) /\ ri = Len(Ev.ins) /\ re = Len(Ev.errs) /\ ro = Len(Ev.outs)
  /\ (XQuiet(Ev.acc, Ev.fed) /\ (Ev.closed <=> ph = "closed")) = TRUE
  /\ l' = l + 1 /\ o' = 0 /\ ri' = 0 /\ re' = 0 /\ ro' = 0
  /\ UNCHANGED << xvars, s >>

TDone ==
  /\ More /\ Ev.k = "done" /\ PrintT(<< "ACCEPTED", Trace[s].id, ph >>)
  /\ l' = l + 1 /\ UNCHANGED << xvars, s, o, ri, re, ro >>

Next == TOp \/ TIn \/ TErr \/ TOut \/ TInternal \/ TQuiet \/ TDone
Spec == Init /\ [][Next]_vars

Inv == XTypeOK
Progress == PrintT(<< "AT", Trace[s].id, l, ph >>)
=============================================================================
