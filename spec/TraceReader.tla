----------------------------- MODULE TraceReader -----------------------------
(***************************************************************************)
(* Validation of traces recorded from chunk.Reader against ChunkReader.    *)
(* The trace file has one scenario per line:                               *)
(*   id, W (the wire), size (initial chunk size), ev (the events)          *)
(* A scenario whose every event the specification explains is accepted.    *)
(***************************************************************************)
EXTENDS ChunkReader, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceWire(s) == Trace[s].W

VARIABLE l

vars == << rvars, l >>

Init == \E s \in 1..Len(Trace) : RInit(s, Trace[s].size) /\ l = 1

Ev == Trace[w].ev[l]
On(k) == l <= Len(Trace[w].ev) /\ Ev.k = k
Eat == l' = l + 1

TArrive  == On("feed") /\ Eat /\ IF Ev.n = 0 THEN UNCHANGED rvars ELSE Arrive(Ev.n)
TEnd     == On("end")  /\ Eat /\ End(Ev.how)
TSize    == On("setsize") /\ Eat /\ SetReadSize(Ev.v)
TClose   == On("close") /\ Eat /\ Close
TDeliver == On("msg")  /\ Eat /\ (Deliver(Ev) \/ DeliverMalformed(Ev))
TError   == On("err")  /\ Eat /\ (ReportError(Ev.e) \/ ReportAgain \/ ReportMalformed)
TQuiet   == On("quiet") /\ Eat /\ Quiet /\ Ev.taken = avail /\ UNCHANGED rvars
TGetSize == On("size") /\ Eat /\ (ph = "mal" \/ Ev.v = size) /\ UNCHANGED rvars
TKept    == On("kept") /\ Eat /\ Ev.changed = << >> /\ UNCHANGED rvars
TDone    == On("done") /\ Eat /\ PrintT(<< "ACCEPTED", Trace[w].id, ph >>) /\ UNCHANGED rvars

Next ==
  \/ RInternal /\ UNCHANGED l
  \/ TArrive \/ TEnd \/ TSize \/ TClose \/ TDeliver \/ TError \/ TQuiet \/ TGetSize \/ TKept \/ TDone

Spec == Init /\ [][Next]_vars

Inv == RTypeOK
\* How far each scenario got, for the report on a rejected one.
Progress == PrintT(<< "AT", Trace[w].id, l, ph >>)
=============================================================================
