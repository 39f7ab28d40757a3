----------------------------- MODULE TraceWriter -----------------------------
(***************************************************************************)
(* Validation of traces recorded from chunk.Writer against ChunkWriter.    *)
(* A scenario may use several writers (connections); it is one line per    *)
(* connection: id, W (what reached its transport), size, ev.               *)
(***************************************************************************)
EXTENDS ChunkWriter, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceOut(s) == Trace[s].W

VARIABLE l

vars == << wvars, l >>

Init == \E s \in 1..Len(Trace) : WInit(s, Trace[s].size) /\ l = 1

Ev == Trace[ow].ev[l]
On(k) == l <= Len(Trace[ow].ev) /\ Ev.k = k
Eat == l' = l + 1

\* Messages are listed once and referred to by number, as several calls may
\* write the same one.
Msg(i) == Trace[ow].msgs[i]

Next ==
  \/ On("call")  /\ Eat /\ WriteCalled(Ev.g, Msg(Ev.i))
  \/ On("ret")   /\ Eat /\ Ev.e = "nil" /\ Returned(Ev.g, TRUE)
  \/ On("ret")   /\ Eat /\ Ev.e = "fail" /\ Returned(Ev.g, FALSE)
  \/ On("size")  /\ Eat /\ SizeCalled(Ev.n)
  \/ On("sized") /\ Eat /\ SizeReturned(Ev.n)
  \/ On("get")   /\ Eat /\ Ev.n \in osizes /\ UNCHANGED wvars
  \/ On("kept")  /\ Eat /\ Ev.changed = << >> /\ UNCHANGED wvars
  \/ On("done")  /\ Eat /\ Idle /\ PrintT(<< "ACCEPTED", Trace[ow].id >>) /\ UNCHANGED wvars
  \/ UNCHANGED l /\ \E g \in DOMAIN writing :
       Emit(g) \/ EmitNothing(g) \/ (Trace[ow].cut >= opos /\ EmitFails(g, Trace[ow].cut - opos))

Spec == Init /\ [][Next]_vars

Inv == WTypeOK
Progress == PrintT(<< "AT", Trace[ow].id, l, opos >>)
=============================================================================
