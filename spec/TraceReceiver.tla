---------------------------- MODULE TraceReceiver ----------------------------
(* Traces of receivers that are given hostile input, against Receiver.     *)
EXTENDS Receiver, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l

vars == << cvars, s, l >>

Init == s \in 1..Len(Trace) /\ l = 1 /\ CInit

Ev == Trace[s].ev[l]
On(k) == l <= Len(Trace[s].ev) /\ Ev.k = k
Eat == l' = l + 1 /\ s' = s

Next ==
  \/ On("feed")  /\ Eat /\ CArrive(Ev.n)
  \/ On("end")   /\ Eat /\ CEnd
  \/ On("msg")   /\ Eat /\ CDeliver(Ev.len, Ev.dlen)
  \/ On("err")   /\ Eat /\ CReport
  \* By then the receiver has taken Ev.taken bytes.
  \/ On("quiet") /\ Eat /\ arrived = Ev.taken /\ taken' = Ev.taken /\ CTake /\ UNCHANGED << arrived, over >>
  \/ On("done")  /\ Eat /\ PrintT(<< "ACCEPTED", Trace[s].id >>) /\ UNCHANGED cvars

Spec == Init /\ [][Next]_vars

Inv == taken <= arrived
Progress == PrintT(<< "AT", Trace[s].id, l >>)
=============================================================================
