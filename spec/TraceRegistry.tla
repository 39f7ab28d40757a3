----------------------------- MODULE TraceRegistry -----------------------------
(***************************************************************************)
(* Concurrent requests to chunk.Parser against the registry of Demux: each *)
(* request takes effect at one moment between its call and its return,     *)
(* while messages that have been fed make their chunk streams exist at     *)
(* moments of their own.  In the end every message is where it belongs.    *)
(***************************************************************************)
EXTENDS Demux, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  s, l,
  open   \* calls that have not taken effect: thread -> index of the call event

vars == << dvars, s, l, open >>

Init == DInit /\ s \in 1..Len(Trace) /\ l = 1 /\ open = NoFn

Ev == Trace[s].ev[l]
On(k) == l <= Len(Trace[s].ev) /\ Ev.k = k
Eat == l' = l + 1 /\ s' = s

\* The return that answers the call at index i.
RetOf(i) ==
  LET t == Trace[s].ev[i].t
      S == { j \in (i + 1)..Len(Trace[s].ev) : Trace[s].ev[j].k = "ret" /\ Trace[s].ev[j].t = t }
  IN Trace[s].ev[Min(S)]

TFeed == On("feed") /\ Eat /\ DFeed(Ev.items) /\ UNCHANGED open
TCall == On("call") /\ Eat /\ open' = Put(open, Ev.t, l) /\ UNCHANGED dvars
TEffect ==
  \E t \in DOMAIN open :
    /\ open[t] > 0
    /\ DRequest(Trace[s].ev[open[t]].ids, RetOf(open[t]).h)
    /\ open' = [open EXCEPT ![t] = 0]
    /\ UNCHANGED << s, l >>
TRet == On("ret") /\ Eat /\ open[Ev.t] = 0 /\ UNCHANGED << dvars, open >>

\* Message Ev.n came out of stream Ev.h.
TGot ==
  /\ On("got") /\ Eat /\ UNCHANGED open
  /\ Ev.n \in Left /\ Suits(Ev.h, Ev.n)
  /\ got' = Put(got, Ev.n, Ev.h)
  /\ UNCHANGED << src, endless, exist, own, sole, want, ended, ph, late >>

TDone ==
  /\ On("done") /\ Eat /\ Left = {} /\ PrintT(<< "ACCEPTED", Trace[s].id >>) /\ UNCHANGED << dvars, open >>

Next ==
  \/ TFeed \/ TCall \/ TRet \/ TEffect \/ TGot \/ TDone
  \/ Unreached # {} /\ DReach(Min(Unreached)) /\ UNCHANGED << s, l, open >>

Spec == Init /\ [][Next]_vars
Inv == DTypeOK
Progress == PrintT(<< "AT", Trace[s].id, l >>)
=============================================================================
