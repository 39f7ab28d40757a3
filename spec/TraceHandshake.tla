---------------------------- MODULE TraceHandshake ----------------------------
(***************************************************************************)
(* Traces of handshake.Handshaker against Handshake: every read and write  *)
(* in the order in which they happened, the result, and at the end how     *)
(* what was written compares with what it should have been.                *)
(***************************************************************************)
EXTENDS Handshake, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == << hvars, s, l >>

SetOf(q) == { q[i] : i \in 1..Len(q) }

Init ==
  \E i \in 1..Len(Trace) :
    /\ s = i /\ l = 1
    /\ ver = Trace[i].ver /\ diff = SetOf(Trace[i].diff) /\ avail = 0 /\ ended = FALSE
    /\ rd = 0 /\ wr = 0 /\ rerr = FALSE /\ werr = FALSE /\ res = "run"

Ev == Trace[s].ev[l]
On(k) == l <= Len(Trace[s].ev) /\ Ev.k = k
Eat == l' = l + 1 /\ s' = s

TSend  == On("send") /\ Eat /\ HSend(Ev.n)
TEnd   == On("end") /\ Eat /\ HEnd
TRead  == On("read") /\ Eat /\ HRead(Ev.n)
\* Bytes with an error: a reader who has all he wants may overlook it.
TReadWith ==
  /\ On("readwith") /\ Eat
  /\ res = "run" /\ ~rerr /\ ~werr /\ rd + Ev.n = avail /\ ended /\ rd + Ev.n <= Total
  /\ rd' = rd + Ev.n
  /\ rerr' \in (IF rd' = Total THEN {FALSE} ELSE BOOLEAN)
  /\ UNCHANGED << ver, diff, avail, ended, wr, werr, res >>
TReadFail  == On("readfail") /\ Eat /\ HReadFail
TWrite     == On("write") /\ Eat /\ HWrite(Ev.n)
TWriteFail == On("writefail") /\ Eat /\ HWriteFail
TOk    == On("ok") /\ Eat /\ HSucceed
TErr   == On("err") /\ Eat /\ HFail
TQuiet == On("quiet") /\ Eat /\ HQuiet /\ UNCHANGED hvars
\* What was written: the version, the first time of S2, the places in which
\* the echoed challenge is not the client's, and how many handshakes before
\* this one sent the same challenge.
TSent  == /\ On("sent") /\ Eat /\ UNCHANGED hvars
          /\ rd = Ev.rd /\ wr = Ev.wr
          /\ wr >= 1 => Ev.ver = Version
          /\ wr >= 1 + Packet + 4 => Ev.time = Trace[s].time
          /\ Ev.diff = << >>
          /\ wr >= 1 + Packet => Ev.again = 0
TDone  == On("done") /\ Eat /\ PrintT(<< "ACCEPTED", Trace[s].id, res >>) /\ UNCHANGED hvars

Next == \/ TSend \/ TEnd \/ TRead \/ TReadWith \/ TReadFail \/ TWrite \/ TWriteFail
        \/ TOk \/ TErr \/ TQuiet \/ TSent \/ TDone

Spec == Init /\ [][Next]_vars
Inv == HTypeOK /\ Faithful
Progress == PrintT(<< "AT", Trace[s].id, l, << rd, wr, res >> >>)
=============================================================================
