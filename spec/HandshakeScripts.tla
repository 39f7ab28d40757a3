--------------------------- MODULE HandshakeScripts ---------------------------
(***************************************************************************)
(* Clients' scripts: how the client's bytes are cut, where the input ends, *)
(* where a write fails and where the answer is wrong, at reduced lengths,  *)
(* against a server that does at once whatever Handshake lets it do.       *)
(***************************************************************************)
EXTENDS Handshake, Sequences, Json, TLC

CONSTANTS MaxCuts

VARIABLES cuts, d, wfail
vars == << hvars, cuts, d, wfail >>

Init ==
  /\ \E v \in {Version, Version + 1} : HInit(v)
  /\ cuts = << >>
  /\ d \in SUBSET (1..PayLen)
  /\ wfail \in {-1} \cup {0, 1, 2, 1 + Packet, Total - 1}

Serve ==
  \/ \E n \in 1..(Total - rd) : rd + n = avail /\ HRead(n)
  \/ HReadFail
  \/ wr < Due /\ wfail = wr /\ HWriteFail
  \/ wr < Due /\ wfail > wr /\ wfail < Due /\ HWrite(wfail - wr)
  \/ wr < Due /\ ~(wfail >= wr /\ wfail < Due) /\ HWrite(Due - wr)
  \/ HSucceed
  \/ HFail

Client ==
  /\ ~ENABLED Serve
  /\ res = "run"
  /\ \/ \E n \in 1..(Total - avail) :
          /\ avail + n > 1 + Packet => wr = Total
          /\ IF avail + n > 1 + Packet /\ diff = {}
             THEN ~ended /\ avail' = avail + n /\ diff' = d /\ UNCHANGED << ver, ended, rd, wr, rerr, werr, res >>
             ELSE HSend(n)
          /\ Len(cuts) < MaxCuts
          /\ cuts' = Append(cuts, n)
     \/ ~ended /\ HEnd /\ UNCHANGED cuts

Next == (Serve /\ UNCHANGED << cuts, d, wfail >>) \/ (Client /\ UNCHANGED << d, wfail >>)
Spec == Init /\ [][Next]_vars

TypeOK == HTypeOK /\ Faithful
Rest == ~ENABLED Serve => HQuiet
Show == (res # "run") =>
  PrintT("WIRE " \o ToJson([ver |-> ver, cuts |-> cuts, diff |-> d, wfail |-> wfail, ended |-> ended, res |-> res]))
=============================================================================
