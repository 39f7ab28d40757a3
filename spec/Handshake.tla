------------------------------- MODULE Handshake -------------------------------
(***************************************************************************)
(* The server's side of the RTMP handshake.                                *)
(*                                                                         *)
(*   client   C0: version   C1: time, zero, challenge   C2: two times, S1's challenge *)
(*   server   S0: version   S1: time, zero, challenge   S2: C1's time, time, C1's challenge *)
(*                                                                         *)
(* The bytes are counted; of the client's it matters what version it names *)
(* and in which places the challenge in C2 differs from the one in S1.     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS TimeLen, PayLen, Version

Packet == TimeLen + PayLen
Total  == 1 + 2 * Packet

VARIABLES
  ver,    \* the client's version
  diff,   \* the places in which the challenge in C2 is not the one in S1
  avail,  \* bytes the client has sent
  ended,  \* and none will follow
  rd, wr, \* bytes read and written
  rerr,   \* a read failed
  werr,   \* a write failed
  res     \* "run" "ok" "err"

hvars == << ver, diff, avail, ended, rd, wr, rerr, werr, res >>

HInit(v) ==
  /\ ver = v /\ diff = {} /\ avail = 0 /\ ended = FALSE
  /\ rd = 0 /\ wr = 0 /\ rerr = FALSE /\ werr = FALSE /\ res = "run"

\* What is to be written once rd bytes have been read.
Due == IF rd = 0 \/ ver # Version THEN 0 ELSE IF rd < 1 + Packet THEN 1 ELSE Total

\* A byte that gives the client away has been read.
SeenBad == \/ rd >= 1 /\ ver # Version
           \/ \E p \in diff : rd >= 1 + Packet + TimeLen + p

(***************************** The client **********************************)
HSend(n)    == ~ended /\ avail' = avail + n /\ UNCHANGED << ver, diff, ended, rd, wr, rerr, werr, res >>
HEnd        == ended' = TRUE /\ UNCHANGED << ver, diff, avail, rd, wr, rerr, werr, res >>
\* C2 is made up once S1 is known.
HAnswer(D)  == diff' = D /\ UNCHANGED << ver, avail, ended, rd, wr, rerr, werr, res >>

(***************************** The server **********************************)
HRead(n)    == /\ res = "run" /\ ~rerr /\ ~werr
               /\ rd + n <= avail /\ rd + n <= Total
               /\ rd' = rd + n
               /\ UNCHANGED << ver, diff, avail, ended, wr, rerr, werr, res >>
HReadFail   == /\ res = "run" /\ ~rerr /\ ~werr /\ rd = avail /\ ended
               /\ rerr' = TRUE
               /\ UNCHANGED << ver, diff, avail, ended, rd, wr, werr, res >>
HWrite(n)   == /\ res = "run" /\ ~rerr /\ ~werr /\ n > 0
               /\ wr + n <= Due
               /\ wr' = wr + n
               /\ UNCHANGED << ver, diff, avail, ended, rd, rerr, werr, res >>
HWriteFail  == /\ res = "run" /\ ~rerr /\ ~werr /\ wr < Due
               /\ werr' = TRUE
               /\ UNCHANGED << ver, diff, avail, ended, rd, wr, rerr, res >>
HSucceed    == /\ res = "run" /\ ~rerr /\ ~werr
               /\ rd = Total /\ wr = Total /\ ~SeenBad
               /\ res' = "ok"
               /\ UNCHANGED << ver, diff, avail, ended, rd, wr, rerr, werr >>
HFail       == /\ res = "run" /\ (rerr \/ werr \/ SeenBad)
               /\ res' = "err"
               /\ UNCHANGED << ver, diff, avail, ended, rd, wr, rerr, werr >>

\* Nothing more happens.
HQuiet == res = "run" => /\ rd = avail /\ ~ended
                         /\ wr = Due
                         /\ rd < Total /\ ~(rd >= 1 /\ ver # Version)

HTypeOK == wr <= Due /\ rd <= Total /\ rd <= avail
Faithful == res = "ok" => ver = Version /\ diff = {} /\ rd = Total /\ wr = Total /\ ~rerr /\ ~werr
=============================================================================
