------------------------------- MODULE SessionMC -------------------------------
(***************************************************************************)
(* A session as this repository builds it: the handshake, then a loop that *)
(* reads messages one at a time and hands each to its chunk stream's       *)
(* consumer: the control stream's loop, or a forwarder per chunk stream    *)
(* from which the manager's loop takes it and hands it to its endpoint's.  *)
(* Checked: what comes out is in order, and this comes to rest only where  *)
(* Session allows it to.                                                   *)
(***************************************************************************)
EXTENDS Session, Json, TLC

CONSTANTS MaxOps, MaxIn, History, Kinds,
  Shaken   \* start after a successful handshake, with everything running

VARIABLES arriving, \* messages the client has sent and their place
          hand, next, fwd, disp, ehand, ops, n
vars == << svars, arriving, hand, next, fwd, disp, ehand, ops, n >>
dvars == << hand, next, fwd, disp, ehand >>

Csids == {3, 4, 5, 8}
Item(k) ==
  CASE k = "ctl"    -> [csid |-> 2, to |-> "ctl", bad |-> FALSE]
    [] k = "ctlbad" -> [csid |-> 2, to |-> "ctl", bad |-> TRUE]
    [] k = "conn3"  -> [csid |-> 3, to |-> "conn", bad |-> FALSE]
    [] k = "conn8"  -> [csid |-> 8, to |-> "conn", bad |-> FALSE]
    [] k = "str4"   -> [csid |-> 4, to |-> "stream", bad |-> FALSE]
    [] k = "str8"   -> [csid |-> 8, to |-> "stream", bad |-> FALSE]
    [] k = "data4"  -> [csid |-> 4, to |-> "data", bad |-> FALSE]
    [] k = "none5"  -> [csid |-> 5, to |-> "none", bad |-> FALSE]
    [] k = "else"   -> [csid |-> 6, to |-> "none", bad |-> FALSE]
Used == { Item(k).to : k \in Kinds } \ {"none"}

Init ==
  /\ IF Shaken THEN ver = Version /\ diff = {} /\ sent = H!Total /\ over = FALSE /\ rd = H!Total /\ wr = H!Total
                    /\ rerr = FALSE /\ werr = FALSE /\ res = "ok" /\ called = TRUE
                    /\ inc = << >> /\ ind = {} /\ on \in {{"ctl", "cmd"}, {"ctl"}, {"cmd"}}
                    /\ sub = [o \in O |-> << >>] /\ wrt = [o \in O |-> 0] /\ want = [o \in O |-> [c \in Chans |-> 0]]
     ELSE \E v \in {Version, Version + 1} : SInit(v)
  /\ arriving = 0 /\ hand = 0 /\ next = 1
  /\ fwd = [c \in Csids |-> 0] /\ disp = 0 /\ ehand = [o \in O |-> 0] /\ ops = << >> /\ n = 0

Log(op) == n < MaxOps /\ n' = n + 1 /\ ops' = IF History THEN Append(ops, op) ELSE ops
Idle == UNCHANGED << ops, n >>

\* Messages are one byte each, after the handshake's.
After == IF sent > H!Total THEN sent - H!Total ELSE 0
Env ==
  /\ UNCHANGED dvars
  /\ \/ SCall /\ UNCHANGED arriving /\ Log([o |-> "call"])
     \/ \E k \in {1, 1 + H!Packet, H!Total, H!Total + 1} :
          sent < k /\ SSend(k - sent) /\ UNCHANGED arriving /\ Log([o |-> "send", to |-> k])
     \/ sent >= H!Total /\ After < MaxIn /\ SSend(1) /\ UNCHANGED arriving /\ Log([o |-> "more"])
     \/ ~over /\ SEnd /\ UNCHANGED arriving /\ Log([o |-> "end"])
     \/ diff = {} /\ sent < H!Total /\ ver = Version /\ SAnswer({1}) /\ UNCHANGED arriving /\ Log([o |-> "differ"])
     \/ \E b \in {"ctl", "cmd"} : SStart(b) /\ UNCHANGED arriving /\ Log([o |-> "start", b |-> b])
     \/ \E o \in Used, c \in Chans : (c = "errs" => \E k \in Kinds : Item(k).bad /\ Item(k).to = o) /\ want[o][c] < 2
          /\ STake(o, c, 1) /\ UNCHANGED arriving /\ Log([o |-> "take", e |-> o, c |-> c])
     \/ \E o \in Used : sub[o] = << >> /\ res = "ok" /\ SSubmit(o, << 1 >>) /\ UNCHANGED arriving /\ Log([o |-> "submit", e |-> o])

\* A byte after the handshake becomes a message.
Arrive ==
  /\ arriving < After /\ arriving' = arriving + 1
  /\ \E k \in Kinds : SMessage(Item(k)) /\ ops' = (IF History THEN Append(ops, [o |-> "msg", k |-> k]) ELSE ops)
  /\ UNCHANGED << dvars, n >>

Shake ==
  /\ UNCHANGED << arriving, dvars >> /\ Idle
  /\ \/ \E m \in 1..H!Total : rd + m <= (IF rd = 0 THEN 1 ELSE IF rd < 1 + H!Packet THEN 1 + H!Packet ELSE H!Total)
                              /\ ~H!SeenBad /\ wr = H!Due /\ SShake(H!HRead(m))
     \/ ~H!SeenBad /\ wr = H!Due /\ rd < H!Total /\ SShake(H!HReadFail)
     \/ SShake(H!HWrite(H!Due - wr))
     \/ SShake(H!HSucceed) \/ SShake(H!HFail)

\* The loops. arriving messages are read in order, one in hand.
Quiet == UNCHANGED << arriving >> /\ Idle
Read ==
  /\ res = "ok" /\ hand = 0 /\ next <= Len(inc)
  /\ hand' = (IF inc[next].csid = 6 /\ ~Wedges THEN 0 ELSE next) /\ next' = next + 1
  /\ UNCHANGED << svars, fwd, disp, ehand >> /\ Quiet
PassCtl ==
  /\ hand # 0 /\ inc[hand].csid = 2 /\ "ctl" \in on /\ ehand["ctl"] = 0
  /\ ehand' = [ehand EXCEPT !["ctl"] = hand] /\ hand' = 0
  /\ UNCHANGED << svars, next, fwd, disp >> /\ Quiet
PassCmd ==
  /\ hand # 0 /\ inc[hand].csid \in Csids /\ fwd[inc[hand].csid] = 0
  /\ fwd' = [fwd EXCEPT ![inc[hand].csid] = hand] /\ hand' = 0
  /\ UNCHANGED << svars, next, disp, ehand >> /\ Quiet
Dispatch == \E c \in Csids :
  /\ "cmd" \in on /\ disp = 0 /\ fwd[c] # 0
  /\ disp' = (IF inc[fwd[c]].to = "none" THEN 0 ELSE fwd[c]) /\ fwd' = [fwd EXCEPT ![c] = 0]
  /\ UNCHANGED << svars, hand, next, ehand >> /\ Quiet
Pass ==
  /\ disp # 0 /\ ehand[inc[disp].to] = 0
  /\ ehand' = [ehand EXCEPT ![inc[disp].to] = disp] /\ disp' = 0
  /\ UNCHANGED << svars, hand, next, fwd >> /\ Quiet
Give == \E o \in O :
  /\ ehand[o] # 0 /\ want[o][Chan(ehand[o])] > 0 /\ ehand' = [ehand EXCEPT ![o] = 0]
  /\ SOut(o, Chan(ehand[o]), ehand[o])
  /\ UNCHANGED << hand, next, fwd, disp >> /\ Quiet
Write == \E o \in O : ehand[o] = 0 /\ SWrite(o) /\ UNCHANGED dvars /\ Quiet

Internal == Arrive \/ Shake \/ Read \/ PassCtl \/ PassCmd \/ Dispatch \/ Pass \/ Give \/ Write
Next == Env \/ Internal
Spec == Init /\ [][Next]_vars

TypeOK == STypeOK
\* What can be given away may come out: the design never hands over out of turn.
InTurn == \A o \in O : ehand[o] # 0 => First(ehand[o])
Rest == ~ENABLED Internal => AtRest
Show == (n = MaxOps /\ ~ENABLED Internal /\ History) => PrintT("WIRE " \o ToJson([ver |-> ver, ops |-> ops]))
================================================================================
