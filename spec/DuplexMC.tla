------------------------------- MODULE DuplexMC -------------------------------
(***************************************************************************)
(* Endpoints as this repository builds them: one loop that takes a chunk,  *)
(* a submission or the request to close, whichever it likes, and deals     *)
(* with it before it takes anything else.  Checked: this implements Duplex *)
(* and comes to rest only where Duplex allows it to.                       *)
(***************************************************************************)
EXTENDS Duplex, Json, TLC

CONSTANTS Subs, MaxOps, MaxIn, MaxSub, History

VARIABLES
  hand,   \* what the loop is dealing with: << >>, << "in", i >>, << "errin", i >>,
          \* << "write", k >> or << "errout", x >>
  next,   \* next incoming chunk
  over,   \* the loop has ended
  ops, n

vars == << xvars, hand, next, over, ops, n >>

Init ==
  /\ XInit(Subs) /\ hand = << >> /\ next = 1 /\ over = FALSE /\ ops = << >> /\ n = 0

Log(op) == n < MaxOps /\ n' = n + 1 /\ ops' = IF History THEN Append(ops, op) ELSE ops
Same == UNCHANGED << hand, next, over >>
Idle == UNCHANGED << ops, n >>

Env ==
  /\ Same
  /\ \/ Len(inc) < MaxIn /\ \E b \in {"", "parse"} :
          XFeed(<< [bad |-> b] >>) /\ Log([o |-> "feed", bad |-> b])
     \/ XInEnd /\ Log([o |-> "inend"])
     \/ \E k \in Subs : Len(sub[k]) < MaxSub /\ ph # "closed" /\ \E b \in {"", "pack", "write"} :
          XSubmit(k, << [bad |-> b, p |-> b = "pack"] >>) /\ Log([o |-> "submit", s |-> k, bad |-> b])
     \/ \E c \in Chans : XTake(c, 1) /\ Log([o |-> "take", c |-> c])
     \/ XHold(~held) /\ Log([o |-> "hold", b |-> ~held])
     \/ XClose /\ Log([o |-> "close"])

Free == ~over /\ hand = << >>

Fetch ==
  /\ Free /\ next <= Len(inc)
  /\ hand' = << IF inc[next].bad = "" THEN "in" ELSE "errin", next >> /\ next' = next + 1
  /\ UNCHANGED << xvars, over >> /\ Idle
Give ==
  /\ hand # << >>
  /\ \/ hand[1] = "in" /\ XDeliver(hand[2])
     \/ hand[1] = "errin" /\ XErrIn(hand[2])
     \/ hand[1] = "errout" /\ XErrOut(hand[2])
  /\ hand' = << >> /\ UNCHANGED << next, over >> /\ Idle
Accept ==
  /\ Free
  /\ \E k \in Subs :
       /\ wrt[k] < Len(sub[k])
       /\ IF Pack(Next1(k))
          THEN XSpoilt(k) /\ hand' = << "errout", << Next1(k).bad, k, wrt[k] + 1 >> >>
          ELSE XWrite(k) /\ hand' = << "write", << Next1(k).bad, k, wrt[k] + 1 >> >>
  /\ UNCHANGED << next, over >> /\ Idle
Wrote ==
  /\ hand # << >> /\ hand[1] = "write" /\ ~busy
  /\ hand' = IF hand[2][1] = "" THEN << >> ELSE << "errout", hand[2] >>
  /\ UNCHANGED << xvars, next, over >> /\ Idle
Shut ==
  /\ Free /\ XClosed /\ over' = TRUE /\ UNCHANGED << hand, next >> /\ Idle
EndOf ==
  /\ over /\ Ends /\ \E c \in Chans : XEndOf(c)
  /\ Same /\ Idle

Internal == Fetch \/ Give \/ Accept \/ Wrote \/ Shut \/ EndOf
Next == Env \/ Internal
Spec == Init /\ [][Next]_vars

TypeOK == XTypeOK
Rest == ~ENABLED Internal => XQuiet(wrt, next - 1)
Show == (n = MaxOps /\ ~ENABLED Internal /\ History) => PrintT("WIRE " \o ToJson(ops))
=============================================================================
