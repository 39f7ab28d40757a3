------------------------------ MODULE DispatchMC ------------------------------
(***************************************************************************)
(* A manager as this repository builds it: one loop that takes a chunk or  *)
(* the request to close, hands the chunk to the loop of its endpoint when  *)
(* that is free, and stops the endpoints one after the other when it has   *)
(* ended.  Checked: this comes to rest only where Dispatch allows it to,   *)
(* and the gates it uses are the classes.                                  *)
(***************************************************************************)
EXTENDS Dispatch, Gates, Json, TLC

CONSTANTS MaxOps, MaxIn, History, Classes, Bads

VARIABLES hand, next, over, ehand, ops, n
vars == << dvars, hand, next, over, ehand, ops, n >>

(* The gates of the three endpoints. *)
G(k, m) == [k |-> k, n |-> m, gs |-> << >>]
AllOf(gs) == [k |-> "all", n |-> << >>, gs |-> gs]
AnyOf(gs) == [k |-> "any", n |-> << >>, gs |-> gs]
Gate(e) ==
  CASE e = "conn"   -> AnyOf(<< G("csid", Id(3)), AllOf(<< G("csid", Id(8)), G("msid", Id(0)) >>) >>)
    [] e = "stream" -> AllOf(<< AnyOf(<< G("csid", Id(4)), AllOf(<< G("csid", Id(8)), G("msid", Id(1)) >>) >>), G("type", << 20 >>) >>)
    [] e = "data"   -> AllOf(<< G("csid", Id(4)), AnyOf(<< G("type", << 8 >>), G("type", << 9 >>), G("type", << 18 >>) >>) >>)
ASSUME \A cs \in 2..9, ms \in 0..2, ty \in 0..255 :
         LET c == [csid |-> Id(cs), msid |-> Id(ms), type |-> ty]
         IN \A e \in E : Open(Gate(e), c) <=> Class(c.csid, c.msid, ty) = e

Init ==
  /\ \E m \in BOOLEAN : DInit(m)
  /\ hand = 0 /\ next = 1 /\ over = FALSE /\ ehand = [e \in E |-> 0] /\ ops = << >> /\ n = 0

Log(op) == n < MaxOps /\ n' = n + 1 /\ ops' = IF History THEN Append(ops, op) ELSE ops
Same == UNCHANGED << hand, next, over, ehand >>
Idle == UNCHANGED << ops, n >>

Used == Classes \ {"none"}
Env ==
  /\ Same
  /\ \/ Len(inc) < MaxIn /\ \E t \in Classes, b \in Bads :
          DFeed(<< [to |-> t, bad |-> b] >>) /\ Log([o |-> "feed", to |-> t, bad |-> b])
     \/ DInEnd /\ Log([o |-> "inend"])
     \/ \E e \in Used : Len(sub[e]) < 1 /\ live[e] # "stopped" /\ DSubmit(e, << 1 >>) /\ Log([o |-> "submit", e |-> e])
     \/ \E e \in Used, c \in {"in"} \cup (IF TRUE \in Bads THEN {"errs"} ELSE {}) :
          want[e][c] < 2 /\ DTake(e, c, 1) /\ Log([o |-> "take", e |-> e, c |-> c])
     \/ \E e \in Used : DStart(e) /\ Log([o |-> "start", e |-> e])
     \/ \E e \in Used : DBye(e) /\ Log([o |-> "bye", e |-> e])
     \/ DClose /\ Log([o |-> "close"])

Fetch ==
  /\ ~over /\ hand = 0 /\ next <= Len(inc)
  /\ hand' = (IF inc[next].to = "none" THEN 0 ELSE next) /\ next' = next + 1
  /\ UNCHANGED << dvars, over, ehand >> /\ Idle
Pass ==
  /\ hand # 0 /\ LET e == inc[hand].to IN
       live[e] = "yes" /\ ehand[e] = 0 /\ ehand' = [ehand EXCEPT ![e] = hand]
  /\ hand' = 0 /\ UNCHANGED << dvars, next, over >> /\ Idle
Give == \E e \in E :
  /\ ehand[e] # 0 /\ DOut(e, Chan(ehand[e]), ehand[e]) /\ ehand' = [ehand EXCEPT ![e] = 0]
  /\ UNCHANGED << hand, next, over >> /\ Idle
Write == \E e \in E : ehand[e] = 0 /\ DWrite(e) /\ Same /\ Idle
Shut ==
  /\ ~over /\ hand = 0 /\ ph = "closing" /\ DTurn(TRUE, {}) /\ over' = TRUE
  /\ UNCHANGED << hand, next, ehand >> /\ Idle
Before(e) == IF e = "conn" THEN {} ELSE IF e = "stream" THEN {"conn"} ELSE {"conn", "stream"}
Stop == \E e \in E :
  /\ live[e] = "yes" /\ ehand[e] = 0
  /\ e \in bye \/ (mine /\ over /\ \A d \in Before(e) : live[d] = "stopped")
  /\ DTurn(FALSE, {e}) /\ Same /\ Idle
EndOf == \E e \in E, c \in Chans : DEndOf(e, c) /\ Same /\ Idle

Internal == Fetch \/ Pass \/ Give \/ Write \/ Shut \/ Stop \/ EndOf
Next == Env \/ Internal
Spec == Init /\ [][Next]_vars

TypeOK == DTypeOK
Rest == ~ENABLED Internal => AtRest(wrt, next - 1)
Show == (n = MaxOps /\ ~ENABLED Internal /\ History) => PrintT("WIRE " \o ToJson([mine |-> mine, ops |-> ops]))
===============================================================================
