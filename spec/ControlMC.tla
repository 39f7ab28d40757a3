------------------------------ MODULE ControlMC ------------------------------
(***************************************************************************)
(* ControlCodec on boundary values: a packaged message parses as itself,   *)
(* every prefix that is too short is refused, no two messages share a      *)
(* chunk (chunk sizes above the cap apart).  Every message is printed.     *)
(***************************************************************************)
EXTENDS ControlCodec, Json, TLC

CONSTANTS Numbers, Limits, Events, Bodies

VARIABLE m

Domain ==
  { Msg(t, v, 0, << 0, 0 >>, << >>) : t \in {1, 2, 3, 5}, v \in Numbers }
  \cup { Msg(6, v, x, << 0, 0 >>, << >>) : v \in Numbers, x \in Limits }
  \cup { Msg(4, Zero4, 0, e, b) : e \in Events, b \in Bodies }

Init == m \in Domain
Next == FALSE /\ m' = m
Spec == Init /\ [][Next]_m

P == Payload(m)

Survives == ~Refused(m.t, P) /\ Parsed(m.t, P) = Capped(m)
Again == Payload(Parsed(m.t, P)) = P
Short == \A n \in 0..(Len(P) - 1) : Refused(m.t, SubSeq(P, 1, n)) = (n < Needs(m.t))
Bytes == \A i \in 1..Len(P) : P[i] \in 0..255
Room == (m.t # 4) => Len(P) = Needs(m.t)
Told == \A o \in Domain : (o.t = m.t /\ Payload(o) = P) => Capped(o) = Capped(m)

Q == { Zero4, << 0, 0, 0, 1 >>, << 0, 0, 1, 0 >>, << 0, 128, 0, 0 >>, << 0, 255, 255, 254 >>,
       << 0, 255, 255, 255 >>, << 1, 0, 0, 0 >>, << 1, 2, 3, 4 >>, << 127, 255, 255, 255 >>,
       << 128, 0, 0, 0 >>, << 255, 255, 255, 255 >> }
E == { << 0, 0 >>, << 0, 3 >>, << 0, 255 >>, << 1, 0 >>, << 3, 2 >>, << 255, 255 >> }
B == { << >>, << 0 >>, << 1, 2, 3, 4 >>, << 0, 0, 0, 1, 0, 0, 11, 184 >>, [i \in 1..300 |-> i % 256] }

Show == PrintT("WIRE " \o ToJson(m))
=============================================================================
