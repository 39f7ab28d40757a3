---------------------------- MODULE ControlCodec ----------------------------
(***************************************************************************)
(* The six protocol control messages and their payloads.  A message is a   *)
(* record with the type t and the fields                                   *)
(*   v     the 32-bit number of types 1, 2, 3, 5 and 6, as four bytes      *)
(*   x     the limit type of type 6                                        *)
(*   e     the 16-bit event type of type 4, as two bytes                   *)
(*   body  the rest of an event                                            *)
(* and zeroes and empty sequences for the fields a type does not have.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Types == 1..6

Zero4 == << 0, 0, 0, 0 >>

Msg(t, v, x, e, body) == [t |-> t, v |-> v, x |-> x, e |-> e, body |-> body]

\* A chunk size of more than 24 bits is sent as the largest 24-bit one.
Cap(t, v) == IF t = 1 /\ v[1] # 0 THEN << 0, 255, 255, 255 >> ELSE v

Capped(m) == [m EXCEPT !.v = Cap(m.t, m.v)]

Payload(m) ==
  CASE m.t \in {1, 2, 3, 5} -> Cap(m.t, m.v)
    [] m.t = 4              -> m.e \o m.body
    [] m.t = 6              -> m.v \o << m.x >>

\* The least a payload of a type must have.
Needs(t) == CASE t \in {1, 2, 3, 5} -> 4 [] t = 4 -> 2 [] t = 6 -> 5

Refused(t, d) == t \notin Types \/ Len(d) < Needs(t)

\* What an acceptable payload stands for.
Parsed(t, d) ==
  CASE t \in {1, 2, 3, 5} -> Msg(t, Cap(t, SubSeq(d, 1, 4)), 0, << 0, 0 >>, << >>)
    [] t = 4 -> Msg(t, Zero4, 0, SubSeq(d, 1, 2), SubSeq(d, 3, Len(d)))
    [] t = 6 -> Msg(t, SubSeq(d, 1, 4), d[5], << 0, 0 >>, << >>)

\* Payloads that say more than their type has room for, and chunk sizes of more
\* than 24 bits, may be refused as well.
MayRefuse(t, d) ==
  \/ t # 4 /\ Len(d) > Needs(t)
  \/ t = 1 /\ d[1] # 0

\* The chunk a message travels in.
Envelope(c, m) ==
  /\ c.fmt = 0 /\ c.mfmt = 0 /\ c.csid = 2 /\ c.msid = Zero4
  /\ c.type = m.t /\ c.len = Len(Payload(m)) /\ c.data = Payload(m)
=============================================================================
