------------------------------- MODULE CodecMC -------------------------------
(***************************************************************************)
(* The header codec of RtmpWire on boundary values: encoding and decoding  *)
(* are inverses, whatever follows; every proper prefix is incomplete; no   *)
(* encoding is a prefix of another; and the form chosen for the chunk      *)
(* stream ID is the shortest that stands for it.  Every header is printed. *)
(***************************************************************************)
EXTENDS RtmpWire, Json, TLC

CONSTANTS Csids, Stamps, Lens, Types, Msids, Exts

VARIABLE h

NoExtOn3(csid) == FALSE

Domain ==
  { x \in [fmt : 0..3, csid : Csids, ts : Stamps, delta : BOOLEAN, len : Lens, type : Types,
           msid : Msids, ext : Exts] :
      /\ x.delta = (x.fmt \in {1, 2})
      /\ x.fmt > 0 => x.msid = Zero4
      /\ x.fmt > 1 => x.len = 0 /\ x.type = 0
      /\ x.fmt = 3 => x.ts = 0
      /\ x.ts # ExtMark => x.ext = Zero4 }

Init == h \in Domain
Next == FALSE /\ h' = h
Spec == Init /\ [][Next]_h

E == EncHeader(h, FALSE)

Inverse ==
  \A tail \in { << >>, << 0 >>, << 255, 255, 255, 255, 255 >>, E } :
    LET d == DecHeader(E \o tail, 0, Len(E) + Len(tail), NoExtOn3) IN
    d.ok /\ d.n = Len(E) /\ d.h = h

PrefixFree == \A n \in 0..(Len(E) - 1) : ~DecHeader(E, 0, n, NoExtOn3).ok

Bytes == \A i \in 1..Len(E) : E[i] \in 0..255

Shortest ==
  Len(EncBasic(h.fmt, h.csid, FALSE)) =
    (IF h.csid < 63 THEN 1 ELSE IF h.csid < 320 THEN 2 ELSE 3)

Layout ==
  Len(E) = Len(EncBasic(h.fmt, h.csid, FALSE)) + MsgLen(h.fmt) + (IF h.ts = ExtMark THEN 4 ELSE 0)

Q2 == { Zero4, << 128, 1, 2, 255 >> }
Q4 == { Zero4, << 128, 1, 2, 255 >>, << 0, 255, 255, 255 >>, << 255, 255, 255, 255 >> }

Show == PrintT("WIRE " \o ToJson([h |-> h, W |-> E]))
=============================================================================
