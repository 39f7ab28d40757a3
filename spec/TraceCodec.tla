------------------------------ MODULE TraceCodec ------------------------------
(***************************************************************************)
(* Headers encoded and decoded by the real code, against RtmpWire.  A      *)
(* scenario is a list of independent observations:                         *)
(*   enc  h, b            the header h was encoded as the bytes b          *)
(*   encb, encm, ence     the same for its parts                           *)
(*   dec  W, ok, n, h     the bytes W were decoded as h, taking n of them  *)
(*   decb, decm, dece     the same for its parts                           *)
(*   cut  h, n, ok        whether the header could be encoded to something *)
(*                        that takes n bytes and no more                   *)
(***************************************************************************)
EXTENDS RtmpWire, Json, IOUtils, TLC

CONSTANT Knob63

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l

vars == << s, l >>

Init == s \in 1..Len(Trace) /\ l = 1

Ev == Trace[s].ev[l]

NoExtOn3(csid) == FALSE

Same(a, b) ==
  /\ a.fmt = b.fmt /\ a.csid = b.csid /\ a.ts = b.ts /\ a.delta = b.delta /\ a.len = b.len
  /\ a.type = b.type /\ a.msid = b.msid /\ a.ext = b.ext

Decoded ==
  LET d == DecHeader(Ev.W, 0, Len(Ev.W), NoExtOn3) IN
  /\ Ev.ok = d.ok
  /\ Ev.ok => Ev.n = d.n /\ Same(Ev.h, d.h) /\ Ev.h.mfmt = d.h.fmt

\* The basic header alone.
DecodedB ==
  LET bl == IF Ev.W = << >> THEN 1 ELSE BasicLen(Ev.W[1])
      d == DecHeader(<< 192 + (Ev.W[1] % 64) >> \o Tail(Ev.W), 0, Len(Ev.W), NoExtOn3)
  IN /\ Ev.ok = (Len(Ev.W) >= bl)
     /\ Ev.ok => Ev.n = bl /\ Ev.h.fmt = Ev.W[1] \div 64 /\ Ev.h.csid = d.h.csid

\* The message header alone, of a known format.
DecodedM ==
  LET n == MsgLen(Ev.h.fmt)
      d == DecHeader(<< Ev.h.fmt * 64 + 3 >> \o Ev.W \o Zero4, 0, Len(Ev.W) + 5, NoExtOn3)
  IN /\ Ev.ok = (Len(Ev.W) >= n)
     /\ Ev.ok => /\ Ev.n = n /\ Ev.h.ts = d.h.ts /\ Ev.h.len = d.h.len /\ Ev.h.type = d.h.type
                 /\ Ev.h.msid = d.h.msid /\ Ev.h.delta = d.h.delta

Explained ==
  CASE Ev.k = "enc"  -> Ev.b = EncHeader(Ev.h, Knob63)
    [] Ev.k = "encb" -> Ev.b = EncBasic(Ev.h.fmt, Ev.h.csid, Knob63)
    [] Ev.k = "encm" -> Ev.b = EncMsg(Ev.h)
    [] Ev.k = "ence" -> Ev.b = Ev.h.ext
    [] Ev.k = "dec"  -> Decoded
    [] Ev.k = "decb" -> DecodedB
    [] Ev.k = "decm" -> DecodedM
    [] Ev.k = "cut"  -> Ev.ok = (Ev.n >= Len(EncHeader(Ev.h, Knob63)))
    [] Ev.k = "dece" -> Ev.ok = (Len(Ev.W) >= 4) /\ (Ev.ok => Ev.n = 4 /\ Ev.h.ext = SubSeq(Ev.W, 1, 4))
    [] Ev.k = "done" -> PrintT(<< "ACCEPTED", Trace[s].id >>)

Next == l <= Len(Trace[s].ev) /\ Explained = TRUE /\ l' = l + 1 /\ UNCHANGED s

Spec == Init /\ [][Next]_vars
Inv == TRUE
Progress == PrintT(<< "AT", Trace[s].id, l >>)
=============================================================================
