------------------------------ MODULE HostileMC ------------------------------
(***************************************************************************)
(* A peer that respects no rule: it sends any chunk headers followed by    *)
(* any number of bytes.  The receiver specified in ChunkReader is never    *)
(* stuck, and is one of those that Receiver allows.                        *)
(* Every wire is printed, for replay into the real reader.                 *)
(***************************************************************************)
EXTENDS ChunkReader, Json

CONSTANTS Csids, Types, Lens, Stamps, Fmts, Tails, MaxChunks, Sizes

VARIABLES k, sending, size0

vars == << rvars, k, sending, size0 >>

HandleIsWire(x) == x

Init == size0 \in Sizes /\ RInit(<< >>, size0) /\ k = 0 /\ sending = TRUE

Headers ==
  { h \in [fmt : Fmts, csid : Csids, ts : Stamps, delta : {FALSE}, len : Lens, type : Types,
           msid : {Zero4}, ext : {<< 0, 0, 1, 0 >>}] :
      /\ h.fmt >= 2 => h.type = 8 /\ h.len = 1
      /\ h.fmt = 3 => h.ts = 0 }

\* The bytes that follow a header, right or wrong.
Tail1(t) == CASE t = "none" -> << >> [] t = "zero4" -> Zero4 [] t = "one4" -> << 0, 0, 0, 1 >>
              [] t = "top4" -> << 255, 255, 255, 255 >> [] t = "b2" -> << 3, 3 >>
              [] t = "self4" -> << 0, 0, 0, 3 >>

Send ==
  /\ sending /\ k < MaxChunks
  /\ \E h \in Headers, t \in Tails : w' = w \o EncHeader(h, FALSE) \o Tail1(t)
  /\ k' = k + 1
  /\ UNCHANGED << avail, ended, pos, size, hdrs, parts, ph, cur, sending, size0 >>

Stop ==
  /\ sending /\ k = MaxChunks
  /\ sending' = FALSE
  /\ PrintT("WIRE " \o ToJson([W |-> w, size |-> size0]))
  /\ avail' = Len(w)
  /\ UNCHANGED << w, ended, pos, size, hdrs, parts, ph, cur, k, size0 >>

Go ==
  /\ ~sending
  /\ \/ RInternal
     \/ ph = "msg" /\ ph' = "hdr" /\ cur' = None
        /\ UNCHANGED << w, avail, ended, pos, size, hdrs, parts >>
     \/ ph = "err" /\ ReportError(cur)
     \/ Quiet /\ End("eof")
  /\ UNCHANGED << k, sending, size0 >>

Next == Send \/ Stop \/ Go
Spec == Init /\ [][Next]_vars

TypeOK == RTypeOK

\* Never stuck: what is not waiting for input can go on.
NotStuck == ~sending /\ ~Quiet => ENABLED Go

\* What is delivered has its declared length.
RECURSIVE Sum(_)
Sum(segs) == IF segs = << >> THEN 0 ELSE segs[1][2] + Sum(Tail(segs))
LengthOK == ph \in {"done", "msg"} => Sum(cur.segs) = cur.h.len

\* This receiver is one that Receiver allows.
R == INSTANCE Receiver WITH
       arrived <- IF sending THEN 0 ELSE avail,
       taken   <- IF sending THEN 0 ELSE IF Quiet \/ ended # "open" THEN avail ELSE pos,
       over    <- ended # "open"
Refines == [][ \/ R!CTake \/ R!CEnd \/ UNCHANGED << avail, pos, ended >>
               \/ sending /\ ~sending' ]_vars
=============================================================================
