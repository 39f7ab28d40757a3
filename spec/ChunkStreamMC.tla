---------------------------- MODULE ChunkStreamMC ----------------------------
(***************************************************************************)
(* A conforming peer and the receiver ChunkReader, put together.  The peer *)
(* knows what it means by what it sends: it records every message it has   *)
(* completed with all its fields, not going through Resolve, and the       *)
(* invariants compare that with what the receiver delivers.                *)
(*                                                                         *)
(* The peer first sends everything (the wire grows), then the bytes arrive *)
(* in fragments and the receiver works on them.  Every complete wire is    *)
(* printed, for replay into the real reader.                               *)
(***************************************************************************)
EXTENDS ChunkReader, Json

CONSTANTS
  Csids, Types, Lens, Msids,
  Stamps,         \* timestamp fields
  Exts,           \* extended timestamps, 4-tuples
  Sizes,          \* initial chunk sizes
  NewSizes,       \* chunk sizes to change to; 0 is an invalid one
  Fmts,           \* header formats messages may start with
  MaxMsgs,        \* number of messages
  Aborts,         \* whether the peer aborts messages
  Frags,          \* fragment lengths; 0 stands for everything at once
  Ends            \* ways the input may end

VARIABLES
  size0,     \* the initial chunk size
  sview,     \* csid -> the last message started there, as the peer knows it
  sopen,     \* csid -> [m, off]: message under way and how much of it is sent
  ssize,     \* the peer's chunk size
  sent,      \* messages completed: [m, at], at being where on the wire
  errsAt,    \* where on the wire invalid control messages end
  n,         \* messages started
  sending,   \* whether the peer is still sending
  out,       \* what the receiver delivered
  errs       \* errors it reported

svars == << size0, sview, sopen, ssize, sent, errsAt, n, sending >>
vars == << rvars, svars, out, errs >>

HandleIsWire(x) == x

Init ==
  /\ size0 \in Sizes
  /\ RInit(<< >>, size0)
  /\ sview = << >> /\ sopen = << >> /\ ssize = size0 /\ sent = << >> /\ errsAt = << >>
  /\ n = 0 /\ sending = TRUE /\ out = << >> /\ errs = << >>

(***************************************************************************)
(* The peer                                                                *)
(***************************************************************************)
\* Payload bytes tell messages and positions apart.
Payload(k, len) == [i \in 1..len |-> 16 * k + i]

\* Sends a chunk of sopen'[c]: the header bytes, then payload.
Piece(m, off) == SubSeq(m.data, off + 1, off + Min(m.len - off, ssize))

Apply(m, at) ==   \* what completing m means to the peer
  CASE m.type = SetChunkSizeType /\ m.data # Zero4 ->
         /\ ssize' = Int4(m.data) /\ UNCHANGED << sent, errsAt >>
    [] m.type = SetChunkSizeType /\ m.data = Zero4 ->
         /\ errsAt' = Append(errsAt, at) /\ UNCHANGED << sent, ssize >>
    [] OTHER ->
         /\ sent' = Append(sent, [m |-> m, at |-> at]) /\ UNCHANGED << ssize, errsAt >>

SendPiece(c, m, off, hdr, open) ==
  LET piece == Piece(m, off)
      wire  == w \o hdr \o piece
      done  == off + Len(piece) = m.len
  IN /\ w' = wire
     /\ IF done
        THEN /\ Apply(m, Len(wire))
             /\ sopen' = LET rest == Drop(open, c) IN
                         IF m.type = AbortType THEN Drop(rest, Int4(m.data)) ELSE rest
        ELSE /\ sopen' = (c :> [m |-> m, off |-> off + Len(piece)]) @@ open
             /\ UNCHANGED << ssize, sent, errsAt >>

\* The messages the peer may start on c, every field chosen; those that a
\* format omits must be what they were in the previous message there.
Candidates(c) ==
  LET ordinary ==
        { [fmt |-> f, csid |-> c, ts |-> t, delta |-> f \in {1, 2}, len |-> len, type |-> ty,
           msid |-> id, ext |-> x, data |-> Payload(n + 1, len)] :
          f \in Fmts, t \in Stamps, len \in Lens, ty \in Types, id \in Msids,
          x \in IF ExtMark \in Stamps THEN Exts \cup {Zero4} ELSE {Zero4} }
      control ==
        { [fmt |-> 0, csid |-> c, ts |-> 0, delta |-> FALSE, len |-> 4, type |-> SetChunkSizeType,
           msid |-> Zero4, ext |-> Zero4, data |-> Enc4(s)] : s \in NewSizes }
        \cup
        IF ~Aborts THEN {} ELSE
        { [fmt |-> 0, csid |-> c, ts |-> 0, delta |-> FALSE, len |-> 4, type |-> AbortType,
           msid |-> Zero4, ext |-> Zero4, data |-> Enc4(v)] : v \in Csids }
      Ok(m) ==
        /\ IF m.ts = ExtMark THEN m.ext \in Exts ELSE m.ext = Zero4
        /\ m.fmt > 0 => c \in DOMAIN sview
        /\ m.fmt > 0 => LET p == sview[c] IN
             /\ m.msid = p.msid
             /\ m.fmt >= 2 => m.len = p.len /\ m.type = p.type
             /\ m.fmt = 3 => m.ts = p.ts
  IN { IF m.fmt = 3 THEN [m EXCEPT !.delta = sview[c].delta] ELSE m :
       m \in { q \in ordinary \cup control : Ok(q) } }

Start(c) ==
  /\ sending /\ n < MaxMsgs /\ c \notin DOMAIN sopen
  /\ \E m \in Candidates(c) :
       /\ SendPiece(c, m, 0, EncHeader(m, FALSE), sopen)
       /\ sview' = (c :> m) @@ sview
  /\ n' = n + 1
  /\ UNCHANGED << size0, sending >>

Continue(c) ==
  /\ sending /\ c \in DOMAIN sopen
  /\ LET o == sopen[c] IN
       SendPiece(c, o.m, o.off, EncHeader([o.m EXCEPT !.fmt = 3], FALSE), sopen)
  /\ UNCHANGED << size0, sview, n, sending >>

StopSending ==
  /\ sending /\ n = MaxMsgs
  /\ sending' = FALSE
  /\ PrintT("WIRE " \o ToJson([W |-> w, size |-> size0]))
  /\ UNCHANGED << w, size0, sview, sopen, ssize, sent, errsAt, n >>

Peer ==
  /\ (\E c \in Csids : Start(c) \/ Continue(c)) \/ StopSending
  /\ UNCHANGED << avail, ended, pos, size, hdrs, parts, ph, cur, out, errs >>

(***************************************************************************)
(* The receiver                                                            *)
(***************************************************************************)
RECURSIVE Gather(_)
Gather(segs) ==
  IF segs = << >> THEN << >>
  ELSE SubSeq(Wire, segs[1][1] + 1, segs[1][1] + segs[1][2]) \o Gather(Tail(segs))

\* The only message that Deliver accepts.
InHand ==
  [ fmt |-> cur.h.fmt, mfmt |-> cur.h.fmt, csid |-> cur.h.csid, ts |-> cur.h.ts,
    delta |-> cur.h.delta, len |-> cur.h.len, type |-> cur.h.type, msid |-> cur.h.msid,
    ext |-> cur.h.ext, data |-> Gather(cur.segs) ]

Receiver ==
  /\ ~sending
  /\ \/ RInternal /\ UNCHANGED << out, errs >>
     \/ ph = "msg" /\ Deliver(InHand) /\ out' = Append(out, InHand) /\ UNCHANGED errs
     \/ ph = "err" /\ ReportError(cur) /\ errs' = Append(errs, cur) /\ UNCHANGED out
  /\ UNCHANGED svars

Network ==
  /\ ~sending
  /\ \/ \E k \in Frags : Arrive(IF k = 0 THEN Len(Wire) ELSE k)
     \/ \E how \in Ends : End(how)
  /\ UNCHANGED << svars, out, errs >>

Next == Peer \/ Receiver \/ Network

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
TypeOK == RTypeOK

NoMal == ph # "mal"          \* what this peer sends is well-formed

Same(o, s) ==
  /\ o.fmt = s.fmt /\ o.csid = s.csid /\ o.ts = s.ts /\ o.delta = s.delta /\ o.len = s.len
  /\ o.type = s.type /\ o.msid = s.msid /\ o.ext = s.ext /\ o.data = s.data

\* C01, C02: what comes out is what the peer completed, in order.
Faithful ==
  /\ Len(out) <= Len(sent)
  /\ \A i \in 1..Len(out) : Same(out[i], sent[i].m)

Upto(seq, k) == Cardinality({ i \in 1..Len(seq) : seq[i] <= k })
SentAts == [i \in 1..Len(sent) |-> sent[i].at]

\* C04: and it comes out as soon as it is complete.
Prompt ==
  ~sending /\ Quiet => Len(out) = Upto(SentAts, avail)

\* C03: chunk sizes change where the peer changes them.
SizesAgree == ~sending /\ Quiet /\ avail = Len(Wire) => size = ssize

Others(s) == SelectSeq(s, LAMBDA e : e = "other")
ErrorsAgree == ~sending /\ Quiet => Len(Others(errs)) = Upto(errsAt, avail)

\* Partial messages are those the peer has under way.
PartsAgree ==
  ~sending /\ Quiet /\ avail = Len(Wire) /\ ph = "hdr" =>
    /\ DOMAIN parts = DOMAIN sopen
    /\ \A c \in DOMAIN parts : parts[c].left = sopen[c].m.len - sopen[c].off

\* C04: the end of the input is reported, once.
EndReported ==
  /\ Len(errs) - Len(Others(errs)) <= 1
  /\ ended = "over" => Len(errs) - Len(Others(errs)) = 1

\* C05, on these wires: the receiver is never stuck.
NotStuck == ~sending /\ ~Quiet => ENABLED Receiver

\* Tuples for the configuration files.
M1 == { << 0, 0, 0, 1 >> }
M2 == { << 0, 0, 0, 1 >>, << 9, 0, 0, 2 >> }
X1 == { << 128, 0, 0, 5 >> }
X2 == { << 128, 0, 0, 5 >>, << 0, 0, 0, 0 >> }
=============================================================================
