------------------------------ MODULE RtmpWire ------------------------------
(***************************************************************************)
(* The RTMP chunk header on the wire, byte by byte.                        *)
(*                                                                         *)
(* Bytes are integers 0..255.  TLC integers have 32 bits including the     *)
(* sign, so 32-bit fields (message stream ID, extended timestamp) are kept *)
(* as 4-tuples of bytes, most significant byte first, whatever their byte  *)
(* order on the wire.                                                      *)
(*                                                                         *)
(* A header is a record                                                    *)
(*   fmt   0..3                                                            *)
(*   csid  chunk stream ID                                                 *)
(*   ts    24-bit timestamp field;  delta  whether it is a delta           *)
(*   len   24-bit message length;   type   message type ID                 *)
(*   msid  message stream ID;       ext    extended timestamp              *)
(* with the fields a format omits at zero.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Zero4  == <<0, 0, 0, 0>>
ExtMark == 16777215                     \* 0xFFFFFF
MaxInt == 2147483647

BE2(a, b)    == a * 256 + b
BE3(a, b, c) == (a * 256 + b) * 256 + c

\* The value of a 4-tuple, capped at the largest TLC integer.
Int4(q) == IF q[1] >= 128 THEN MaxInt
           ELSE ((q[1] * 256 + q[2]) * 256 + q[3]) * 256 + q[4]

Enc2(n) == << n \div 256, n % 256 >>
Enc3(n) == << n \div 65536, (n \div 256) % 256, n % 256 >>
Enc4(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Rev4(q) == << q[4], q[3], q[2], q[1] >>

(***************************************************************************)
(* Encoding.  Knob63 = TRUE describes the code's known deviation: chunk    *)
(* stream ID 63 is written as the single byte 0x3F, which this repository  *)
(* (its tests pin it) also uses as the marker of the 3-byte form.  There   *)
(* is no one-byte form left for 63, and no other form can express it.      *)
(***************************************************************************)
EncBasic(fmt, csid, Knob63) ==
  IF csid < 63 \/ (Knob63 /\ csid = 63) THEN << fmt * 64 + csid >>
  ELSE IF csid = 63 THEN << -1 >>                 \* not representable
  ELSE IF csid < 320 THEN << fmt * 64, csid - 64 >>
  ELSE << fmt * 64 + 63 >> \o Enc2(csid - 64)

EncMsg(h) ==
  CASE h.fmt = 0 -> Enc3(h.ts) \o Enc3(h.len) \o << h.type >> \o Rev4(h.msid)
    [] h.fmt = 1 -> Enc3(h.ts) \o Enc3(h.len) \o << h.type >>
    [] h.fmt = 2 -> Enc3(h.ts)
    [] h.fmt = 3 -> << >>

EncExt(h) == IF h.ts = ExtMark THEN h.ext ELSE << >>

EncHeader(h, Knob63) == EncBasic(h.fmt, h.csid, Knob63) \o EncMsg(h) \o EncExt(h)

(***************************************************************************)
(* Decoding from W, a sequence of bytes, of which those up to `to` have    *)
(* arrived, starting after position `pos`.  A decoder result is            *)
(*   ok   whether a complete header is there                               *)
(*   n    the number of bytes it takes                                     *)
(*   h    the header, as it stands on the wire                             *)
(* ExtOn3(csid) says whether a type 3 header on csid carries an extended   *)
(* timestamp.                                                              *)
(***************************************************************************)
NoHeader == [ok |-> FALSE, n |-> 0]

BasicLen(b) == IF b % 64 = 0 THEN 2 ELSE IF b % 64 = 63 THEN 3 ELSE 1

MsgLen(fmt) == CASE fmt = 0 -> 11 [] fmt = 1 -> 7 [] fmt = 2 -> 3 [] fmt = 3 -> 0

DecHeader(W, pos, to, ExtOn3(_)) ==
  IF to <= pos THEN NoHeader ELSE
  LET b   == W[pos + 1]
      fmt == b \div 64
      bl  == BasicLen(b)
      ml  == MsgLen(fmt)
      p   == pos + bl                                  \* before the message header
  IN IF to < p + ml THEN NoHeader ELSE
  LET csid == IF bl = 1 THEN b % 64
              ELSE IF bl = 2 THEN 64 + W[pos + 2]
              ELSE 64 + BE2(W[pos + 2], W[pos + 3])
      ts   == IF fmt = 3 THEN 0 ELSE BE3(W[p + 1], W[p + 2], W[p + 3])
      x    == IF fmt = 3 THEN ExtOn3(csid) ELSE ts = ExtMark
      q    == p + ml
  IN IF x /\ to < q + 4 THEN NoHeader ELSE
     [ ok |-> TRUE,
       n  |-> bl + ml + (IF x THEN 4 ELSE 0),
       h  |-> [ fmt  |-> fmt, csid |-> csid, ts |-> ts, delta |-> fmt \in {1, 2},
                len  |-> IF fmt <= 1 THEN BE3(W[p + 4], W[p + 5], W[p + 6]) ELSE 0,
                type |-> IF fmt <= 1 THEN W[p + 7] ELSE 0,
                msid |-> IF fmt = 0 THEN << W[p + 11], W[p + 10], W[p + 9], W[p + 8] >>
                         ELSE Zero4,
                ext  |-> IF x THEN << W[q + 1], W[q + 2], W[q + 3], W[q + 4] >>
                         ELSE Zero4 ] ]

\* What a header on the wire stands for, given the resolved header that
\* precedes it on its own chunk stream.
Resolve(h, prev) ==
  CASE h.fmt = 0 -> h
    [] h.fmt = 1 -> [h EXCEPT !.msid = prev.msid]
    [] h.fmt = 2 -> [h EXCEPT !.msid = prev.msid, !.len = prev.len, !.type = prev.type]
    [] h.fmt = 3 -> [prev EXCEPT !.fmt = 3, !.ext = h.ext]
=============================================================================
