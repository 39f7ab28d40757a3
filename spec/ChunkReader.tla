----------------------------- MODULE ChunkReader -----------------------------
(***************************************************************************)
(* The receiver of a chunk stream (chunk.Reader with its Normalizer and    *)
(* Builders) as a transducer: bytes arrive, messages and errors come out.  *)
(*                                                                         *)
(* Properties decided with it: C01 C02 C03 C04 C05 C23.                    *)
(***************************************************************************)
EXTENDS RtmpWire, FiniteSets, TLC

CONSTANT WireOf(_)      \* the bytes a wire handle stands for

VARIABLES
  w,        \* handle of the wire this receiver reads
  avail,    \* number of its bytes that have arrived
  ended,    \* "open", "once" (the next read at the end fails, once), "eof" or
            \* "fail" (every such read does), "over" (and it has been reported)
  pos,      \* number of bytes consumed
  size,     \* maximum payload of one chunk
  hdrs,     \* chunk stream ID -> last resolved header
  parts,    \* chunk stream ID -> partially received message
  ph,       \* what the receiver is about to do, see below
  cur       \* the chunk or message in hand

rvars == << w, avail, ended, pos, size, hdrs, parts, ph, cur >>

(***************************************************************************)
(* ph = "hdr"   read a chunk header                                        *)
(*      "pay"   read the payload of the chunk cur = [csid, n]              *)
(*      "done"  the message cur has been completed                         *)
(*      "msg"   deliver the message cur                                    *)
(*      "err"   report an error; cur says which                            *)
(*      "mal"   the wire has broken the protocol: from here on only C05    *)
(*              constrains the receiver                                    *)
(*      "stop"  closed                                                     *)
(***************************************************************************)
None == [none |-> TRUE]

RInit(w0, size0) ==
  /\ w = w0 /\ avail = 0 /\ ended = "open" /\ pos = 0 /\ size = size0
  /\ hdrs = << >> /\ parts = << >> /\ ph = "hdr" /\ cur = None

Wire == WireOf(w)
WireLen == Len(Wire)

Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

ExtOn3(csid) == csid \in DOMAIN hdrs /\ hdrs[csid].ts = ExtMark

\* A header that a conforming peer can send now.
Legal(h) ==
  /\ h.csid >= 2
  /\ h.fmt # 0 => h.csid \in DOMAIN hdrs
  /\ h.csid \in DOMAIN parts => h.fmt = 3

Min(a, b) == IF a < b THEN a ELSE b

\* Waiting for input: nothing to do with what has arrived.
Quiet ==
  \/ ph \in {"mal", "stop"}
  \/ ph \in {"hdr", "pay"} /\ ended = "over"
  \/ ph = "hdr" /\ ended = "open" /\ ~DecHeader(Wire, pos, avail, ExtOn3).ok
  \/ ph = "pay" /\ ended = "open" /\ avail < pos + cur.n

(***************************************************************************)
(* Environment                                                             *)
(***************************************************************************)
Arrive(n) ==
  /\ ended = "open" /\ avail + n <= WireLen
  /\ avail' = avail + n
  /\ UNCHANGED << w, ended, pos, size, hdrs, parts, ph, cur >>

End(how) ==
  /\ ended = "open" /\ how \in {"once", "eof", "fail"}
  /\ ended' = how
  /\ UNCHANGED << w, avail, pos, size, hdrs, parts, ph, cur >>

SetReadSize(n) ==
  /\ size' = n
  /\ UNCHANGED << w, avail, ended, pos, hdrs, parts, ph, cur >>

Close ==
  /\ Quiet
  /\ ph' = "stop"
  /\ UNCHANGED << w, avail, ended, pos, size, hdrs, parts, cur >>

(***************************************************************************)
(* Steps of the receiver that nobody sees                                  *)
(***************************************************************************)
ReadHeader ==
  /\ ph = "hdr"
  /\ LET d == DecHeader(Wire, pos, avail, ExtOn3) IN
     /\ d.ok
     /\ pos' = pos + d.n
     /\ IF ~Legal(d.h)
        THEN /\ ph' = "mal" /\ cur' = None
             /\ UNCHANGED << hdrs, parts >>
        ELSE LET c == d.h.csid
                 h == IF d.h.fmt = 0 THEN d.h ELSE Resolve(d.h, hdrs[c])
                 p == IF c \in DOMAIN parts THEN parts
                      ELSE parts @@ (c :> [h |-> h, left |-> h.len, segs |-> << >>])
             IN /\ hdrs' = (c :> h) @@ hdrs
                /\ parts' = p
                /\ cur' = [csid |-> c, n |-> Min(p[c].left, size)]
                /\ ph' = "pay"
  /\ UNCHANGED << w, avail, ended, size >>

ReadPayload ==
  /\ ph = "pay" /\ avail >= pos + cur.n
  /\ pos' = pos + cur.n
  /\ LET p == parts[cur.csid]
         q == [p EXCEPT !.left = @ - cur.n,
                        !.segs = IF cur.n = 0 THEN @ ELSE Append(@, << pos, cur.n >>)]
     IN IF q.left = 0
        THEN /\ parts' = Drop(parts, cur.csid)
             /\ cur' = q /\ ph' = "done"
        ELSE /\ parts' = [parts EXCEPT ![cur.csid] = q]
             /\ cur' = None /\ ph' = "hdr"
  /\ UNCHANGED << w, avail, ended, size, hdrs >>

\* The first four payload bytes of a completed message.
First4(m) ==
  LET at(i) == LET RECURSIVE find(_, _)
                   find(k, j) == IF j <= m.segs[k][2] THEN Wire[m.segs[k][1] + j]
                                 ELSE find(k + 1, j - m.segs[k][2])
               IN find(1, i)
  IN << at(1), at(2), at(3), at(4) >>

SetChunkSizeType == 1
AbortType == 2

ApplySetChunkSize ==
  /\ ph = "done" /\ cur.h.type = SetChunkSizeType
  /\ IF cur.h.len >= 4 /\ First4(cur) # Zero4
     THEN size' = Int4(First4(cur)) /\ ph' = "hdr" /\ cur' = None
     ELSE size' = size /\ ph' = "err" /\ cur' = "other"
  /\ UNCHANGED << w, avail, ended, pos, hdrs, parts >>

ApplyAbort ==
  /\ ph = "done" /\ cur.h.type = AbortType
  /\ parts' = IF cur.h.len >= 4 THEN Drop(parts, Int4(First4(cur))) ELSE parts
  /\ ph' = "msg"
  /\ UNCHANGED << w, avail, ended, pos, size, hdrs, cur >>

Complete ==
  /\ ph = "done" /\ cur.h.type \notin {SetChunkSizeType, AbortType}
  /\ ph' = "msg"
  /\ UNCHANGED << w, avail, ended, pos, size, hdrs, parts, cur >>

\* A read that meets the end of the input, or a failing transport.
HitEnd ==
  /\ ended \in {"once", "eof", "fail"}
  /\ \/ ph = "hdr" /\ ~DecHeader(Wire, pos, avail, ExtOn3).ok
     \/ ph = "pay" /\ avail < pos + cur.n
  /\ pos' = avail
  /\ ended' = IF ended = "once" THEN "open" ELSE ended
  /\ ph' = "err" /\ cur' = ended
  /\ UNCHANGED << w, avail, size, hdrs, parts >>

RInternal == ReadHeader \/ ReadPayload \/ ApplySetChunkSize \/ ApplyAbort \/ Complete \/ HitEnd

(***************************************************************************)
(* Steps its consumer sees                                                 *)
(***************************************************************************)
\* m: the delivered message, with data a sequence of bytes.
RECURSIVE SegsAre(_, _, _)
SegsAre(segs, data, off) ==
  IF segs = << >> THEN Len(data) = off
  ELSE LET s == Head(segs) IN
       /\ Len(data) >= off + s[2]
       /\ \A i \in 1..s[2] : data[off + i] = Wire[s[1] + i]
       /\ SegsAre(Tail(segs), data, off + s[2])

Is(m, h) ==
  /\ m.fmt = h.fmt /\ m.mfmt = h.fmt /\ m.csid = h.csid
  /\ m.ts = h.ts /\ m.delta = h.delta /\ m.len = h.len
  /\ m.type = h.type /\ m.msid = h.msid /\ m.ext = h.ext

Deliver(m) ==
  /\ ph = "msg"
  /\ Is(m, cur.h)
  /\ SegsAre(cur.segs, m.data, 0) = TRUE  \* a value, not an action, to TLC
  /\ ph' = "hdr" /\ cur' = None
  /\ UNCHANGED << w, avail, ended, pos, size, hdrs, parts >>

ReportError(what) ==
  /\ ph = "err" /\ cur = what
  /\ ph' = "hdr" /\ cur' = None
  /\ ended' = IF what \in {"eof", "fail"} THEN "over" ELSE ended
  /\ UNCHANGED << w, avail, pos, size, hdrs, parts >>

\* Reading on after the end gives the same error again.
ReportAgain ==
  /\ ended = "over" /\ ph \in {"hdr", "pay"}
  /\ UNCHANGED rvars

\* Whatever a broken wire makes the receiver do, a message it delivers has
\* the length it declares.
DeliverMalformed(m) ==
  /\ ph = "mal"
  /\ Len(m.data) = m.len
  /\ UNCHANGED rvars

ReportMalformed ==
  /\ ph = "mal"
  /\ UNCHANGED rvars

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
RTypeOK ==
  /\ pos <= avail /\ avail <= WireLen /\ size >= 1
  /\ ph \in {"hdr", "pay", "done", "msg", "err", "mal", "stop"}
  /\ DOMAIN parts \subseteq DOMAIN hdrs
  /\ \A c \in DOMAIN parts : parts[c].left >= 0 /\ parts[c].h.csid = c
  /\ \A c \in DOMAIN hdrs : hdrs[c].csid = c
=============================================================================
