----------------------------- MODULE ChunkWriter -----------------------------
(***************************************************************************)
(* The sending side: goroutines write messages to one connection through a *)
(* chunk.Writer while its write size changes.  What reaches the wire is    *)
(* specified as a predicate on the bytes of a known wire, so that recorded *)
(* wires can be checked without search.  Properties: C06 C07.              *)
(*                                                                         *)
(* A message is [fmt, csid, ts, len, type, msid, ext, data].               *)
(***************************************************************************)
EXTENDS RtmpWire, FiniteSets, TLC

CONSTANT OutOf(_),      \* the bytes a wire handle stands for
         Knob63         \* see RtmpWire

VARIABLES
  ow,        \* handle of the wire written to
  opos,      \* how much of it is accounted for
  osizes,    \* write sizes in force: more than one while it is being changed
  writing,   \* goroutine -> [m, sizes, st]: the message it is writing
  broken     \* whether the transport has failed

wvars == << ow, opos, osizes, writing, broken >>

WInit(o, size) == ow = o /\ opos = 0 /\ osizes = {size} /\ writing = << >> /\ broken = FALSE

Out == OutOf(ow)
OutLen == Len(Out)
DataLen(m) == Len(m.data)

MinOf(a, b) == IF a < b THEN a ELSE b
Without(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

\* Out continues with the bytes b after position p (or ends within them).
Continues(p, b) ==
  \A i \in 1..MinOf(Len(b), OutLen - p) : Out[p + i] = b[i]

Cont(m) == EncBasic(3, m.csid, Knob63) \o EncExt(m)

(***************************************************************************)
(* The ends of the message m on the wire: the positions where all of its   *)
(* bytes from offset off of the payload on can end, when written from      *)
(* position p in pieces of sizes taken from S.  One position at most       *)
(* unless sizes change meanwhile; none if Out is not that.                 *)
(***************************************************************************)
SameData(p, m, off, n) ==
  /\ p + n <= OutLen
  /\ \A i \in 1..n : Out[p + i] = m.data[off + i]

RECURSIVE Ends(_, _, _, _)
Ends(m, off, p, S) ==
  UNION {
    LET n == MinOf(s, DataLen(m) - off) IN
    IF ~SameData(p, m, off, n) THEN {}
    ELSE IF off + n = DataLen(m) THEN {p + n}
    ELSE LET c == Cont(m) IN
         IF OutLen >= p + n + Len(c) /\ Continues(p + n, c)
         THEN Ends(m, off + n, p + n + Len(c), S)
         ELSE {} : s \in S }

MessageEnds(m, S) ==
  LET h == EncHeader(m, Knob63) IN
  IF OutLen >= opos + Len(h) /\ Continues(opos, h)
  THEN IF DataLen(m) = 0 THEN {opos + Len(h)} ELSE Ends(m, 0, opos + Len(h), S)
  ELSE {}

(***************************************************************************)
(* A message cut short by a failing transport: whether the k bytes after   *)
(* opos are the beginning of it.                                           *)
(***************************************************************************)
RECURSIVE Encode(_, _, _)
Encode(m, off, s) ==
  LET n == MinOf(s, DataLen(m) - off) IN
  SubSeq(m.data, off + 1, off + n)
  \o (IF off + n >= DataLen(m) THEN << >> ELSE Cont(m) \o Encode(m, off + n, s))

Encoding(m, s) == EncHeader(m, Knob63) \o Encode(m, 0, s)

BeginsWith(m, S, k) ==
  \E s \in S : LET e == Encoding(m, s) IN
    /\ k <= Len(e)
    /\ \A i \in 1..k : Out[opos + i] = e[i]

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
WriteCalled(g, m) ==
  /\ g \notin DOMAIN writing
  /\ writing' = (g :> [m |-> m, sizes |-> osizes, st |-> "called"]) @@ writing
  /\ UNCHANGED << ow, opos, osizes, broken >>

\* The whole message reaches the wire at once, as far as anyone can see.
Emit(g) ==
  /\ g \in DOMAIN writing /\ writing[g].st = "called" /\ ~broken
  /\ opos' \in MessageEnds(writing[g].m, writing[g].sizes)
  /\ writing' = [writing EXCEPT ![g].st = "written"]
  /\ UNCHANGED << ow, osizes, broken >>

\* The transport takes the first k bytes of the message and fails.
EmitFails(g, k) ==
  /\ g \in DOMAIN writing /\ writing[g].st = "called" /\ ~broken
  /\ opos + k <= OutLen
  /\ BeginsWith(writing[g].m, writing[g].sizes, k)
  /\ opos' = opos + k
  /\ broken' = TRUE
  /\ writing' = [writing EXCEPT ![g].st = "failed"]
  /\ UNCHANGED << ow, osizes >>

\* Once the transport has failed it takes nothing any more.
EmitNothing(g) ==
  /\ g \in DOMAIN writing /\ writing[g].st = "called" /\ broken
  /\ writing' = [writing EXCEPT ![g].st = "failed"]
  /\ UNCHANGED << ow, opos, osizes, broken >>

Returned(g, ok) ==
  /\ g \in DOMAIN writing
  /\ writing[g].st = (IF ok THEN "written" ELSE "failed")
  /\ writing' = Without(writing, g)
  /\ UNCHANGED << ow, opos, osizes, broken >>

SizeCalled(n) ==
  /\ osizes' = osizes \cup {n}
  /\ writing' = [g \in DOMAIN writing |-> [writing[g] EXCEPT !.sizes = @ \cup {n}]]
  /\ UNCHANGED << ow, opos, broken >>

SizeReturned(n) ==
  /\ osizes' = {n}
  /\ UNCHANGED << ow, opos, writing, broken >>

Idle == writing = << >> /\ opos = OutLen

WTypeOK ==
  /\ opos <= OutLen
  /\ osizes # {}
  /\ \A g \in DOMAIN writing : writing[g].st \in {"called", "written", "failed"}
=============================================================================
