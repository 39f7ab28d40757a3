------------------------------- MODULE WriterMC -------------------------------
(***************************************************************************)
(* Goroutines write messages to one connection while the write size        *)
(* changes between messages, and a peer reads the wire with ChunkReader,   *)
(* being told each change of size as it happens on the wire.  Every        *)
(* sequential history is printed, for replay into the real writer.         *)
(***************************************************************************)
EXTENDS ChunkReader, Json

CONSTANTS Csids, Lens, Fmts, Stamps, WSizes, Procs, PerProc, Changes

VARIABLES
  wsize,   \* the write size
  todo,    \* goroutine -> number of messages it still has to write
  hist,    \* what was emitted, in order: messages with their goroutine and size
  marks,   \* where on the wire the size changes: << position, size >>
  reading,
  got

WR == INSTANCE ChunkWriter WITH
        OutOf <- LAMBDA x : x, Knob63 <- FALSE,
        ow <- w, opos <- 0, osizes <- {wsize}, writing <- << >>, broken <- FALSE

vars == << rvars, wsize, todo, hist, marks, reading, got >>

HandleIsWire(x) == x

Init ==
  /\ wsize \in WSizes
  /\ RInit(<< >>, wsize)
  /\ todo = [g \in Procs |-> PerProc]
  /\ hist = << >> /\ marks = << << 0, wsize >> >> /\ reading = FALSE /\ got = << >>

Mine(g) == Cardinality({ i \in 1..Len(hist) : hist[i].g = g })

\* Messages g may write next. Formats that omit fields are for messages whose
\* omitted fields are what they were before on that chunk stream.
Candidates(g) ==
  { m \in [fmt : Fmts, csid : Csids, ts : Stamps, delta : BOOLEAN, len : Lens, type : {8},
           msid : {<< 0, 0, 0, 1 >>}, ext : {Zero4, << 128, 0, 0, 9 >>}] :
      LET prev == { i \in 1..Len(hist) : hist[i].m.csid = m.csid } IN
      /\ (m.ext = Zero4) = (m.ts # ExtMark)
      /\ m.fmt # 3 => m.delta = (m.fmt \in {1, 2})
      /\ m.fmt # 0 => prev # {}
      /\ m.fmt \in {2, 3} =>
           LET p == hist[CHOOSE i \in prev : \A j \in prev : j <= i].m IN
           m.len = p.len /\ (m.fmt = 3 => m.ts = p.ts /\ m.delta = p.delta) }

Write(g) ==
  /\ ~reading /\ todo[g] > 0
  /\ \E c \in Candidates(g) :
       LET k == Len(hist) + 1
           m == [fmt |-> c.fmt, csid |-> c.csid, ts |-> c.ts, delta |-> c.delta, len |-> c.len, type |-> c.type,
                 msid |-> c.msid, ext |-> c.ext, data |-> [i \in 1..c.len |-> 16 * k + i]]
       IN /\ w' = w \o WR!Encoding(m, wsize)
          /\ hist' = Append(hist, [g |-> g, n |-> Mine(g) + 1, m |-> m, size |-> wsize])
  /\ todo' = [todo EXCEPT ![g] = @ - 1]
  /\ UNCHANGED << avail, ended, pos, size, hdrs, parts, ph, cur, wsize, marks, reading, got >>

Resize ==
  /\ ~reading /\ Changes /\ Len(marks) <= Len(hist)
  /\ \E n \in WSizes \ {wsize} : wsize' = n /\ marks' = Append(marks, << Len(w), n >>)
  /\ UNCHANGED << rvars, todo, hist, reading, got >>

StartReading ==
  /\ ~reading /\ \A g \in Procs : todo[g] = 0
  /\ reading' = TRUE
  /\ PrintT("WIRE " \o ToJson([h |-> hist, size |-> marks[1][2]]))
  /\ avail' = Len(w)
  /\ UNCHANGED << w, ended, pos, size, hdrs, parts, ph, cur, wsize, todo, hist, marks, got >>

\* The size in force for what starts at position p.
SizeAt(p) == LET before == { i \in 1..Len(marks) : marks[i][1] <= p }
             IN marks[CHOOSE i \in before : \A j \in before : j <= i][2]

RECURSIVE Gather(_)
Gather(segs) ==
  IF segs = << >> THEN << >>
  ELSE SubSeq(Wire, segs[1][1] + 1, segs[1][1] + segs[1][2]) \o Gather(Tail(segs))

InHand ==
  [ fmt |-> cur.h.fmt, mfmt |-> cur.h.fmt, csid |-> cur.h.csid, ts |-> cur.h.ts,
    delta |-> cur.h.delta, len |-> cur.h.len, type |-> cur.h.type, msid |-> cur.h.msid,
    ext |-> cur.h.ext, data |-> Gather(cur.segs) ]

Read ==
  /\ reading
  /\ \/ ph = "hdr" /\ size # SizeAt(pos) /\ SetReadSize(SizeAt(pos)) /\ UNCHANGED got
     \/ (ph # "hdr" \/ size = SizeAt(pos)) /\ RInternal /\ UNCHANGED got
     \/ ph = "msg" /\ Deliver(InHand) /\ got' = Append(got, InHand)
  /\ UNCHANGED << wsize, todo, hist, marks, reading >>

Next == (\E g \in Procs : Write(g)) \/ Resize \/ StartReading \/ Read
Spec == Init /\ [][Next]_vars

TypeOK == RTypeOK /\ ph # "mal"

\* The peer recovers what was written, in order.
Recovered ==
  /\ Len(got) <= Len(hist)
  /\ \A i \in 1..Len(got) : LET a == got[i] b == hist[i].m IN
       /\ a.fmt = b.fmt /\ a.csid = b.csid /\ a.ts = b.ts /\ a.len = b.len /\ a.type = b.type
       /\ a.msid = b.msid /\ a.ext = b.ext /\ a.data = b.data /\ a.delta = b.delta
  /\ reading /\ Quiet => Len(got) = Len(hist)

\* The messages of a goroutine are in its order.
InOrder == \A i, j \in 1..Len(hist) : i < j /\ hist[i].g = hist[j].g => hist[i].n < hist[j].n
=============================================================================
