--------------------------- MODULE TraceWriterBig ---------------------------
(***************************************************************************)
(* Traces of messages too large to list their bytes.  A scenario has       *)
(*   N     the length of the wire                                          *)
(*   S     position (as a string) -> byte, outside of the runs             *)
(*   runs  [p, m, o, n]: the n bytes of the wire after position p equal    *)
(*         those of message number m after offset o                        *)
(* and a message has its number i and the length dlen of its payload.      *)
(***************************************************************************)
EXTENDS TraceWriter

Listed == TLCEval([s \in 1..Len(Trace) |-> TLCEval(DOMAIN Trace[s].S)])

BigOut(s) == [i \in 1..Trace[s].N |->
                LET k == ToString(i) IN IF k \in Listed[s] THEN Trace[s].S[k] ELSE -2]
BigOutLen == Trace[ow].N
BigDataLen(m) == m.dlen
\* Where runs start: position -> number of the run.
Starts == TLCEval([s \in 1..Len(Trace) |->
            TLCEval([p \in {Trace[s].runs[k].p : k \in 1..Len(Trace[s].runs)} |->
                       CHOOSE k \in 1..Len(Trace[s].runs) : Trace[s].runs[k].p = p])])

Within(r, p, m, off, n) == /\ r.m = m.i
                           /\ r.p <= p /\ p + n <= r.p + r.n
                           /\ off - r.o = p - r.p

BigSameData(p, m, off, n) ==
  \/ n = 0
  \/ IF p \in DOMAIN Starts[ow] THEN Within(Trace[ow].runs[Starts[ow][p]], p, m, off, n)
     ELSE \E k \in 1..Len(Trace[ow].runs) : Within(Trace[ow].runs[k], p, m, off, n)
=============================================================================
