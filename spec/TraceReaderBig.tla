--------------------------- MODULE TraceReaderBig ---------------------------
(***************************************************************************)
(* Traces of messages too large to list their bytes.  A scenario has       *)
(*   N   the length of the wire                                            *)
(*   S   position (as a string) -> byte, for the headers and for the small *)
(*       messages                                                          *)
(* and a delivered message, instead of its bytes, the pieces of the wire   *)
(* << start, length >> whose bytes, one after the other, it equals.        *)
(***************************************************************************)
EXTENDS TraceReader

BigWire(s) == [i \in 1..Trace[s].N |-> Trace[s].S[ToString(i)]]
BigLen == Trace[w].N
BigSegs(segs, data, off) == segs = data
=============================================================================
