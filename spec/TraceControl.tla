---------------------------- MODULE TraceControl ----------------------------
(***************************************************************************)
(* A history of packaging and parsing by the real code:                    *)
(*   pack   m, c          the message m was packaged as the chunk c        *)
(*   parse  type, data, ok, [m]                                            *)
(*   kept   ms, ds        what the messages parsed so far, and the chunks  *)
(*                        packaged so far, look like by now                *)
(*   dropmsg, dropchunk   the latest one is its user's to change from now  *)
(***************************************************************************)
EXTENDS ControlCodec, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, parsed, packed

vars == << s, l, parsed, packed >>

Init == s \in 1..Len(Trace) /\ l = 1 /\ parsed = << >> /\ packed = << >>

Ev == Trace[s].ev[l]

Pack ==
  /\ Ev.k = "pack"
  /\ Envelope(Ev.c, Ev.m)
  /\ packed' = Append(packed, Ev.c.data) /\ UNCHANGED parsed

Parse ==
  /\ Ev.k = "parse"
  /\ UNCHANGED packed
  /\ IF Ev.ok
     THEN /\ ~Refused(Ev.type, Ev.data)
          /\ Ev.m = Parsed(Ev.type, Ev.data)
          /\ parsed' = Append(parsed, Ev.m)
     ELSE /\ (Refused(Ev.type, Ev.data) \/ MayRefuse(Ev.type, Ev.data)) = TRUE
          /\ UNCHANGED parsed

Kept == Ev.k = "kept" /\ Ev.ms = parsed /\ Ev.ds = packed /\ UNCHANGED << parsed, packed >>

Front(q) == SubSeq(q, 1, Len(q) - 1)
DropMsg == Ev.k = "dropmsg" /\ parsed' = Front(parsed) /\ UNCHANGED packed
DropChunk == Ev.k = "dropchunk" /\ packed' = Front(packed) /\ UNCHANGED parsed

Done == Ev.k = "done" /\ PrintT(<< "ACCEPTED", Trace[s].id >>) /\ UNCHANGED << parsed, packed >>

Next == l <= Len(Trace[s].ev) /\ (Pack \/ Parse \/ Kept \/ DropMsg \/ DropChunk \/ Done) /\ l' = l + 1 /\ UNCHANGED s

Spec == Init /\ [][Next]_vars
Inv == TRUE
Progress == PrintT(<< "AT", Trace[s].id, l >>)
=============================================================================
