---------------------------- MODULE TraceEndpoint ----------------------------
(***************************************************************************)
(* Traces of net connections, net streams and data streams against Duplex, *)
(* with Commands for what the items are.  An incoming item says what kind  *)
(* of endpoint got it (e) and is a chunk; a submitted one is a message of  *)
(* Commands or a chunk that is to be relayed as it is (c = "frame").       *)
(***************************************************************************)
EXTENDS TraceDuplex, Commands

Chunk(x) == [type |-> x.type, h |-> x.h, data |-> x.data]

Cmdof(x) ==
  CASE x.e = "conn"   -> ConnCmd(x.data)
    [] x.e = "stream" -> StreamCmd(x.data)
    [] x.e = "data"   -> IF x.type = 18 THEN FrameCmd(x.data) ELSE NoCmd

Media(x) == x.e = "data" /\ x.type \in {8, 9}

EndDelivered(x, y) ==
  IF Media(x) THEN y.name = "media" /\ y.c = Chunk(x)
  ELSE LET c == Cmdof(x) IN y.name = c.name /\ AllSame(c.vs, y.vs)

EndWritten(x, y) ==
  IF x.m.c = "frame" THEN y = x.m.as ELSE InEnvelope(x.m, y)

EndWellFed(x) == (x.bad = "") = (IF Media(x) THEN Len(x.data) > 0 ELSE Cmdof(x).ok)
=============================================================================
