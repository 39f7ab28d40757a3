------------------------------- MODULE Commands -------------------------------
(***************************************************************************)
(* The commands and frames that net connections, net streams and data      *)
(* streams receive and send: what their payloads are made of and the       *)
(* chunks they travel in.                                                  *)
(***************************************************************************)
EXTENDS Amf0

\* Name as bytes, as a string, and the kinds of the values that follow it.
ConnTable == {
  << << 99, 111, 110, 110, 101, 99, 116 >>,
     "connect", << "num", "obj" >> >>,
  << << 99, 114, 101, 97, 116, 101, 83, 116, 114, 101, 97, 109 >>,
     "createStream", << "num", "obj" >> >>,
  << << 114, 101, 108, 101, 97, 115, 101, 83, 116, 114, 101, 97, 109 >>,
     "releaseStream", << "num", "null", "str" >> >>,
  << << 70, 67, 80, 117, 98, 108, 105, 115, 104 >>,
     "FCPublish", << "num", "null", "str" >> >>,
  << << 103, 101, 116, 83, 116, 114, 101, 97, 109, 76, 101, 110, 103, 116, 104 >>,
     "getStreamLength", << "num", "null", "str" >> >> }

\* Here a transaction ID and an object come between.
StreamTable == {
  << << 112, 108, 97, 121 >>,
     "play", << "str", "num" >> >>,
  << << 112, 108, 97, 121, 50 >>,
     "play2", << "obj" >> >>,
  << << 100, 101, 108, 101, 116, 101, 83, 116, 114, 101, 97, 109 >>,
     "deleteStream", << "num" >> >>,
  << << 114, 101, 99, 101, 105, 118, 101, 65, 117, 100, 105, 111 >>,
     "receiveAudio", << "bool" >> >>,
  << << 114, 101, 99, 101, 105, 118, 101, 86, 105, 100, 101, 111 >>,
     "receiveVideo", << "bool" >> >>,
  << << 112, 117, 98, 108, 105, 115, 104 >>,
     "publish", << "str", "str" >> >>,
  << << 115, 101, 101, 107 >>,
     "seek", << "num" >> >>,
  << << 112, 97, 117, 115, 101 >>,
     "pause", << "bool", "num" >> >> }

ResultBytes == << 95, 114, 101, 115, 117, 108, 116 >>
OnStatusBytes == << 111, 110, 83, 116, 97, 116, 117, 115 >>

Known(t, v) == \E e \in t : v.t = "str" /\ e[1] = v.b
Entry(t, v) == CHOOSE e \in t : e[1] = v.b

Fits(kind, v) == v.t = kind \/ (kind = "obj" /\ v.t = "null")
AllFit(kinds, vs) == Len(kinds) = Len(vs) /\ \A i \in 1..Len(vs) : Fits(kinds[i], vs[i])

\* What was received, given what was sent: an object that was not sent is empty
\* or missing.
Same(v, y) == y = v \/ (v.t = "null" /\ y.t = "obj" /\ y.f = << >>)
AllSame(vs, ys) == Len(vs) = Len(ys) /\ \A i \in 1..Len(vs) : Same(vs[i], ys[i])

(***************************************************************************)
(* A payload as a command: whether it is one, its name and its values.     *)
(***************************************************************************)
NoCmd == [ok |-> FALSE, name |-> "", vs |-> << >>]
Cmd(name, vs) == [ok |-> TRUE, name |-> name, vs |-> vs]

ConnCmd(W) ==
  LET n == Dec(W, 0) IN
  IF ~n.ok \/ ~Known(ConnTable, n.v) THEN NoCmd
  ELSE LET e == Entry(ConnTable, n.v)
           r == DecN(W, n.p, Len(e[3]))
       IN IF r.ok /\ AllFit(e[3], r.vs) THEN Cmd(e[2], r.vs) ELSE NoCmd

StreamCmd(W) ==
  LET h == DecN(W, 0, 3) IN
  IF ~h.ok \/ ~Known(StreamTable, h.vs[1]) \/ ~AllFit(<< "str", "num", "obj" >>, h.vs) THEN NoCmd
  ELSE LET e == Entry(StreamTable, h.vs[1])
           r == DecN(W, h.p, Len(e[3]))
       IN IF r.ok /\ AllFit(e[3], r.vs) THEN Cmd(e[2], r.vs) ELSE NoCmd

FrameCmd(W) ==   \* a data frame: keyword, type and arguments
  LET r == DecN(W, 0, 3) IN
  IF r.ok /\ AllFit(<< "str", "str", "arr" >>, r.vs) THEN Cmd("dataFrame", r.vs) ELSE NoCmd

(***************************************************************************)
(* What is sent.  m.c says what it is, m.vs are its values.                *)
(***************************************************************************)
Result == Str(ResultBytes)
OnStatus == Str(OnStatusBytes)
Payload(m) ==
  CASE m.c = "connectResponse"      -> EncAll(<< Result >> \o m.vs)             \* number, object, object
    [] m.c = "createStreamResponse" -> EncAll(<< Result, m.vs[1], Null, m.vs[2] >>)
    [] m.c = "status"               -> EncAll(<< OnStatus, Zero, Null, m.vs[1] >>)
    [] m.c = "dataFrame"            -> EncAll(m.vs)                             \* string, string, array

Envelope4(m) ==   \* chunk stream, message stream, type
  CASE m.c \in {"connectResponse", "createStreamResponse"} -> << 3, << 0, 0, 0, 0 >>, 20 >>
    [] m.c = "status"                                      -> << 5, << 0, 0, 0, 1 >>, 20 >>
    [] m.c = "dataFrame"                                   -> << 4, << 0, 0, 0, 1 >>, 18 >>

InEnvelope(m, c) ==
  LET e == Envelope4(m)
      d == Payload(m)
  IN /\ c.fmt = 0 /\ c.mfmt = 0 /\ c.csid = e[1] /\ c.msid = e[2] /\ c.type = e[3]
     /\ c.len = Len(d) /\ c.data = d
=============================================================================
