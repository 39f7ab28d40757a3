----------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Traces of client sessions against Session, with ChunkReader saying what *)
(* the bytes that follow the handshake (the wire W) stand for.  In each    *)
(* step some operations were started, one after the other, and by the time *)
(* nothing more happened the following had come of them:                   *)
(*   outs    what came out: of e, on channel c ("in", "errs" or "out", the *)
(*           connection)                                                   *)
(*   hs      what has become of the handshake: "no" "run" "ok" "err"       *)
(*   rd, wr  bytes the client has read, and written of its handshake       *)
(***************************************************************************)
EXTENDS ChunkReader, Session, Classes, Json, IOUtils
Ct == INSTANCE ControlCodec
Cm == INSTANCE Commands

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceWire(i) == Trace[i].W

VARIABLES l, o, r
vars == << rvars, svars, l, o, r >>

Hs == H!Total
At(n) == IF n < Hs THEN 0 ELSE n - Hs

Init ==
  /\ \E i \in 1..Len(Trace) : RInit(i, 128) /\ SInit(Trace[i].ver)
  /\ l = 1 /\ o = 0 /\ r = 0

Ev == Trace[w].ev[l]
More == l <= Len(Trace[w].ev)
Step == More /\ Ev.k = "step"

(******************************* Messages **********************************)
RECURSIVE Bytes(_)
Bytes(segs) ==
  IF segs = << >> THEN << >>
  ELSE SubSeq(Wire, segs[1][1] + 1, segs[1][1] + segs[1][2]) \o Bytes(Tail(segs))

Cmdof(e, d) ==
  CASE e = "conn"   -> Cm!ConnCmd(d)
    [] e = "stream" -> Cm!StreamCmd(d)
    [] e = "data"   -> Cm!FrameCmd(d)
Media(e, h) == e = "data" /\ h.type \in {8, 9}

\* What a message of the wire is to the session.
Seen(m) ==
  LET h == m.h
      b == Branch(h.csid)
      to == CASE b = "ctl"  -> "ctl"
              [] b = "cmd"  -> Class(Id(h.csid), h.msid, h.type)
              [] b = "else" -> "none"
      bad == CASE to = "none"  -> FALSE
               [] to = "ctl"   -> Ct!Refused(h.type, Bytes(m.segs))
               [] Media(to, h) -> h.len = 0
               [] OTHER        -> ~Cmdof(to, Bytes(m.segs)).ok
  IN [csid |-> h.csid, to |-> to, bad |-> bad, h |-> h, segs |-> m.segs]

\* An error of the chunk stream.
Hitch == [csid |-> 0, to |-> "none", bad |-> TRUE]

Delivered(x, y) ==
  LET d == Bytes(x.segs) IN
  CASE x.to = "ctl" -> y = Ct!Parsed(x.h.type, d)
    [] Media(x.to, x.h) ->
         /\ y.name = "media" /\ y.c.type = x.h.type /\ y.c.data = d
         /\ y.c.h = [fmt |-> x.h.fmt, mfmt |-> x.h.fmt, csid |-> x.h.csid, ts |-> Enc4(x.h.ts), delta |-> x.h.delta,
                     len |-> x.h.len, type |-> x.h.type, msid |-> x.h.msid, ext |-> x.h.ext]
    [] OTHER -> LET c == Cmdof(x.to, d) IN y.name = c.name /\ Cm!AllSame(c.vs, y.vs)

(******************************* Operations ********************************)
Op(op) ==
  \/ op.o = "call" /\ SCall /\ UNCHANGED rvars
  \/ /\ op.o = "send" /\ SSend(op.n)
     /\ LET n == At(sent + op.n) - At(sent) IN IF n = 0 THEN UNCHANGED rvars ELSE Arrive(n)
  \/ op.o = "differ" /\ SAnswer({op.p}) /\ UNCHANGED rvars
  \/ op.o = "end" /\ SEnd /\ End(op.how)
  \/ op.o = "start" /\ SStart(op.b) /\ UNCHANGED rvars
  \/ op.o = "take" /\ STake(op.e, op.c, op.n) /\ UNCHANGED rvars
  \/ op.o = "submit" /\ SSubmit(op.e, [i \in 1..Len(op.items) |-> << l, o + 1, i >>]) /\ UNCHANGED rvars
Submitted(x) == Trace[w].ev[x[1]].ops[x[2]].items[x[3]]

TOp ==
  /\ Step /\ o < Len(Ev.ops) /\ o' = o + 1
  /\ Op(Ev.ops[o + 1])
  /\ UNCHANGED << l, r >>

Done == Step /\ o = Len(Ev.ops)

(******************************** Arrivals *********************************)
Settled == Quiet /\ ph \notin {"msg", "err"}
TArrive ==
  /\ Done /\ ~Settled
  /\ \/ RInternal /\ UNCHANGED svars
     \/ /\ ph = "msg" /\ SMessage(Seen(cur))
        /\ ph' = "hdr" /\ cur' = None
        /\ UNCHANGED << w, avail, ended, pos, size, hdrs, parts >>
     \/ /\ ph = "err" /\ (IF cur = "other" THEN SMessage(Hitch) ELSE UNCHANGED svars)
        /\ ReportError(cur)
  /\ UNCHANGED << l, o, r >>

(******************************* Handshake *********************************)
Upto(n) == IF n < Hs THEN n ELSE Hs
TShake ==
  /\ Done /\ Settled /\ UNCHANGED << rvars, l, o, r >>
  /\ IF rd < Upto(Ev.rd) /\ res = "run" THEN SShake(H!HRead(Upto(Ev.rd) - rd))
     ELSE IF wr < Ev.wr THEN SShake(H!HWrite(Ev.wr - wr))
     ELSE CASE Ev.hs = "ok" -> SShake(H!HSucceed)
            [] Ev.hs = "err" -> SShake(H!HFail) \/ SShake(H!HReadFail)
            [] OTHER -> FALSE
Shaken == Settled /\ (IF ~called THEN Ev.hs = "no" ELSE Ev.hs = res)

(******************************** Results **********************************)
TOut ==
  /\ Done /\ Shaken /\ r < Len(Ev.outs) /\ r' = r + 1
  /\ UNCHANGED << rvars, l, o >>
  /\ LET y == Ev.outs[r + 1] IN
     \/ y.c = "in" /\ \E i \in Todo : SOut(y.e, "in", i) /\ Delivered(inc[i], y.v) = TRUE
     \/ y.c = "errs" /\ \E i \in Todo : SOut(y.e, "errs", i)
     \/ /\ y.c = "out" /\ "garbage" \notin DOMAIN y.v /\ SWrite(y.e)
        /\ LET m == Submitted(Next1(y.e)) IN
           (IF y.e = "ctl" THEN Ct!Envelope(y.v, m) ELSE Cm!InEnvelope(m, y.v)) = TRUE

TQuiet ==
  /\ Done /\ Shaken /\ r = Len(Ev.outs)
  /\ rd <= Ev.rd /\ (res = "run" => rd = Upto(Ev.rd)) /\ wr = Ev.wr
  /\ AtRest = TRUE
  /\ l' = l + 1 /\ o' = 0 /\ r' = 0 /\ UNCHANGED << rvars, svars >>

TDone ==
  /\ More /\ Ev.k = "done" /\ PrintT(<< "ACCEPTED", Trace[w].id, res >>)
  /\ l' = l + 1 /\ UNCHANGED << rvars, svars, o, r >>

Next == TOp \/ TArrive \/ TShake \/ TOut \/ TQuiet \/ TDone
Spec == Init /\ [][Next]_vars

Inv == STypeOK /\ OnlyAfter
Progress == PrintT(<< "AT", Trace[w].id, l, << res, ph, o, r >> >>)
===============================================================================
