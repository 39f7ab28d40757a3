------------------------------ MODULE TraceDemux ------------------------------
(***************************************************************************)
(* Traces of chunk.Parser against Demux.  A scenario is a sequence of      *)
(* steps.  In each some operations were started one after the other, and   *)
(* by the time nothing more happened some takes had been answered: res     *)
(* lists, per stream, what its consumer got, in order (0 is the end, -1 an *)
(* error the end of the input causes).                                     *)
(***************************************************************************)
EXTENDS Demux, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  s, l,
  o,     \* operations of this step done
  r      \* stream -> answers of this step accounted for

vars == << dvars, s, l, o, r >>

Init == DInit /\ s \in 1..Len(Trace) /\ l = 1 /\ o = 0 /\ r = NoFn

Ev == Trace[s].ev[l]
More == l <= Len(Trace[s].ev)
Step == More /\ Ev.k = "step"

Op(op) ==
  \/ op.o = "feed" /\ DFeed(op.items)
  \/ op.o = "end" /\ DEnd
  \/ op.o = "take" /\ DTake(op.h, op.n)
  \/ op.o = "req" /\ DRequest(op.ids, op.h)
  \/ op.o = "close" /\ DClose

TOp ==
  /\ Step /\ o < Len(Ev.ops) /\ o' = o + 1
  /\ Op(Ev.ops[o + 1])
  /\ UNCHANGED << s, l, r >>

\* Whatever can be answered can still be after more operations and after the
\* answers of other streams, so one order is enough: operations first, then the
\* answers stream by stream.
TAnswer ==
  /\ Step /\ o = Len(Ev.ops)
  /\ \E k \in 1..Len(Ev.res) :
       LET h == Ev.res[k].h
           n == Fn(r, h) + 1
       IN /\ \A j \in 1..(k - 1) : Fn(r, Ev.res[j].h) = Len(Ev.res[j].got)
          /\ n <= Len(Ev.res[k].got)
          /\ r' = Put(r, h, n)
          /\ LET x == Ev.res[k].got[n] IN
             CASE x > 0 -> x <= Len(src) /\ DDeliver(h, x)
               [] x = 0 -> DEndOf(h)
               [] x = -1 -> h = 0 /\ DEndless
               [] OTHER -> FALSE
  /\ UNCHANGED << s, l, o >>

AllAnswered == \A k \in 1..Len(Ev.res) : Fn(r, Ev.res[k].h) = Len(Ev.res[k].got)

TQuiet ==
  /\ Step /\ o = Len(Ev.ops) /\ AllAnswered
  /\ DQuiet /\ (Ev.closed <=> ph = "closed")
  /\ l' = l + 1 /\ o' = 0 /\ r' = NoFn
  /\ UNCHANGED << dvars, s >>

\* The reader and everything else has stopped, reading no further than the
\* end of the message under way, or (as buffered readers do) than one Read gave.
TStopped ==
  /\ More /\ Ev.k = "stopped" /\ ph = "closed"
  /\ Strict => (Ev.left = 0 /\ (Ev.taken <= Ev.bound \/ Ev.reads <= 1))
  /\ l' = l + 1 /\ UNCHANGED << dvars, s, o, r >>

TDone ==
  /\ More /\ Ev.k = "done" /\ PrintT(<< "ACCEPTED", Trace[s].id, ph >>)
  /\ l' = l + 1 /\ UNCHANGED << dvars, s, o, r >>

Next == (DInternal /\ UNCHANGED << s, l, o, r >>) \/ TOp \/ TAnswer \/ TQuiet \/ TStopped \/ TDone

Spec == Init /\ [][Next]_vars

Inv == DTypeOK
Progress == PrintT(<< "AT", Trace[s].id, l, ph >>)
=============================================================================
