-------------------------------- MODULE DemuxMC --------------------------------
(***************************************************************************)
(* A parser as it could be built (and as chunk.Parser is): one goroutine   *)
(* that holds one item at a time, and one for every part of a combined     *)
(* stream that holds one message.  Checked: it implements Demux, and it    *)
(* never comes to rest where Demux says that it may not.  Every sequence   *)
(* of operations is printed.                                               *)
(***************************************************************************)
EXTENDS Demux, Json, TLC

CONSTANTS Csids, Combos, MaxOps, MaxItems, Endless, History

VARIABLES
  hold,    \* index of the item the parser holds, or 0
  next,    \* index of the next item the reader has
  fwd,     \* combined chunk stream -> index of the message its forwarder holds
  over,    \* the parser's streams have ended
  ops,     \* the operations so far
  n

vars == << dvars, hold, next, fwd, over, ops, n >>

Init ==
  /\ DInit /\ hold = 0 /\ next = 1 /\ fwd = NoFn /\ over = FALSE /\ ops = << >> /\ n = 0

Log(op) == /\ n < MaxOps /\ n' = n + 1
           /\ ops' = IF History THEN Append(ops, op) ELSE ops
Same == UNCHANGED << hold, next, fwd, over >>

Fresh == Cardinality(Handles)

Items == { [e |-> FALSE, c |-> c] : c \in Csids } \cup { [e |-> TRUE, c |-> 0] }

Requests == { << c >> : c \in Csids } \cup Combos
Answer(ids) ==
  IF Len(ids) = 1 THEN (IF ids[1] \in DOMAIN sole THEN sole[ids[1]] ELSE Fresh)
  ELSE IF Range(ids) \cap exist # {} THEN -1 ELSE Fresh

Env ==
  \/ /\ Len(src) < MaxItems /\ ~endless
     /\ \E x \in Items : DFeed(<< x >>) /\ Log([o |-> "feed", items |-> << x >>])
     /\ Same
  \/ Endless /\ ~endless /\ DEnd /\ Log([o |-> "end"]) /\ Same
  \/ /\ ph = "open"
     /\ \E ids \in Requests : LET h == Answer(ids) IN
          /\ DRequest(ids, h) /\ Log([o |-> "req", ids |-> ids])
          /\ fwd' = IF Len(ids) > 1 /\ h > 0
                    THEN [c \in DOMAIN fwd \cup Range(ids) |-> Fn(fwd, c)] ELSE fwd
     /\ UNCHANGED << hold, next, over >>
  \/ \E h \in Handles : DTake(h, 1) /\ Log([o |-> "take", h |-> h, n |-> 1]) /\ Same
  \/ DClose /\ Log([o |-> "close"]) /\ Same

(**************************** The parser ***********************************)
Take ==
  /\ ~over /\ hold = 0 /\ next <= Len(src)
  /\ hold' = next /\ next' = next + 1
  /\ IF src[next].e \/ src[next].c \in exist THEN UNCHANGED dvars ELSE DReach(next)
  /\ UNCHANGED << fwd, over, ops, n >>

\* After the end the reader goes on failing.
TakeEndless ==
  /\ ~over /\ hold = 0 /\ next > Len(src) /\ endless
  /\ hold' = -1 /\ UNCHANGED << dvars, next, fwd, over, ops, n >>

Hand ==
  /\ ~over
  /\ \/ hold = -1 /\ DEndless
     \/ hold > 0 /\ src[hold].e /\ DDeliver(0, hold)
     \/ hold > 0 /\ ~src[hold].e /\ src[hold].c \in DOMAIN sole /\ DDeliver(sole[src[hold].c], hold)
  /\ hold' = 0 /\ UNCHANGED << next, fwd, over, ops, n >>

Pass ==
  /\ ~over /\ hold > 0 /\ ~src[hold].e /\ src[hold].c \in DOMAIN own /\ fwd[src[hold].c] = 0
  /\ fwd' = [fwd EXCEPT ![src[hold].c] = hold] /\ hold' = 0
  /\ UNCHANGED << dvars, next, over, ops, n >>

Forward ==
  \E c \in DOMAIN fwd :
    /\ fwd[c] > 0 /\ DDeliver(own[c], fwd[c])
    /\ fwd' = [fwd EXCEPT ![c] = 0]
    /\ UNCHANGED << hold, next, over, ops, n >>

\* The parser hears of the close and drops what it holds.
Shut ==
  /\ ph = "closing" /\ ~over /\ over' = TRUE /\ DClosed
  /\ UNCHANGED << hold, next, fwd, ops, n >>

EndOf ==
  \E h \in Handles :
    /\ over
    /\ h \in Range(own) => \A c \in DOMAIN own : own[c] = h => fwd[c] = 0
    /\ DEndOf(h)
    /\ UNCHANGED << hold, next, fwd, over, ops, n >>

Internal == Take \/ TakeEndless \/ Hand \/ Pass \/ Forward \/ Shut \/ EndOf

Next == Env \/ Internal
Spec == Init /\ [][Next]_vars

TypeOK == DTypeOK
\* Where the parser rests, Demux allows it to.
Rest == ~ENABLED Internal => DQuiet
Show == (n = MaxOps /\ ~ENABLED Internal /\ History) => PrintT("WIRE " \o ToJson(ops))
C12 == { << 1, 2 >> }
C112 == { << 1, 2 >>, << 1, 1 >>, << 2, 3 >> }
=============================================================================
