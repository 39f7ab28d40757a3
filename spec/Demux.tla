--------------------------------- MODULE Demux ---------------------------------
(***************************************************************************)
(* The chunk parser as its users see it: messages and errors come in, and  *)
(* streams and the error channel hand them out.  Nothing is said of how    *)
(* the parser passes them on: what is fixed is who may get which item,     *)
(* in what order, what requests for streams return, and what has to have   *)
(* happened by the time nothing more happens.                              *)
(*                                                                         *)
(* Streams are known by numbers that stand for their identity; the error   *)
(* channel is 0.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Whether streams end as soon as the parser is closed, or once what waits in
\* them has been taken.
CONSTANT Strict

VARIABLES
  src,     \* the items that arrived: [e |-> BOOLEAN, c |-> chunk stream ID]
  endless, \* the input has ended: errors never run out from there on
  got,     \* index of an item that was taken -> the stream that got it
  exist,   \* the chunk streams that exist
  own,     \* chunk stream -> combined stream it is part of
  sole,    \* chunk stream -> stream returned for it alone
  want,    \* stream -> number of takes that have not been answered
  ended,   \* the streams that have answered a take with their end
  ph,      \* "open" "closing" "closed"
  late     \* after the close: chunk streams a combined stream held a message of

dvars == << src, endless, got, exist, own, sole, want, ended, ph, late >>

Fn(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Range(f) == { f[x] : x \in DOMAIN f }
NoFn == [x \in {} |-> 0]

DInit ==
  /\ src = << >> /\ endless = FALSE /\ got = NoFn /\ exist = {} /\ own = NoFn /\ sole = NoFn
  /\ want = NoFn /\ ended = {} /\ ph = "open" /\ late = {}

Handles == {0} \cup Range(own) \cup Range(sole)

Left == (1..Len(src)) \ DOMAIN got
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(***************************** Environment *********************************)
DFeed(items) == src' = src \o items /\ UNCHANGED << endless, got, exist, own, sole, want, ended, ph, late >>
DEnd == endless' = TRUE /\ UNCHANGED << src, got, exist, own, sole, want, ended, ph, late >>
DTake(h, n) ==
  /\ h \in Handles
  /\ want' = Put(want, h, Fn(want, h) + n)
  /\ UNCHANGED << src, endless, got, exist, own, sole, ended, ph, late >>
DClose ==
  /\ ph = "open" /\ ph' = "closing"
  /\ UNCHANGED << src, endless, got, exist, own, sole, want, ended, late >>

(****************************** Registry ***********************************)
\* A message of a chunk stream makes it exist.  Messages are reached in the
\* order in which they arrived.
Unreached == { i \in Left : ~src[i].e /\ src[i].c \notin exist }
DReach(i) ==
  /\ i = Min(Unreached)
  /\ exist' = exist \cup {src[i].c}
  /\ UNCHANGED << src, endless, got, own, sole, want, ended, ph, late >>

\* A request for the streams ids returns stream h, or fails (-1).
DRequest(ids, h) ==
  LET S == Range(ids) IN
  /\ \/ Len(ids) = 0 /\ h = -1 /\ UNCHANGED << exist, own, sole >>
     \/ /\ Len(ids) = 1
        /\ LET c == ids[1] IN
             /\ h > 0
             /\ IF c \in DOMAIN sole THEN h = sole[c] ELSE h \notin Handles
             /\ sole' = Put(sole, c, h)
             /\ exist' = exist \cup {c}
             /\ UNCHANGED own
     \/ Len(ids) > 1 /\ S \cap exist # {} /\ h = -1 /\ UNCHANGED << exist, own, sole >>
     \/ /\ Len(ids) > 1 /\ S \cap exist = {}
        /\ h > 0 /\ h \notin Handles
        /\ exist' = exist \cup S
        /\ own' = [c \in DOMAIN own \cup S |-> IF c \in S THEN h ELSE own[c]]
        /\ UNCHANGED sole
  /\ UNCHANGED << src, endless, got, want, ended, ph, late >>

(****************************** Delivery ***********************************)
Suits(h, i) ==
  IF src[i].e THEN h = 0
  ELSE h > 0 /\ (h = Fn(sole, src[i].c) \/ h = Fn(own, src[i].c))

Alike(i, j) == src[i].e = src[j].e /\ src[i].c = src[j].c
\* Two streams hand out the messages of one chunk stream.
Shared(c) == c \in DOMAIN own /\ c \in DOMAIN sole

InTurn(h, i) ==
  IF ~src[i].e /\ Shared(src[i].c)
  THEN \A j \in DOMAIN got : (Alike(i, j) /\ got[j] = h) => j < i
  ELSE \A j \in Left : Alike(i, j) => i <= j

\* Stream h hands out item i.
DDeliver(h, i) ==
  /\ Fn(want, h) > 0 /\ h \notin ended
  /\ i \in Left /\ Suits(h, i) /\ InTurn(h, i)
  /\ IF ph = "closed" /\ Strict
     THEN h > 0 /\ h = Fn(own, src[i].c) /\ src[i].c \in late /\ late' = late \ {src[i].c}
     ELSE UNCHANGED late
  /\ got' = Put(got, i, h)
  /\ want' = [want EXCEPT ![h] = @ - 1]
  /\ exist' = IF src[i].e THEN exist ELSE exist \cup {src[i].c}
  /\ UNCHANGED << src, endless, own, sole, ended, ph >>

\* One more error, after the end of the input.
DEndless ==
  /\ endless /\ (ph = "closed" => ~Strict) /\ Fn(want, 0) > 0
  /\ \A j \in Left : ~src[j].e
  /\ want' = [want EXCEPT ![0] = @ - 1]
  /\ UNCHANGED << src, endless, got, exist, own, sole, ended, ph, late >>

DClosed ==
  /\ ph = "closing" /\ ph' = "closed"
  /\ late' = { c \in DOMAIN own : \E i \in Left : ~src[i].e /\ src[i].c = c }
  /\ UNCHANGED << src, endless, got, exist, own, sole, want, ended >>

\* Once the streams end, the parser is as good as closed.
DEndOf(h) ==
  /\ ph # "open" /\ Fn(want, h) > 0
  /\ ended' = ended \cup {h}
  /\ want' = [want EXCEPT ![h] = 0]
  /\ UNCHANGED << src, endless, got, exist, own, sole, ph, late >>

(**************************** Nothing happens ******************************)
\* The first item left has nobody to go to, and everything is over if the
\* parser is closed.
Obliged(i) ==
  \E h \in DOMAIN want :
    /\ want[h] > 0 /\ Suits(h, i)
    /\ (~src[i].e /\ Shared(src[i].c)) => h = own[src[i].c]

DQuiet ==
  /\ ph # "closing"
  /\ ph = "closed" => \A h \in DOMAIN want : want[h] = 0
  /\ ph = "open" =>
       IF Left = {} THEN ~(endless /\ Fn(want, 0) > 0)
       ELSE LET i == Min(Left) IN ~Obliged(i) /\ (~src[i].e => src[i].c \in exist)

DInternal ==
  \/ Unreached # {} /\ DReach(Min(Unreached))
  \/ DClosed

DTypeOK ==
  /\ DOMAIN got \subseteq 1..Len(src)
  /\ \A h \in DOMAIN want : want[h] >= 0
  /\ DOMAIN own \subseteq exist /\ DOMAIN sole \subseteq exist
  /\ Range(own) \cap Range(sole) = {}
  /\ ph \in {"open", "closing", "closed"}
  /\ \A i \in DOMAIN got : Suits(got[i], i)
=============================================================================
