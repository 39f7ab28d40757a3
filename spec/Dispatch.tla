------------------------------- MODULE Dispatch -------------------------------
(***************************************************************************)
(* The command manager: incoming chunks go to the endpoint of their class, *)
(* each of which hands them on as commands, frames or errors, and writes   *)
(* what is submitted to it.  The manager may look after its endpoints:     *)
(* then it starts them with itself and stops them with itself.             *)
(*                                                                         *)
(* Nothing is said of how it does that.  What is fixed is which chunk may  *)
(* come out where and in what order, what must have come out by the time   *)
(* nothing more happens, and what stopping means.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Classes

CONSTANT Patience   \* how many chunks may still be seen to once close has been called

E == {"conn", "stream", "data"}

VARIABLES
  inc,     \* incoming chunks: [to, bad]
  inEnd,   \* there will be no more
  ind,     \* those an endpoint has seen to
  sub,     \* endpoint -> what was submitted to it
  wrt,     \* endpoint -> how much of that was written
  want,    \* endpoint -> channel -> takes that have not been answered
  mine,    \* the manager looks after its endpoints
  live,    \* endpoint -> "no" (not started), "yes" or "stopped"
  bye,     \* endpoints somebody else has asked to stop
  ph,      \* the manager: "open" "closing" "closed"
  since,   \* chunks seen to while closing
  lim      \* chunks it had taken when it was closed, or -1

dvars == << inc, inEnd, ind, sub, wrt, want, mine, live, bye, ph, since, lim >>

Chans == {"in", "errs"}

DInit(m) ==
  /\ inc = << >> /\ inEnd = FALSE /\ ind = {}
  /\ sub = [e \in E |-> << >>] /\ wrt = [e \in E |-> 0]
  /\ want = [e \in E |-> [c \in Chans |-> 0]]
  /\ mine = m /\ live = [e \in E |-> IF m THEN "yes" ELSE "no"] /\ bye = {}
  /\ ph = "open" /\ since = 0 /\ lim = -1

Todo == { i \in (1..Len(inc)) \ ind : inc[i].to # "none" }
Chan(i) == IF inc[i].bad THEN "errs" ELSE "in"
First(i) == i \in Todo /\ ~\E j \in Todo : j < i /\ inc[j].to = inc[i].to /\ inc[j].bad = inc[i].bad

(***************************** Environment *********************************)
DFeed(items) ==
  /\ ~inEnd /\ inc' = inc \o items
  /\ UNCHANGED << inEnd, ind, sub, wrt, want, mine, live, bye, ph, since, lim >>
DInEnd ==
  /\ ~inEnd /\ inEnd' = TRUE
  /\ UNCHANGED << inc, ind, sub, wrt, want, mine, live, bye, ph, since, lim >>
DSubmit(e, items) ==
  /\ sub' = [sub EXCEPT ![e] = @ \o items]
  /\ UNCHANGED << inc, inEnd, ind, wrt, want, mine, live, bye, ph, since, lim >>
DTake(e, c, n) ==
  /\ want' = [want EXCEPT ![e][c] = @ + n]
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, mine, live, bye, ph, since, lim >>
DStart(e) ==
  /\ ~mine /\ live[e] = "no" /\ live' = [live EXCEPT ![e] = "yes"]
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, want, mine, bye, ph, since, lim >>
DBye(e) ==
  /\ ~mine /\ ph = "closed" /\ live[e] = "yes" /\ e \notin bye /\ bye' = bye \cup {e}
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, want, mine, live, ph, since, lim >>
DClose ==
  /\ ph = "open" /\ ph' = "closing"
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, want, mine, live, bye, since, lim >>

(***************************** Completions *********************************)
\* A chunk comes out of the endpoint of its class, parsed or as an error.
DOut(e, c, i) ==
  /\ First(i) = TRUE /\ inc[i].to = e /\ Chan(i) = c
  /\ live[e] = "yes" /\ want[e][c] > 0
  /\ (ph = "closing" => since < Patience) = TRUE
  /\ (lim >= 0 => i <= lim) = TRUE
  /\ want' = [want EXCEPT ![e][c] = @ - 1] /\ ind' = ind \cup {i}
  /\ since' = IF ph = "closing" THEN since + 1 ELSE since
  /\ UNCHANGED << inc, inEnd, sub, wrt, mine, live, bye, ph, lim >>

Next1(e) == sub[e][wrt[e] + 1]
DWrite(e) ==
  /\ live[e] = "yes" /\ wrt[e] < Len(sub[e]) /\ wrt' = [wrt EXCEPT ![e] = @ + 1]
  /\ UNCHANGED << inc, inEnd, ind, sub, want, mine, live, bye, ph, since, lim >>

\* Closing the manager completes, or endpoints stop.
MayStop(e) == live[e] = "yes" /\ (e \in bye \/ (mine /\ ph # "open"))
DTurn(closed, stopped) ==
  /\ (closed => ph \in {"closing", "closed"}) = TRUE
  /\ ph' = IF closed THEN "closed" ELSE ph
  /\ (\A e \in stopped : MayStop(e)) = TRUE
  /\ live' = [e \in E |-> IF e \in stopped THEN "stopped" ELSE live[e]]
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, want, mine, bye, since, lim >>

DEndOf(e, c) ==
  /\ e # "conn" /\ live[e] = "stopped" /\ want[e][c] > 0
  /\ want' = [want EXCEPT ![e][c] = 0]
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, mine, live, bye, ph, since, lim >>

(**************************** Nothing happens ******************************)
\* A chunk that nobody takes keeps its endpoint from everything else, and, while
\* another is waiting behind it, all those after that one.
Jam(i) == First(i) /\ (live[inc[i].to] # "yes" \/ want[inc[i].to][Chan(i)] = 0)
Jammed(e) == \E i \in Todo : inc[i].to = e /\ Jam(i)

\* acc: how many submissions each endpoint has accepted; fed: how many chunks
\* the manager has.
AtRest(acc, fed) ==
  /\ fed <= Len(inc) /\ \A i \in ind : i <= fed
  /\ lim >= 0 => fed = lim
  /\ \A e \in E : acc[e] >= wrt[e] /\ acc[e] <= Len(sub[e])
  /\ \A e \in E : CASE live[e] = "no"      -> acc[e] = 0
                    [] live[e] = "yes"     -> Jammed(e) \/ (wrt[e] = Len(sub[e]) /\ e \notin bye)
                    [] live[e] = "stopped" -> acc[e] = wrt[e] /\ (e # "conn" => \A c \in Chans : want[e][c] = 0)
  /\ CASE ph = "open"    -> /\ \A i \in Todo : \E j \in Todo : j <= i /\ Jam(j)
                            /\ fed < Len(inc) => \E j \in Todo : j <= fed /\ Jam(j)
       [] ph = "closing" -> \E j \in Todo : j <= fed /\ Jam(j)
       [] ph = "closed"  -> mine => \/ \A e \in E : live[e] = "stopped"
                                    \/ \E j \in Todo : j <= fed /\ Jam(j) /\ live[inc[j].to] = "yes"

DQuiet(acc, fed) ==
  /\ AtRest(acc, fed) = TRUE
  /\ lim' = IF ph = "closed" THEN fed ELSE -1
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, want, mine, live, bye, ph, since >>

DTypeOK ==
  /\ ind \subseteq 1..Len(inc)
  /\ \A i \in ind : inc[i].to \in E
  /\ \A e \in E : wrt[e] \in 0..Len(sub[e]) /\ live[e] \in {"no", "yes", "stopped"} /\ \A c \in Chans : want[e][c] >= 0
  /\ ph \in {"open", "closing", "closed"}
  /\ mine /\ ph = "open" => \A e \in E : live[e] = "yes"
===============================================================================
