-------------------------------- MODULE Duplex --------------------------------
(***************************************************************************)
(* An endpoint that relays in both directions: incoming chunks are parsed  *)
(* and delivered, submitted messages are packaged and written, and what    *)
(* cannot be parsed, packaged or written is reported as an error.  Control *)
(* streams, net connections, net streams and data streams are endpoints.   *)
(*                                                                         *)
(* Nothing is said of how an endpoint does it.  What is fixed is which     *)
(* item may come out where and in what order, what must have come out by   *)
(* the time nothing more happens, and what closing means.                  *)
(*                                                                         *)
(* An item (incoming or submitted) is a record with at least               *)
(*   bad   "" or the kind of error it must cause                           *)
(*   p     for a submitted one: that error comes before the write, not of  *)
(*         it                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Patience,  \* how many items may still be handled once close has been called
  Ends       \* closing ends the delivery and the error channel

VARIABLES
  inc,      \* incoming items
  inEnd,    \* there will be no more
  ind,      \* incoming items dealt with
  sub,      \* submitter -> its items
  wrt,      \* submitter -> number of items written, tried, or found impossible to package
  owed,     \* errors of submitted items not reported yet: << kind, submitter, item >>
  want,     \* channel ("in", "errs") -> takes that have not been answered
  ended,    \* channels that have answered with their end
  held,     \* the transport does not take anything at the moment
  busy,     \* and is in the middle of something
  since,    \* items handled since close was called
  ph        \* "open" "closing" "closed"

xvars == << inc, inEnd, ind, sub, wrt, owed, want, ended, held, busy, since, ph >>

Submitters == DOMAIN sub
Chans == {"in", "errs"}

XInit(subs) ==
  /\ inc = << >> /\ inEnd = FALSE /\ ind = {}
  /\ sub = [k \in subs |-> << >>] /\ wrt = [k \in subs |-> 0] /\ owed = {}
  /\ want = [c \in Chans |-> 0] /\ ended = {} /\ held = FALSE /\ busy = FALSE /\ since = 0 /\ ph = "open"

Todo == (1..Len(inc)) \ ind
Ahead(i) == { j \in Todo : j < i /\ (inc[j].bad = "") = (inc[i].bad = "") }

(***************************** Environment *********************************)
XFeed(items) ==
  /\ ~inEnd /\ inc' = inc \o items
  /\ UNCHANGED << inEnd, ind, sub, wrt, owed, want, ended, held, busy, since, ph >>
XInEnd ==
  /\ ~inEnd /\ inEnd' = TRUE
  /\ UNCHANGED << inc, ind, sub, wrt, owed, want, ended, held, busy, since, ph >>
XSubmit(k, items) ==
  /\ sub' = [sub EXCEPT ![k] = @ \o items]
  /\ UNCHANGED << inc, inEnd, ind, wrt, owed, want, ended, held, busy, since, ph >>
XTake(c, n) ==
  /\ want' = [want EXCEPT ![c] = @ + n]
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, owed, ended, held, busy, since, ph >>
XHold(b) ==
  /\ held' = b /\ busy' = (busy /\ b)
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, owed, want, ended, since, ph >>
XClose ==
  /\ ph = "open" /\ ph' = "closing"
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, owed, want, ended, held, busy, since >>

(***************************** Completions *********************************)
May == (ph = "open") \/ (ph = "closing" /\ since < Patience)
Handled == since' = IF ph = "closing" THEN since + 1 ELSE since

XDeliver(i) ==
  /\ May /\ i \in Todo /\ inc[i].bad = "" /\ Ahead(i) = {}
  /\ want["in"] > 0 /\ want' = [want EXCEPT !["in"] = @ - 1]
  /\ ind' = ind \cup {i} /\ Handled
  /\ UNCHANGED << inc, inEnd, sub, wrt, owed, ended, held, busy, ph >>

\* The error of an incoming item is reported.
XErrIn(i) ==
  /\ May /\ i \in Todo /\ inc[i].bad # "" /\ Ahead(i) = {}
  /\ want["errs"] > 0 /\ want' = [want EXCEPT !["errs"] = @ - 1]
  /\ ind' = ind \cup {i} /\ Handled
  /\ UNCHANGED << inc, inEnd, sub, wrt, owed, ended, held, busy, ph >>

Next1(k) == sub[k][wrt[k] + 1]
Pack(x) == x.bad # "" /\ x.p

\* The next item of a submitter is handed to the transport.
XWrite(k) ==
  /\ May /\ wrt[k] < Len(sub[k]) /\ ~Pack(Next1(k))
  /\ wrt' = [wrt EXCEPT ![k] = @ + 1]
  /\ owed' = IF Next1(k).bad = "" THEN owed ELSE owed \cup {<< Next1(k).bad, k, wrt[k] + 1 >>}
  /\ Handled /\ ~busy /\ busy' = held
  /\ UNCHANGED << inc, inEnd, ind, sub, want, ended, held, ph >>

\* The next item of a submitter turns out to be impossible to package.
XSpoilt(k) ==
  /\ May /\ wrt[k] < Len(sub[k]) /\ Pack(Next1(k))
  /\ wrt' = [wrt EXCEPT ![k] = @ + 1]
  /\ owed' = owed \cup {<< Next1(k).bad, k, wrt[k] + 1 >>}
  /\ Handled
  /\ UNCHANGED << inc, inEnd, ind, sub, want, ended, held, busy, ph >>

\* The error of a submitted item is reported.
XErrOut(x) ==
  /\ ph # "closed" /\ x \in owed
  /\ want["errs"] > 0 /\ want' = [want EXCEPT !["errs"] = @ - 1]
  /\ owed' = owed \ {x}
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, ended, held, busy, since, ph >>

XClosed ==
  /\ ph = "closing" /\ ph' = "closed"
  /\ owed = {} /\ ~busy
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, owed, want, ended, held, busy, since >>

XEndOf(c) ==
  /\ ph = "closed" /\ want[c] > 0
  /\ want' = [want EXCEPT ![c] = 0] /\ ended' = ended \cup {c}
  /\ UNCHANGED << inc, inEnd, ind, sub, wrt, owed, held, busy, since, ph >>

(**************************** Nothing happens ******************************)
\* Something nobody takes may keep an endpoint from everything else.
Taken(bad) == want[IF bad = "" THEN "in" ELSE "errs"] > 0
Stuck ==
  \/ \E i \in Todo : Ahead(i) = {} /\ ~Taken(inc[i].bad)
  \/ want["errs"] = 0 /\ (owed # {} \/ \E k \in Submitters : wrt[k] < Len(sub[k]) /\ Pack(Next1(k)))
  \/ busy

Finished == Todo = {} /\ owed = {} /\ \A k \in Submitters : wrt[k] = Len(sub[k])

\* acc: how many items of each submitter have been accepted; fed: how many
\* incoming items, or -1 if that is not known. What was accepted is seen to.
XQuiet(acc, fed) ==
  /\ fed >= 0 => fed >= Cardinality(ind) /\ fed <= Len(inc)
  /\ \A k \in Submitters : acc[k] >= wrt[k] /\ acc[k] <= Len(sub[k])
  /\ CASE ph = "open" -> Stuck \/ Finished
       [] ph = "closing" -> Stuck
       [] ph = "closed" -> /\ Ends => \A c \in Chans : want[c] = 0
                           /\ \A k \in Submitters : acc[k] = wrt[k]
                           /\ fed >= 0 => fed = Cardinality(ind)

XTypeOK ==
  /\ ind \subseteq 1..Len(inc)
  /\ \A k \in Submitters : wrt[k] \in 0..Len(sub[k])
  /\ \A x \in owed : x[3] <= wrt[x[2]] /\ sub[x[2]][x[3]].bad = x[1] /\ x[1] # ""
  /\ \A c \in Chans : want[c] >= 0
  /\ ph \in {"open", "closing", "closed"}
  /\ ph = "closed" => owed = {}
=============================================================================
