-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A client's session: the handshake, then the messages of its chunk       *)
(* stream, each of which comes out of the control stream or of the command *)
(* endpoint of its class, and the messages submitted to those, which are   *)
(* written to the connection.                                              *)
(*                                                                         *)
(* The handshake is Handshake's.  What the bytes after it stand for is     *)
(* decided elsewhere (ChunkReader); here a message has arrived or not.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  TimeLen, PayLen, Version,
  Wedges   \* messages on other chunk streams, and errors, are in the way of those behind them

O == {"ctl", "conn", "stream", "data"}
Chans == {"in", "errs"}

VARIABLES
  ver, diff, sent, over, rd, wr, rerr, werr, res,   \* of the handshake; sent and over of everything
  called,  \* the handshake has been asked for
  inc,     \* messages that have arrived: [csid, to, bad]
  ind,     \* those that have come out
  on,      \* what runs: the control stream ("ctl"), the manager and its endpoints ("cmd")
  sub, wrt, want

hs == << ver, diff, sent, over, rd, wr, rerr, werr, res >>
mvars == << inc, ind, on, sub, wrt, want >>
svars == << hs, called, mvars >>

H == INSTANCE Handshake WITH avail <- sent, ended <- over

SInit(v) ==
  /\ H!HInit(v) /\ called = FALSE
  /\ inc = << >> /\ ind = {} /\ on = {}
  /\ sub = [o \in O |-> << >>] /\ wrt = [o \in O |-> 0]
  /\ want = [o \in O |-> [c \in Chans |-> 0]]

\* Where messages on a chunk stream go: to the control stream, the manager, or
\* nowhere. An error of the chunk stream as such has no chunk stream ID.
Branch(csid) == CASE csid = 2 -> "ctl" [] csid \in {3, 4, 5, 8} -> "cmd" [] OTHER -> "else"
Way(o) == IF o = "ctl" THEN "ctl" ELSE "cmd"

\* Messages of other chunk streams, and those of the manager's that are for none
\* of its endpoints, come out of nowhere.
Todo == { i \in (1..Len(inc)) \ ind : inc[i].to # "none" }
Chan(i) == IF inc[i].bad THEN "errs" ELSE "in"
First(i) == i \in Todo /\ ~\E j \in Todo : j < i /\ inc[j].csid = inc[i].csid /\ inc[j].to = inc[i].to /\ inc[j].bad = inc[i].bad

(***************************** The outside *********************************)
SCall       == ~called /\ called' = TRUE /\ UNCHANGED << hs, mvars >>
SSend(n)    == H!HSend(n) /\ UNCHANGED << called, mvars >>
SEnd        == H!HEnd /\ UNCHANGED << called, mvars >>
SAnswer(D)  == H!HAnswer(D) /\ UNCHANGED << called, mvars >>
SMessage(x) == inc' = Append(inc, x) /\ UNCHANGED << hs, called, ind, on, sub, wrt, want >>
SStart(b)   == b \notin on /\ on' = on \cup {b} /\ UNCHANGED << hs, called, inc, ind, sub, wrt, want >>
STake(o, c, n) == want' = [want EXCEPT ![o][c] = @ + n] /\ UNCHANGED << hs, called, inc, ind, on, sub, wrt >>
SSubmit(o, items) == sub' = [sub EXCEPT ![o] = @ \o items] /\ UNCHANGED << hs, called, inc, ind, on, wrt, want >>

(***************************** The session *********************************)
SShake(step) == called /\ step /\ UNCHANGED << called, mvars >>

SOut(o, c, i) ==
  /\ res = "ok"
  /\ First(i) = TRUE /\ inc[i].to = o /\ Chan(i) = c
  /\ Way(o) \in on /\ want[o][c] > 0
  /\ want' = [want EXCEPT ![o][c] = @ - 1] /\ ind' = ind \cup {i}
  /\ UNCHANGED << hs, called, inc, on, sub, wrt >>

Next1(o) == sub[o][wrt[o] + 1]
SWrite(o) ==
  /\ Way(o) \in on /\ wrt[o] < Len(sub[o]) /\ wrt' = [wrt EXCEPT ![o] = @ + 1]
  /\ UNCHANGED << hs, called, inc, ind, on, sub, want >>

(**************************** Nothing happens ******************************)
\* A message that nobody takes is in the way of everything that arrived after it,
\* and, as a command, of all commands.
Jam(i) ==
  IF inc[i].to = "none"
  THEN \/ Branch(inc[i].csid) = "cmd" /\ "cmd" \notin on
       \/ Wedges /\ Branch(inc[i].csid) = "else"
  ELSE First(i) /\ (Way(inc[i].to) \notin on \/ want[inc[i].to][Chan(i)] = 0)
Excused(i) == \E j \in 1..Len(inc) :
  /\ Jam(j)
  /\ j <= i \/ (Branch(inc[i].csid) = "cmd" /\ Branch(inc[j].csid) = "cmd")
Busy(o) == \E i \in Todo : inc[i].to = o /\ Jam(i)

AtRest ==
  /\ called => H!HQuiet
  /\ res = "ok" => \A i \in Todo : Excused(i)
  /\ \A o \in O : Way(o) \in on => wrt[o] = Len(sub[o]) \/ Busy(o)

(****************************** Invariants *********************************)
STypeOK ==
  /\ H!HTypeOK
  /\ ind \subseteq 1..Len(inc) /\ \A i \in ind : inc[i].to \in O
  /\ \A o \in O : wrt[o] \in 0..Len(sub[o]) /\ \A c \in Chans : want[o][c] >= 0
\* Nothing before the handshake has succeeded, and success only with a faithful client.
OnlyAfter == (ind # {} => res = "ok") /\ H!Faithful /\ (~called => rd = 0 /\ wr = 0 /\ res = "run")
================================================================================
