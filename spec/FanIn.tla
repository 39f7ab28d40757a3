--------------------------------- MODULE FanIn ---------------------------------
(***************************************************************************)
(* Combined streams (chunk.MultiStream) as their users see them.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  sent,   \* source -> number of messages given to it so far
  over,   \* the sources that have ended
  joined, \* the sources that have been added
  taken,  \* source -> number of its messages that were taken
  want,   \* takes that have not been answered
  ended,  \* a take was answered with the end
  wait    \* waiting for the end: "no" "called" "returned"

fvars == << sent, over, joined, taken, want, ended, wait >>

FInit(S) ==
  /\ sent = [s \in S |-> 0] /\ over = {} /\ joined = {} /\ taken = [s \in S |-> 0]
  /\ want = 0 /\ ended = FALSE /\ wait = "no"

Sources == DOMAIN sent
\* Every source has ended and all their messages have been taken.
Through == \A s \in joined : s \in over /\ taken[s] = sent[s]

FSend(s, n) == s \notin over /\ sent' = [sent EXCEPT ![s] = @ + n] /\ UNCHANGED << over, joined, taken, want, ended, wait >>
FOver(s) == s \notin over /\ over' = over \cup {s} /\ UNCHANGED << sent, joined, taken, want, ended, wait >>
\* Nothing may be added once the end was waited for and came about.
FMayJoin == wait = "no" \/ \E s \in joined : s \notin over
FJoin(S) == FMayJoin /\ S \cap joined = {} /\ joined' = joined \cup S /\ UNCHANGED << sent, over, taken, want, ended, wait >>
FTake(n) == want' = want + n /\ UNCHANGED << sent, over, joined, taken, ended, wait >>
FWait == wait = "no" /\ wait' = "called" /\ UNCHANGED << sent, over, joined, taken, want, ended >>

FDeliver(s, n) ==
  /\ want > 0 /\ ~ended
  /\ s \in joined /\ n = taken[s] + 1 /\ n <= sent[s]
  /\ taken' = [taken EXCEPT ![s] = n] /\ want' = want - 1
  /\ UNCHANGED << sent, over, joined, ended, wait >>

FReturn == wait = "called" /\ Through /\ wait' = "returned" /\ UNCHANGED << sent, over, joined, taken, want, ended >>

FEnd ==
  /\ want > 0 /\ wait # "no" /\ Through
  /\ ended' = TRUE /\ want' = 0
  /\ UNCHANGED << sent, over, joined, taken, wait >>

FQuiet ==
  /\ want > 0 => /\ \A s \in joined : taken[s] = sent[s]
                 /\ wait = "no" \/ ~Through
  /\ wait = "called" => ~Through

FTypeOK == \A s \in Sources : taken[s] <= sent[s]
=============================================================================
