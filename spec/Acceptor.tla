------------------------------- MODULE Acceptor -------------------------------
(***************************************************************************)
(* The server: every connection that is dialed becomes exactly one client, *)
(* bound to that connection.  Clients are handed to whoever asks for one.  *)
(*                                                                         *)
(* Nothing is said of the order in which connections become clients.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  dialed,  \* how many connections were dialed
  given,   \* the connections of the clients handed out, in that order
  want,    \* how many have been asked for and not been handed out yet
  short,   \* accepting a connection fails at present
  faults,  \* or has failed before
  errs,    \* errors reported since it has
  ears,    \* how many errors somebody is waiting for
  closed

avars == << dialed, given, want, short, faults, errs, ears, closed >>

AInit ==
  /\ dialed = 0 /\ given = << >> /\ want = 0 /\ short = FALSE /\ faults = FALSE
  /\ errs = 0 /\ ears = 0 /\ closed = FALSE

Given == { given[i] : i \in 1..Len(given) }
Pending == (1..dialed) \ Given

(***************************** The outside *********************************)
ADial      == ~closed /\ dialed' = dialed + 1 /\ UNCHANGED << given, want, short, faults, errs, ears, closed >>
ARefused   == closed /\ UNCHANGED avars
ATake(n)   == want' = want + n /\ UNCHANGED << dialed, given, short, faults, errs, ears, closed >>
AListen(n) == ears' = ears + n /\ UNCHANGED << dialed, given, want, short, faults, errs, closed >>
AShort(b)  == /\ short # b /\ short' = b /\ errs' = 0 /\ faults' = TRUE
              /\ UNCHANGED << dialed, given, want, ears, closed >>
AClose     == ~closed /\ closed' = TRUE /\ faults' = TRUE /\ UNCHANGED << dialed, given, want, short, errs, ears >>

(****************************** The server *********************************)
AGive(c) ==
  /\ want > 0 /\ c \in Pending
  /\ given' = Append(given, c) /\ want' = want - 1
  /\ UNCHANGED << dialed, short, faults, errs, ears, closed >>
AError ==
  /\ faults /\ ears > 0 /\ ears' = ears - 1 /\ errs' = errs + 1
  /\ UNCHANGED << dialed, given, want, short, faults, closed >>

\* Nothing more happens. An error nobody has listened to is in the way.
AtRest ==
  ~closed /\ want > 0 /\ Pending # {} =>
    IF short THEN errs > 0 \/ ears = 0 ELSE faults /\ ears = 0

ATypeOK ==
  /\ Given \subseteq 1..dialed
  /\ \A i, j \in 1..Len(given) : given[i] = given[j] => i = j
  /\ want >= 0 /\ ears >= 0 /\ errs >= 0
================================================================================
