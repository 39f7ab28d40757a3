------------------------------- MODULE Receiver -------------------------------
(***************************************************************************)
(* What C05 asks of any receiver of any bytes, hostile ones included: it   *)
(* takes what has arrived, and all it may do besides is to deliver         *)
(* messages as long as they say they are, and to report errors.  There is  *)
(* no action for crashing, hanging or leaving input alone.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  arrived,   \* bytes that have arrived
  taken,     \* bytes taken
  over       \* whether the input has ended

cvars == << arrived, taken, over >>

CInit == arrived = 0 /\ taken = 0 /\ over = FALSE

CArrive(n) == ~over /\ arrived' = arrived + n /\ UNCHANGED << taken, over >>
CEnd       == over' = TRUE /\ UNCHANGED << arrived, taken >>
CTake      == taken' \in taken..arrived /\ UNCHANGED << arrived, over >>

CDeliver(declared, actual) == declared = actual /\ UNCHANGED cvars
CReport    == UNCHANGED cvars

\* Nothing more happens: everything that arrived has been taken.
CQuiet     == taken = arrived

CNext ==
  \/ \E n \in Nat : CArrive(n)
  \/ CEnd \/ CTake \/ CReport
  \/ \E n \in Nat : CDeliver(n, n)

CSpec == CInit /\ [][CNext]_cvars
=============================================================================
