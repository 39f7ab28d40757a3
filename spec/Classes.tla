-------------------------------- MODULE Classes --------------------------------
(***************************************************************************)
(* Which of the manager's endpoints a chunk is for.                        *)
(***************************************************************************)
\* The class of a chunk. IDs are four bytes, most significant first.
Id(n) == << 0, 0, 0, n >>
Class(csid, msid, type) ==
  CASE csid = Id(3) \/ (csid = Id(8) /\ msid = Id(0)) -> "conn"
    [] type = 20 /\ (csid = Id(4) \/ (csid = Id(8) /\ msid = Id(1))) -> "stream"
    [] csid = Id(4) /\ type \in {8, 9, 18} -> "data"
    [] OTHER -> "none"
================================================================================
