------------------------------ MODULE CommandsMC ------------------------------
(***************************************************************************)
(* Amf0 and Commands on small values: encoding and decoding are inverses,  *)
(* whatever follows; no proper prefix of a command is one; a command of    *)
(* one table is read as itself and by name only.                           *)
(***************************************************************************)
EXTENDS Commands, TLC

CONSTANT Depth

VARIABLES kind, x

Letters == "abcdefghijklmnopqrstuvwxyz"
Capitals == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Code(c) ==
  CASE \E i \in 1..26 : SubSeq(Letters, i, i) = c -> 96 + (CHOOSE i \in 1..26 : SubSeq(Letters, i, i) = c)
    [] \E i \in 1..26 : SubSeq(Capitals, i, i) = c -> 64 + (CHOOSE i \in 1..26 : SubSeq(Capitals, i, i) = c)
    [] c = "_" -> 95
    [] c = "2" -> 50
Bytes(s) == [i \in 1..Len(s) |-> Code(SubSeq(s, i, i))]
ASSUME \A e \in ConnTable \cup StreamTable : e[1] = Bytes(e[2])
ASSUME ResultBytes = Bytes("_result") /\ OnStatusBytes = Bytes("onStatus")

Nums == { Zero.b, << 63, 240, 0, 0, 0, 0, 0, 0 >>, << 192, 5, 9, 0, 9, 0, 0, 9 >> }
Strs == { << >>, << 0 >>, << 9 >>, << 102, 111, 111 >>, << 0, 0, 9 >> }
Keys == { << 97 >>, << 0, 0 >>, << 9 >> }

Plain == { Num(b) : b \in Nums } \cup { Str(b) : b \in Strs } \cup { Val("bool", << i >>, << >>) : i \in {0, 1} } \cup { Null }
Fields(V) == { << >> } \cup { << [k |-> k, v |-> v] >> : k \in Keys, v \in V }
             \cup { << [k |-> << 97 >>, v |-> v], [k |-> << 98, 9 >>, v |-> Null] >> : v \in V }
RECURSIVE Values(_)
Values(d) == IF d = 0 THEN Plain
             ELSE Values(d - 1) \cup { Val(t, << >>, f) : t \in {"obj", "arr"}, f \in Fields(Values(d - 1)) }

Of(k) == CASE k = "num" -> { Num(b) : b \in Nums } [] k = "str" -> { Str(b) : b \in Strs }
           [] k = "bool" -> { Val("bool", << 0 >>, << >>), Val("bool", << 1 >>, << >>) }
           [] k = "null" -> { Null }
           [] k = "obj" -> { Null } \cup { Val("obj", << >>, f) : f \in Fields(Plain) }

RECURSIVE Lists(_)
Lists(ks) == IF ks = << >> THEN { << >> } ELSE { << v >> \o r : v \in Of(ks[1]), r \in Lists(Tail(ks)) }

Init ==
  \/ kind = "value" /\ x \in Values(Depth)
  \/ kind = "conn" /\ \E e \in ConnTable : x \in { << e, vs >> : vs \in Lists(e[3]) }
  \/ kind = "stream" /\ \E e \in StreamTable : x \in { << e, vs >> : vs \in Lists(e[3]) }
Next == FALSE /\ UNCHANGED << kind, x >>
Spec == Init /\ [][Next]_<< kind, x >>

Prefixes(W) == { SubSeq(W, 1, n) : n \in 0..(Len(W) - 1) }

Inverse == kind = "value" =>
  /\ \A tail \in { << >>, << 9 >>, << 0, 0, 9 >> } : Dec(Enc(x) \o tail, 0) = Got(Len(Enc(x)), x)
  /\ \A P \in Prefixes(Enc(x)) : ~Dec(P, 0).ok
  /\ \A i \in 1..Len(Enc(x)) : Enc(x)[i] \in 0..255

IsCmd ==
  /\ kind = "conn" =>
       LET W == EncAll(<< Str(x[1][1]) >> \o x[2]) IN
       /\ ConnCmd(W) = Cmd(x[1][2], x[2]) /\ ~StreamCmd(W).ok
       /\ \A P \in Prefixes(W) : ~ConnCmd(P).ok
  /\ kind = "stream" =>
       \A o \in { Null, Val("obj", << >>, << >>) } :
         LET W == EncAll(<< Str(x[1][1]), Zero, o >> \o x[2]) IN
         /\ StreamCmd(W) = Cmd(x[1][2], x[2]) /\ ~ConnCmd(W).ok
         /\ \A P \in Prefixes(W) : ~StreamCmd(P).ok
=============================================================================
