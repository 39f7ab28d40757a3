--------------------------------- MODULE Amf0 ---------------------------------
(***************************************************************************)
(* The part of AMF0 that RTMP commands use.  A value is a record           *)
(*   t   "num" "bool" "str" "obj" "null" "arr"                             *)
(*   b   the bytes of a number (8), a boolean (1) or a string              *)
(*   f   the fields of an object or an array: a sequence of [k, v], where  *)
(*       k is a string's bytes                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Val(t, b, f) == [t |-> t, b |-> b, f |-> f]
Null == Val("null", << >>, << >>)
Str(b) == Val("str", b, << >>)
Num(b) == Val("num", b, << >>)
Zero == Num(<< 0, 0, 0, 0, 0, 0, 0, 0 >>)

Len2(n) == << n \div 256, n % 256 >>

RECURSIVE Enc(_), EncFields(_)
Enc(v) ==
  CASE v.t = "num"  -> << 0 >> \o v.b
    [] v.t = "bool" -> << 1 >> \o v.b
    [] v.t = "str"  -> << 2 >> \o Len2(Len(v.b)) \o v.b
    [] v.t = "obj"  -> << 3 >> \o EncFields(v.f)
    [] v.t = "null" -> << 5 >>
    [] v.t = "arr"  -> << 8, 0, 0 >> \o Len2(Len(v.f)) \o EncFields(v.f)
EncFields(f) ==
  IF f = << >> THEN << 0, 0, 9 >>
  ELSE Len2(Len(f[1].k)) \o f[1].k \o Enc(f[1].v) \o EncFields(Tail(f))

RECURSIVE EncAll(_)
EncAll(vs) == IF vs = << >> THEN << >> ELSE Enc(vs[1]) \o EncAll(Tail(vs))

(***************************************************************************)
(* Decoding from the bytes W after position p: whether there is a value,   *)
(* where it ends, and what it is.                                          *)
(***************************************************************************)
None == [ok |-> FALSE, p |-> 0, v |-> Null]
Got(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

StrAt(W, p) ==   \* two bytes of length and as many bytes
  IF Len(W) < p + 2 THEN None
  ELSE LET n == W[p + 1] * 256 + W[p + 2] IN
       IF Len(W) < p + 2 + n THEN None
       ELSE Got(p + 2 + n, Str(SubSeq(W, p + 3, p + 2 + n)))

RECURSIVE Dec(_, _), DecFields(_, _, _, _)
Dec(W, p) ==
  IF Len(W) <= p THEN None
  ELSE LET m == W[p + 1] IN
    CASE m = 0 -> IF Len(W) < p + 9 THEN None ELSE Got(p + 9, Num(SubSeq(W, p + 2, p + 9)))
      [] m = 1 -> IF Len(W) < p + 2 THEN None
                  ELSE Got(p + 2, Val("bool", << IF W[p + 2] = 0 THEN 0 ELSE 1 >>, << >>))
      [] m = 2 -> StrAt(W, p + 1)
      [] m = 3 -> DecFields(W, p + 1, "obj", << >>)
      [] m = 5 -> Got(p + 1, Null)
      [] m = 8 -> IF Len(W) < p + 5 THEN None ELSE DecFields(W, p + 5, "arr", << >>)
      [] OTHER -> None
DecFields(W, p, t, f) ==
  LET k == StrAt(W, p) IN
  IF ~k.ok THEN None
  ELSE IF Len(W) > k.p /\ W[k.p + 1] = 9 THEN (IF k.v.b = << >> THEN Got(k.p + 1, Val(t, << >>, f)) ELSE None)
  ELSE LET v == Dec(W, k.p) IN
       IF ~v.ok THEN None ELSE DecFields(W, v.p, t, Append(f, [k |-> k.v.b, v |-> v.v]))

\* The values W consists of; W ends early if they are incomplete.
RECURSIVE DecN(_, _, _)
DecN(W, p, n) ==
  IF n = 0 THEN [ok |-> TRUE, p |-> p, vs |-> << >>]
  ELSE LET v == Dec(W, p) IN
       IF ~v.ok THEN [ok |-> FALSE, p |-> 0, vs |-> << >>]
       ELSE LET r == DecN(W, v.p, n - 1) IN
            IF r.ok THEN [r EXCEPT !.vs = << v.v >> \o @] ELSE r
=============================================================================
