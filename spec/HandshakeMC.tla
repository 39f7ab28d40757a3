------------------------------ MODULE HandshakeMC ------------------------------
(***************************************************************************)
(* Servers and clients with the actual bytes, at reduced lengths: two      *)
(* connections at once, each with a client that waits for the server where *)
(* the protocol makes it wait, or does not, and that answers the challenge *)
(* faithfully, wrongly, or with that of the other connection.  The servers *)
(* draw their challenges from a supply without repetitions.                *)
(* Checked: a handshake succeeds exactly if it should have, the echo is    *)
(* exact, and (Settled) nobody is left waiting for nothing.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS PayLen, Alphabet, ClientBytes, Versions, Conns

TimeLen == 1
Packet == TimeLen + PayLen
Total == 1 + 2 * Packet

Strings == [1..PayLen -> Alphabet]

VARIABLES
  in,     \* bytes on their way to the server
  sent,   \* bytes the client has sent in all
  out,    \* bytes the server has written
  chal,   \* the server's challenge, or << >>
  got,    \* bytes the server has read
  res,    \* "run" "ok" "err"
  v,      \* the version the client names
  plan,   \* what the client answers: "true" or "wrong" or "other"
  c2      \* the client's answer, once it is determined

vars == << in, sent, out, chal, got, res, v, plan, c2 >>

Init ==
  /\ in = [c \in Conns |-> << >>] /\ sent = [c \in Conns |-> 0] /\ out = [c \in Conns |-> << >>]
  /\ chal = [c \in Conns |-> << >>] /\ got = [c \in Conns |-> << >>] /\ res = [c \in Conns |-> "run"]
  /\ v \in [Conns -> Versions]
  /\ plan \in [Conns -> {"true", "wrong", "other"}]
  /\ c2 = [c \in Conns |-> << >>]

Put(c, b) == /\ in' = [in EXCEPT ![c] = Append(@, b)] /\ sent' = [sent EXCEPT ![c] = @ + 1]

S1(c) == SubSeq(out[c], 2 + TimeLen, 1 + Packet)

\* The client goes on by a byte, if it has what it needs for that.
Client(c) ==
  /\ sent[c] < Total
  /\ \/ sent[c] = 0 /\ Put(c, v[c]) /\ UNCHANGED c2
     \/ sent[c] \in 1..(Packet + TimeLen) /\ (\E b \in ClientBytes : Put(c, b)) /\ UNCHANGED c2
     \/ sent[c] > Packet + TimeLen /\ c2[c] # << >> /\ Put(c, c2[c][sent[c] - Packet - TimeLen]) /\ UNCHANGED c2
     \/ /\ sent[c] = 1 + Packet + TimeLen /\ c2[c] = << >> /\ Len(out[c]) >= 1 + Packet
        /\ \E a \in Strings :
             /\ \/ plan[c] = "true" /\ a = S1(c)
                \/ plan[c] = "wrong" /\ a # S1(c)
                \/ plan[c] = "other" /\ \E d \in Conns \ {c} : Len(out[d]) >= 1 + Packet /\ a = S1(d)
             /\ c2' = [c2 EXCEPT ![c] = a]
        /\ UNCHANGED << in, sent >>
  /\ UNCHANGED << out, chal, got, res, v, plan >>

Server(c) ==
  /\ res[c] = "run"
  /\ LET n == Len(got[c])
         Read == /\ in[c] # << >> /\ in' = [in EXCEPT ![c] = Tail(@)]
                 /\ got' = [got EXCEPT ![c] = Append(@, Head(in[c]))]
                 /\ UNCHANGED << out, chal, res >>
         Say(s) == out' = [out EXCEPT ![c] = @ \o s] /\ UNCHANGED << in, got >>
         End(r) == res' = [res EXCEPT ![c] = r] /\ UNCHANGED << in, got, out, chal >>
     IN CASE n = 0 -> Read
          [] n >= 1 /\ got[c][1] # 3 -> End("err")
          [] n >= 1 /\ got[c][1] = 3 /\ out[c] = << >> -> Say(<< 3 >>) /\ UNCHANGED << chal, res >>
          [] n \in 1..Packet /\ got[c][1] = 3 /\ out[c] # << >> -> Read
          [] n = 1 + Packet /\ got[c][1] = 3 /\ Len(out[c]) = 1 ->
               \E x \in Strings \ { chal[d] : d \in Conns } :
                 /\ chal' = [chal EXCEPT ![c] = x]
                 /\ Say(<< 0 >> \o [i \in 1..PayLen |-> x[i]] \o SubSeq(got[c], 2, 1 + Packet))
                 /\ UNCHANGED res
          [] n \in (1 + Packet)..(Total - 1) /\ got[c][1] = 3 /\ Len(out[c]) = Total -> Read
          [] n = Total /\ Len(out[c]) = Total ->
               End(IF SubSeq(got[c], 2 + Packet + TimeLen, Total) = [i \in 1..PayLen |-> chal[c][i]] THEN "ok" ELSE "err")
          [] OTHER -> FALSE
  /\ UNCHANGED << sent, v, plan, c2 >>

Next == \E c \in Conns : Client(c) \/ Server(c)
Spec == Init /\ [][Next]_vars

(* What each server does is what Handshake says. *)
DiffOf(c) == IF c2[c] = << >> THEN {} ELSE { i \in 1..PayLen : c2[c][i] # chal[c][i] }
H(c) == INSTANCE Handshake WITH
  Version <- 3,
  ver <- v[c],
  diff <- DiffOf(c),
  avail <- sent[c], ended <- FALSE,
  rd <- Len(got[c]), wr <- Len(out[c]), rerr <- FALSE, werr <- FALSE, res <- res[c]

HStep(c) ==
  \/ H(c)!HSend(1)
  \/ \E D \in SUBSET (1..PayLen) : H(c)!HAnswer(D)
  \/ H(c)!HRead(1)
  \/ \E n \in 1..Total : H(c)!HWrite(n)
  \/ H(c)!HSucceed
  \/ H(c)!HFail
Refines == [][\A c \in Conns : HStep(c) \/ UNCHANGED << sent[c], c2[c], got[c], out[c], res[c] >>]_vars

TypeOK == \A c \in Conns : H(c)!HTypeOK /\ H(c)!Faithful
Exact == \A c \in Conns :
  /\ Len(out[c]) >= 1 => out[c][1] = 3
  /\ Len(out[c]) = Total => SubSeq(out[c], 2 + Packet, Total) = SubSeq(got[c], 2, 1 + Packet)
Own == \A c, d \in Conns : c # d /\ chal[c] # << >> => chal[c] # chal[d]
Right == \A c \in Conns :
  /\ res[c] = "ok" => plan[c] = "true"
  /\ res[c] = "err" => got[c][1] # 3 \/ plan[c] # "true"
\* A server at rest is one whose client has nothing more to say or who is done.
Settled == \A c \in Conns : ~ENABLED Server(c) => H(c)!HQuiet
=============================================================================
