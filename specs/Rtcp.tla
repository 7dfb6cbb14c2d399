-------------------------------- MODULE Rtcp ---------------------------------
(* P18.  RTCP APP and BYE packets as a receiver must read them: a packet is a   *)
(* sequence of bytes of any length; it is edited (bytes set, appended, cut) and  *)
(* in every state both decoders must give what this module says.                *)
EXTENDS Common
CONSTANTS MaxEdits
VARIABLES b, edits
vars == <<b, edits>>

Pad(x) == (x[1] \div 32) % 2 = 1
Count(x) == x[1] % 32
PadCount(x) == x[Len(x)]
(* bytes left once the padding is taken off; -1 when the padding is impossible *)
Effective(x) == IF ~Pad(x) THEN Len(x)
                ELSE IF PadCount(x) % 4 # 0 \/ PadCount(x) >= Len(x) THEN -1 ELSE Len(x) - PadCount(x)
(* a padding count of zero with the padding bit set is left open by the property *)
Open(x) == Len(x) > 0 /\ Pad(x) /\ PadCount(x) = 0

App(x) ==
  LET n == IF x = <<>> THEN -1 ELSE Effective(x)
  IN IF n < 12 THEN [known |-> FALSE, subtype |-> 0, ssrc |-> Zero4, name |-> <<>>, data |-> <<>>, len |-> 0]
     ELSE [known |-> TRUE, subtype |-> Count(x), ssrc |-> SubSeq(x, 5, 8), name |-> SubSeq(x, 9, 12),
           data |-> SubSeq(x, 13, n), len |-> n - 12]
Bye(x) ==
  LET n  == IF x = <<>> THEN -1 ELSE Effective(x)
      sl == IF x = <<>> THEN 0 ELSE 4 + 4 * Count(x)
      unknown == [known |-> FALSE, count |-> 0, ssrc |-> <<>>, outside |-> <<Zero4, Zero4, Zero4>>, has |-> FALSE, rlen |-> 0, reason |-> <<>>]
  IN IF x = <<>> \/ n < 4 \/ sl > n THEN unknown
     ELSE IF sl < n /\ x[sl + 1] > n - sl - 1 THEN unknown
     ELSE [known |-> TRUE, count |-> Count(x),
           ssrc |-> [i \in 1..Count(x) |-> SubSeq(x, 4 * i + 1, 4 * i + 4)],
           outside |-> <<Zero4, Zero4, Zero4>>,   \* indices -1, count, count + 40
           has |-> sl < n,
           rlen |-> IF sl < n THEN x[sl + 1] ELSE 0,
           reason |-> IF sl < n THEN SubSeq(x, sl + 2, sl + 1 + x[sl + 1]) ELSE <<>>]

(* ---- the edits *)
Hdr(pad, cnt, pt) == <<128 + 32 * pad + cnt, pt, 0, 3>>
Word(i) == <<i, 100 + i, 200 + i, 255 - i>>
Reason(n) == <<n>> \o [i \in 1..n |-> 96 + i]
Seeds == {<<>>,
          Hdr(0, 5, 204) \o Word(1) \o <<78, 65, 77, 69>> \o Word(2) \o Word(3),
          Hdr(1, 31, 204) \o Word(1) \o <<110, 97, 109, 101>> \o Word(2) \o <<0, 0, 0, 4>>,
          Hdr(0, 0, 203), Hdr(0, 1, 203) \o Word(9),
          Hdr(0, 2, 203) \o Word(9) \o Word(8) \o Reason(7),
          Hdr(1, 3, 203) \o Word(9) \o Word(8) \o Word(7) \o Reason(3) \o <<0, 0, 0, 4>>,
          Hdr(0, 31, 203) \o FlatW([i \in 1..31 |-> Word(i)]) \o Reason(3)}
Edit ==
  \/ \E k \in 0..(Len(b) - 1) : b' = Take(b, k)
  \/ Len(b) >= 1 /\ \E p \in {0, 1} : \E c \in {0, 1, 2, 3, 4, 5, 15, 16, 30, 31} : b' = [b EXCEPT ![1] = 128 + 32 * p + c]
  \/ Len(b) >= 1 /\ \E v \in {0, 1, 2, 3, 4, 5, 8, 12, 13, 16, 20, 24, 128, 252, 255} : b' = [b EXCEPT ![Len(b)] = v]
  \/ \E i \in 5..(IF Len(b) < 24 THEN Len(b) ELSE 24) : \E v \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 255} : b' = [b EXCEPT ![i] = v]
  \/ Len(b) < 150 /\ \E n \in 1..4 : \E v \in {0, 4, 8, 65} : b' = b \o Append(Rep(0, n - 1), v)
  \/ Len(b) < 150 /\ \E n \in {0, 1, 3, 20} : b' = b \o Reason(n)

Init == b \in Seeds /\ edits = 0
Next == edits < MaxEdits /\ edits' = edits + 1 /\ Edit
Spec == Init /\ [][Next]_vars
View == b

(* ---- the specification's own properties *)
InsideApp == LET a == App(b) IN a.known => Len(a.data) = a.len /\ a.len + 12 <= Len(b)
InsideBye == LET y == Bye(b) IN y.known => 4 + 4 * y.count + Len(y.reason) <= Len(b) /\ Len(y.reason) = y.rlen
EmitCase == Open(b) \/ Emit(<<S("app", <<b>>, App(b)), S("bye", <<b>>, Bye(b)),
                              S("plain", <<b>>, [known |-> FALSE, data |-> b, len |-> Len(b)])>>)
=============================================================================
