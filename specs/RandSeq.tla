------------------------------- MODULE RandSeq --------------------------------
(* P21, one caller: every mix of requests and reseedings. *)
EXTENDS Rand48
CONSTANTS MaxOps
VARIABLES word, hist, ops
vars == <<word, hist, ops>>
SeedsW == {Zero4, Max4, <<0, 0, 0, 1>>, <<18, 52, 86, 120>>, <<128, 0, 0, 0>>, <<127, 255, 255, 255>>, <<0, 1, 0, 0>>}
Init == \E s \in SeedsW : /\ word = Seed48(s) /\ ops = 0 /\ hist = <<S("new", <<s>>, TRUE)>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E k \in Kinds : LET w == Next48(word) IN
                /\ word' = w /\ hist' = Append(hist, S(k, <<>>, Out(k, w)))
           \/ \E s \in SeedsW : word' = Seed48(s) /\ hist' = Append(hist, S("seed", <<s>>, TRUE))
Spec == Init /\ [][Next]_vars
View == <<word, ops, hist>>
InRange == \A i \in 1..6 : word[i] \in 0..255
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
