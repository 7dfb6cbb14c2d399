----------------------------- MODULE RandSweep ------------------------------
(* P21.  Seeds with every bit set alone or missing alone, and many others; from each, a      *)
(* sequence of every kind of request and the same again after reseeding.                     *)
EXTENDS Rand48
CONSTANTS Count
VARIABLES done
Byte(k) == IF k = 7 THEN 128 ELSE IF k = 6 THEN 64 ELSE IF k = 5 THEN 32 ELSE IF k = 4 THEN 16 ELSE IF k = 3 THEN 8 ELSE IF k = 2 THEN 4 ELSE IF k = 1 THEN 2 ELSE 1
Alone == {[i \in 1..4 |-> IF i = b THEN Byte(k) ELSE 0] : b \in 1..4, k \in 0..7}
Missing == {[i \in 1..4 |-> IF i = b THEN 255 - Byte(k) ELSE 255] : b \in 1..4, k \in 0..7}
Spread == {<<(37 * (i \div 256)) % 256, (i * 101) % 256, ((i * 7) + (i \div 256)) % 256, i % 256>> : i \in 0..Count}
Order(s) == LET k == (s[1] + s[4]) % 4 IN IF k = 0 THEN <<"r8", "r8", "r16", "dbl", "r32", "r8">> ELSE IF k = 1 THEN <<"r32", "dbl", "r16", "r16", "r8", "r32">> ELSE IF k = 2 THEN <<"dbl", "dbl", "r8", "r32", "r16", "dbl">> ELSE <<"r16", "r8", "r32", "r32", "dbl", "r16">>
RECURSIVE Draw(_, _, _)
Draw(w, ks, n) == IF n = 0 THEN <<>> ELSE LET x == Next48(w) k == ks[((n - 1) % 6) + 1] IN <<S(k, <<>>, Out(k, x))>> \o Draw(x, ks, n - 1)
Scene(s) == <<S("new", <<s>>, TRUE)>> \o Draw(Seed48(s), Order(s), 13) \o <<S("seed", <<s>>, TRUE)>> \o Draw(Seed48(s), Order(s), 13)
Init == done = <<>>
Next == done = <<>> /\ \E s \in Alone \cup Missing \cup Spread : done' = s /\ Emit(Scene(s))
Spec == Init /\ [][Next]_done
=============================================================================
