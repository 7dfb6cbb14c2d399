------------------------------- MODULE RtpTime --------------------------------
(* P19.  RTP times: seconds as a 32-bit word (two 16-bit limbs) and            *)
(* microseconds below 1000000; arithmetic with carry, order, NTP conversion.    *)
EXTENDS Common
CONSTANTS Wide, MaxOps
VARIABLES x, hist, ops
vars == <<x, hist, ops>>
M == 1000000
L == 65536
(* a time is <<high limb, low limb, microseconds>> *)
Secs == IF Wide THEN {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 65535>>, <<1, 0>>, <<17000, 33000>>, <<31829, 33151>>, <<31829, 33152>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65534>>, <<65535, 65535>>}
        ELSE {<<0, 0>>, <<0, 1>>, <<0, 65535>>, <<25000, 7>>, <<31829, 33151>>, <<65535, 65535>>}
Micros == IF Wide THEN {0, 1, 2, 3, 7, 65535, 65536, 123456, 499999, 500000, 500001, 700000, 999997, 999998, 999999}
          ELSE {0, 1, 500000, 999999}
Times == {<<s[1], s[2], m>> : s \in Secs, m \in Micros}
SecAdd(a, b, c) == LET lo == a[2] + b[2] + c
                       hi == a[1] + b[1] + (lo \div L)
                   IN <<hi % L, lo % L>>
SecSub(a, b, c) == LET lo == a[2] - b[2] - c
                       hi == a[1] - b[1] - (IF lo < 0 THEN 1 ELSE 0)
                   IN <<hi % L, lo % L>>      \* TLA+ modulus is never negative
Add(a, b) == LET u == a[3] + b[3] IN SecAdd(a, b, u \div M) \o <<u % M>>
Sub(a, b) == LET u == a[3] - b[3] IN SecSub(a, b, IF u < 0 THEN 1 ELSE 0) \o <<u % M>>
Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Cmp(a, b) == [lt |-> Less(a, b), gt |-> Less(b, a), elt |-> ~Less(b, a), egt |-> ~Less(a, b)]

(* NTP: offset 2208988800 = 0x83AA7E80; the fraction is microseconds * 2^32 / 10^6, digit by digit *)
Off == <<33706, 32384>>
RECURSIVE Frac(_, _)
Frac(m, n) == IF n = 0 THEN <<>> ELSE <<(m * 256) \div M>> \o Frac((m * 256) % M, n - 1)
NtpMsw(a) == SecAdd(a, Off, 0)
InEra(a) == Less(a, <<L - Off[1] - 1, L - Off[2], 0>>)  \* seconds + offset fit 32 bits
(* from NTP: fraction bytes to microseconds: floor(f * 10^6 / 2^32), digit by digit from the low end *)
RECURSIVE Micro(_)
Micro(f) == IF f = <<>> THEN 0 ELSE (f[1] * M + Micro(Tail(f))) \div 256
FromNtp(w, f) == IF w[1] < Off[1] \/ (w[1] = Off[1] /\ w[2] < Off[2]) THEN <<0, 0, 0>>
                 ELSE SecSub(w, Off, 0) \o <<Micro(f)>>
Fracs == {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<128, 0, 0, 0>>, <<0, 0, 16, 199>>, <<0, 0, 16, 198>>, <<0, 0, 0, 1>>,
          <<1, 2, 3, 4>>, <<127, 255, 255, 255>>, <<255, 255, 239, 56>>}
Mswords == {<<0, 0>>, <<33706, 32383>>, <<33706, 32384>>, <<33706, 32385>>, <<33705, 65535>>, <<33707, 0>>, <<40000, 1>>, <<65535, 65535>>, <<49152, 7>>}

Init == /\ ops = 0 /\ x \in Times /\ hist = <<S("new", x, x)>>
Step(op, a, nx, w) == x' = nx /\ hist' = Append(hist, S(op, a, w))
Next == /\ ops < MaxOps
        /\ \/ /\ ops' = ops + 1
              /\ \/ \E y \in Times : LET r == Add(x, y) IN Step("add", y, r, [x |-> r, y |-> y])
                 \/ \E y \in Times : LET r == Sub(x, y) IN Step("sub", y, r, [x |-> r, y |-> y])
                 \/ \E y \in Times : Step("cloned", y, x, [x |-> x, y |-> Add(x, y)])         \* the copy is added to
                 \/ \E y \in Times : LET r == Sub(x, y) IN Step("original", y, r, [x |-> r, y |-> x])  \* a copy is taken, then y subtracted from the original
                 \/ \E y \in Times : Step("cmp", y, x, Cmp(x, y))
                 \/ Step("self", <<>>, x, Cmp(x, x))
                 \/ InEra(x) /\ Step("ntp", <<Frac(x[3], 4), x[3]>>, x, [msw |-> NtpMsw(x), near |-> TRUE, back |-> <<x[1], x[2]>>, backnear |-> TRUE])
           \/ /\ ops' = MaxOps      \* a time read from NTP is known to one microsecond only: nothing follows
              /\ \E w \in Mswords, f \in Fracs : LET r == FromNtp(w, f) IN
                   Step("fromntp", <<w, f, r[3]>>, r, [sec |-> <<r[1], r[2]>>, near |-> TRUE, zero |-> IF w[1] < Off[1] \/ (w[1] = Off[1] /\ w[2] < Off[2]) THEN TRUE ELSE "*"])
Spec == Init /\ [][Next]_vars
View == <<x, ops>>

Carried == x[3] < M /\ x[1] < L /\ x[2] < L
SubUndoesAdd == \A y \in Times : Sub(Add(x, y), y) = x /\ Add(Sub(x, y), y) = x
TotalOrder == \A y \in Times : (Less(x, y) \/ Less(y, x) \/ x = y) /\ ~(Less(x, y) /\ Less(y, x))
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
