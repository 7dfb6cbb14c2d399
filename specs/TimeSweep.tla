----------------------------- MODULE TimeSweep ------------------------------
(* P19.  The statements of RtpTime at times spread over all microseconds and over all        *)
(* seconds: to NTP and back, and added to, subtracted from and compared with their likes.    *)
EXTENDS RtpTime
CONSTANTS Stride
At(i, m) == <<(i * 7919 + m) % L, (i * 104729 + 31 * m) % L, m>>
Other(a) == <<(a[2] * 3) % L, (a[1] + 5) % L, (M - a[3]) % M>>
Scene(a) == LET y == Other(a) s == Add(a, y) d == Sub(a, y) z == <<a[1], a[2], (a[3] + 1) % M>> IN
  <<S("new", a, a), S("cmp", y, Cmp(a, y)), S("cmp", z, Cmp(a, z)), S("cmp", a, Cmp(a, a)), S("add", y, [x |-> s, y |-> y]), S("cmp", a, Cmp(s, a)), S("sub", y, [x |-> a, y |-> y]), S("sub", y, [x |-> d, y |-> y]), S("add", y, [x |-> a, y |-> y])>>
  \o (IF InEra(a) THEN <<S("ntp", <<Frac(a[3], 4), a[3]>>, [msw |-> NtpMsw(a), near |-> TRUE, back |-> <<a[1], a[2]>>, backnear |-> TRUE])>> ELSE <<>>)
Read(w, f) == LET r == FromNtp(w, f) IN <<S("fromntp", <<w, f, r[3]>>, [sec |-> <<r[1], r[2]>>, near |-> TRUE, zero |-> IF w[1] < Off[1] \/ (w[1] = Off[1] /\ w[2] < Off[2]) THEN TRUE ELSE "*"])>>
SweepInit == x = <<0, 0, 0>> /\ hist = <<>> /\ ops = 0
SweepNext == ops = 0 /\ \E i \in 0..(M \div Stride) : ops' = i + 1 /\ UNCHANGED <<x, hist>> /\
   LET m == i * Stride IN m < M /\ Emit(Scene(At(i, m))) /\ Emit(Scene(At(i % 5, m))) /\ Emit(Scene(At(0, m))) /\ LET a == <<i % 31000, (i * 31) % L, m>> IN Emit(Scene(a))
   /\ Emit(Read(<<33000 + ((i * 13) % 32536), (i * 31) % L>>, <<i % 256, (i * 7) % 256, (i \div 256) % 256, (i * 3) % 256>>))
SweepSpec == SweepInit /\ [][SweepNext]_vars
=============================================================================
