------------------------------- MODULE Crowd --------------------------------
(* P20.  The table of colliding addresses with a crowd in it: addresses that differ in a   *)
(* single part anywhere, seen at times that differ by a microsecond.  All of them are       *)
(* asked for after every step.                                                                *)
EXTENDS Common
CONSTANTS MaxOps, NAddrs
VARIABLES table, hist, ops
vars == <<table, hist, ops>>

OneOf(X) == {RandomElement(X)}
(* ---- addresses: kind, host, port *)
Ports == <<5004, 0, 1, 256, 257, 65535, 5005, 5060, 4, 1024>>
V4 == <<"10.0.0.1", "10.0.0.2", "10.0.1.1", "10.1.0.1", "11.0.0.1", "138.0.0.1", "10.0.0.129", "0.0.0.0", "255.255.255.255", "127.0.0.1", "1.0.0.10">>
V6 == <<"fe80::1", "fe80::2", "fe80::100", "fe80::1:1", "fe80::1:0:1", "fe80:0:0:1::1", "fe80:0:1::1", "fe80:1::1", "fe81::1", "::1", "::", "ff02::1">>
Texts == <<"10.0.0.1", "a", "b", "ab", "a.b", "", "A", "a ", "fe80::1">>
Along(k, hs) == Flat([h \in 1..Len(hs) |-> [p \in 1..(IF h = 1 THEN Len(Ports) ELSE 2) |-> [k |-> k, h |-> hs[h], p |-> Ports[p]]]])
Numbered == [i \in 1..NAddrs |-> [k |-> "ip", h |-> "172." \o ToString(16 + i \div 100) \o "." \o ToString(i % 100) \o "." \o ToString((i * 7) % 251), p |-> 5000 + 2 * (i % 20)]]
Addrs == Along("ip", V4) \o Along("ip", V6) \o Along("host", Texts) \o Numbered
ASSUME \A i, j \in 1..Len(Addrs) : i # j => Addrs[i] # Addrs[j]

(* ---- times: seconds and microseconds *)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Plus(a, b) == LET u == a[2] + b[2] IN <<a[1] + b[1] + (u \div 1000000), u % 1000000>>
Seconds == <<5, 6, 7, 1000000000>>
Micros == <<0, 1, 2, 499999, 500000, 999999>>
Moments == Flat([s \in 1..Len(Seconds) |-> [u \in 1..Len(Micros) |-> <<Seconds[s], Micros[u]>>]])
Clock == Range(Moments)
Delays == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 500000>>, <<0, 999999>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<10, 0>>, <<999999995, 0>>}

(* table[i] = the time at which address i was last seen, <<>> when it is not held *)
Held(t) == [i \in 1..Len(Addrs) |-> t[i] # <<>>]
Do(op, a, t, w) == ops < MaxOps /\ ops' = ops + 1 /\ table' = t /\ hist' = Append(hist, S(op, a, w))
See(i, at) == LET t == [table EXCEPT ![i] = at] IN Do("see", <<Addrs[i], at[1], at[2]>>, t, [new |-> table[i] = <<>>, err |-> FALSE, has |-> Held(t)])
Init == /\ table = [i \in 1..Len(Addrs) |-> <<>>] /\ ops = 0 /\ hist = <<S("crowd", <<Addrs>>, Held(table))>>
(* everybody at once, each at a time of their own *)
Times(r) == [i \in 1..Len(Addrs) |-> LET x == (r + 7 * i * i + i * (r % 13)) % (Len(Moments) + 6) IN IF x < Len(Moments) THEN Moments[x + 1] ELSE <<>>]
Flood == \E r \in OneOf(0..9999) :
   LET ats == Times(r) t == [i \in 1..Len(Addrs) |-> IF ats[i] = <<>> THEN table[i] ELSE ats[i]]
       who == SelectSeq([i \in 1..Len(Addrs) |-> i], LAMBDA i : ats[i] # <<>>)
   IN Do("flood", <<Map(who, LAMBDA i : <<i, ats[i][1], ats[i][2]>>)>>, t, [new |-> Map(who, LAMBDA i : table[i] = <<>>), has |-> Held(t)])
Expire == \E now \in OneOf(Clock), d \in OneOf(Delays) :
   LET t == [i \in 1..Len(Addrs) |-> IF table[i] # <<>> /\ Less(Plus(table[i], d), now) THEN <<>> ELSE table[i]] IN Do("expire", <<now[1], now[2], d[1], d[2]>>, t, Held(t))
Next == \/ \E i \in OneOf(1..Len(Addrs)), at \in OneOf(Clock) : See(i, at)
        \/ Flood \/ Expire
        \/ (\E x \in OneOf(1..6) : x = 1) /\ Do("clear", <<>>, [i \in 1..Len(Addrs) |-> <<>>], Held([i \in 1..Len(Addrs) |-> <<>>]))
Spec == Init /\ [][Next]_vars
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
