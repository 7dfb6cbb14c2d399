------------------------------ MODULE Collision -------------------------------
(* P20.  The table of colliding addresses.  `slots' are the caller's address     *)
(* objects, which the caller keeps editing; the table holds the values they had. *)
EXTENDS Common
CONSTANTS NSlots, Clock, Delays, MaxOps
VARIABLES slots, table, hist, ops
vars == <<slots, table, hist, ops>>

(* times and delays count steps of 0.6 seconds *)
(* an address value: kind, host, port *)
Addrs == {[k |-> "ip", h |-> h, p |-> p] : h \in {"10.0.0.1", "10.0.0.2"}, p \in {5, 261}}
         \cup {[k |-> "ip", h |-> "fe80::1", p |-> 5]}
         \cup {[k |-> "host", h |-> h, p |-> p] : h \in {"10.0.0.1", "10.0.0.17"}, p \in {5, 261}}
Same(a, b) == a = b
Known(t, a) == \E i \in 1..Len(t) : Same(t[i].a, a)
Seen(t, a, now) == IF Known(t, a)
                   THEN [i \in 1..Len(t) |-> IF Same(t[i].a, a) THEN [t[i] EXCEPT !.at = now] ELSE t[i]]
                   ELSE Append(t, [a |-> a, at |-> now])
Expire(t, now, delay) == SelectSeq(t, LAMBDA e : ~(e.at + delay < now))
(* addresses the caller asks about after each step, each in a fresh object *)
AddrSeq == <<[k |-> "ip", h |-> "10.0.0.1", p |-> 5], [k |-> "ip", h |-> "10.0.0.1", p |-> 261], [k |-> "ip", h |-> "10.0.0.2", p |-> 5],
             [k |-> "ip", h |-> "10.0.0.2", p |-> 261], [k |-> "ip", h |-> "fe80::1", p |-> 5], [k |-> "host", h |-> "10.0.0.1", p |-> 5],
             [k |-> "host", h |-> "10.0.0.1", p |-> 261], [k |-> "host", h |-> "10.0.0.17", p |-> 5], [k |-> "host", h |-> "10.0.0.17", p |-> 261]>>
View1(t) == [i \in 1..Len(AddrSeq) |-> Known(t, AddrSeq[i])]
Ports == {5, 261}
Hosts(k) == IF k = "ip" THEN {"10.0.0.1", "10.0.0.2", "fe80::1"} ELSE {"10.0.0.1", "10.0.0.17"}

Init == /\ slots \in [1..NSlots -> Addrs] /\ table = <<>> /\ ops = 0
        /\ hist = <<S("start", <<slots>>, View1(<<>>))>>
Do(op, a, t, s, w) == /\ ops < MaxOps /\ ops' = ops + 1 /\ table' = t /\ slots' = s
                      /\ hist' = Append(hist, S(op, a, w))
Next ==
  \/ \E i \in 1..NSlots, now \in Clock :
       LET t == Seen(table, slots[i], now) IN
       Do("sighting", <<i, now>>, t, slots, [new |-> ~Known(table, slots[i]), err |-> FALSE, has |-> View1(t)])
  \/ \E now \in Clock, d \in Delays : LET t == Expire(table, now, d) IN Do("timeout", <<now, d>>, t, slots, View1(t))
  \/ table # <<>> /\ Do("clear", <<>>, <<>>, slots, View1(<<>>))
  \/ Do("nil", <<>>, table, slots, [new |-> FALSE, err |-> TRUE, has |-> View1(table)])
  \/ \E i \in 1..NSlots : \E p \in Ports \ {slots[i].p} :
       Do("setport", <<i, p>>, table, [slots EXCEPT ![i].p = p], View1(table))
  \/ \E i \in 1..NSlots : \E h \in Hosts(slots[i].k) \ {slots[i].h} :
       Do("sethost", <<i, h>>, table, [slots EXCEPT ![i].h = h], View1(table))
  \/ \E i \in 1..NSlots : slots[i].k = "ip" /\ slots[i].h \in {"10.0.0.1", "10.0.0.2"}   \* the bytes of the IP edited in place
       /\ LET h == IF slots[i].h = "10.0.0.1" THEN "10.0.0.2" ELSE "10.0.0.1" IN
          Do("flip", <<i>>, table, [slots EXCEPT ![i].h = h], View1(table))
  \/ \E i, j \in 1..NSlots : i # j /\ Do("copy", <<i, j>>, table, [slots EXCEPT ![i] = slots[j]], [same |-> TRUE, has |-> View1(table)])
  \/ \E i, j \in 1..NSlots : i <= j /\
       Do("compare", <<i, j>>, table, slots,
          [same |-> slots[i] = slots[j], samehost |-> slots[i].k = slots[j].k /\ slots[i].h = slots[j].h, nilsame |-> FALSE, nilhost |-> FALSE,
           kind |-> IF slots[i].k = "host" THEN 2 ELSE IF slots[i].h = "fe80::1" THEN 1 ELSE 0])
Spec == Init /\ [][Next]_vars
View == <<slots, table, ops>>

NoDuplicates == \A i, j \in 1..Len(table) : i # j => ~Same(table[i].a, table[j].a)
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
