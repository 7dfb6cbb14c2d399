------------------------------- MODULE Settings -------------------------------
(* P22.  The numbered constants of the sip package, and the RTP settings and     *)
(* address objects as records of independent fields.                             *)
EXTENDS Common
CONSTANTS MaxOps
VARIABLES par, adr, hist, ops
vars == <<par, adr, hist, ops>>

Dialog == <<"Early Dialog", "Confirmed Dialog", "Completed Dialog", "Terminated Dialog">>
Trans == <<"Calling Transaction", "Trying Transaction", "Proceeding Transaction", "Completed Transaction", "Confirmed Transaction", "Terminated Transaction">>
Timeouts == <<"Retransmission Timeout", "Transaction Timeout">>
Table(n) == CASE n = "dialog" -> Dialog [] n = "transaction" -> Trans [] n = "timeout" -> Timeouts
Names == {"dialog", "transaction", "timeout"}
Entry(n, v) == IF v >= 0 /\ v < Len(Table(n)) THEN <<[value |-> v, text |-> Table(n)[v + 1], same |-> TRUE]>> ELSE <<>>

IPs == {"10.0.0.1", "192.168.255.0", "fe80::1", ""}
Default == [protocol |-> 0, portbase |-> 5000, bind |-> "", mcastif |-> Zero4, locals |-> <<>>, ttl |-> 1,
            rtpsend |-> 32768, rtprecv |-> 32768, rtcpsend |-> 32768, rtcprecv |-> 32768]
Ints == {0, 1, 32767, 1000000}
(* field and the values given to it *)
Set(fld, v) == /\ par' = [par EXCEPT ![fld] = v] /\ UNCHANGED adr
               /\ hist' = Append(hist, S("set", <<fld, v>>, [par |-> par', adr |-> adr']))
(* an address object of each kind, edited field by field *)
SetAdr(k, fld, v) == /\ adr' = [adr EXCEPT ![k][fld] = v] /\ UNCHANGED par
                     /\ hist' = Append(hist, S("adr", <<k, fld, v>>, [par |-> par', adr |-> adr']))
Shown(k, a) == [host |-> a.host, port |-> a.port]
Init == /\ par = Default /\ ops = 0
        /\ adr = [ip |-> [host |-> "10.0.0.9", port |-> 7], host |-> [host |-> "h", port |-> 8]]
        /\ hist = <<S("start", <<>>, [par |-> par, adr |-> adr])>>
Next ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ \E v \in {0, 1, 2, 3, 255} : Set("protocol", v)
     \/ \E v \in {0, 1, 5000, 5001, 65535} : Set("portbase", v)
     \/ \E v \in IPs : Set("bind", v)
     \/ \E v \in {Zero4, Max4, <<0, 0, 0, 1>>} : Set("mcastif", v)
     \/ \E v \in {<<>>, <<"10.0.0.1">>, <<"fe80::1", "10.0.0.1">>} : Set("locals", v)
     \/ \E v \in {0, 1, 127, 255} : Set("ttl", v)
     \/ \E fld \in {"rtpsend", "rtprecv", "rtcpsend", "rtcprecv"}, v \in Ints : Set(fld, v)
     \/ \E v \in {"10.0.0.1", "fe80::1"} : SetAdr("ip", "host", v)
     \/ \E v \in {"", "a.example", "10.0.0.1"} : SetAdr("host", "host", v)
     \/ \E k \in {"ip", "host"}, v \in {0, 1, 5060, 65535} : SetAdr(k, "port", v)
     \/ /\ UNCHANGED <<par, adr>>
        /\ \/ \E n \in Names, v \in (-3..12) \cup {-2147483647, 2147483647, 256, 65536, 1000} :
                 hist' = Append(hist, S("lookup", <<n, v>>, Entry(n, v)))
           \/ \E l \in {<<"10.0.0.1">>, <<"fe80::1">>, <<"10.0.0.1", "fe80::1">>, <<"fe80::1", "10.0.0.1">>}, a \in {0, 7}, b \in {9, 11} :
                 hist' = Append(hist, S("info", <<l, a, b>>, [protocol |-> IF l[1] = "fe80::1" THEN 1 ELSE 0, locals |-> l, rtp |-> a, rtcp |-> b]))
           \/ \E n \in Names : hist' = Append(hist, S("names", <<n>>, Table(n)))
           \/ \E d \in {<<>>, <<1, 2, 3>>}, r \in BOOLEAN : hist' = Append(hist, S("raw", <<d, r>>, [data |-> d, len |-> Len(d), rtp |-> r, zeroed |-> 0]))
Spec == Init /\ [][Next]_vars
View == <<par, adr, ops>>
OneToOne == \A n \in Names : \A i, j \in 1..Len(Table(n)) : Table(n)[i] = Table(n)[j] => i = j
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
