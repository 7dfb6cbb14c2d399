----------------------------- MODULE HostSweep ------------------------------
(* P14.  All ports, all numbers in an IPv4 address, every character of a name, and the gap   *)
(* of an IPv6 address at every place.                                                        *)
EXTENDS HostPort
CONSTANTS Stride
Alnum == Range(UpperSeq) \cup Range(LowerSeq) \cup {ToString(i) : i \in 0..9}
Hex == Range(Chars("0123456789abcdefABCDEF"))
Octets(p, v) == LET o(i) == IF i = p THEN v ELSE ToString(i + 8) IN o(1) \o "." \o o(2) \o "." \o o(3) \o "." \o o(4)
V4Sweep == {<<Octets(p, ToString(v)), "v4">> : p \in 1..4, v \in 0..255} \cup {<<Octets(p, ToString(v)), "name">> : p \in 1..4, v \in {256, 257, 260, 299, 300, 999, 1000, 65535}}
NameSweep == {<<t, "name">> : t \in UNION {{c, c \o "b", "b" \o c, "b" \o c \o "b", "b." \o c, c \o ".b", "x.b" \o c \o ".org", "x-" \o c} : c \in Alnum} \cup {"a-b", "a--b", "a-1.b-2", "a.b.c.", "a-b."}}
Join6(k) == IF k = 0 THEN "" ELSE IF k = 1 THEN "1" ELSE IF k = 2 THEN "1:a2" ELSE IF k = 3 THEN "1:a2:b3c" ELSE IF k = 4 THEN "1:a2:b3c:4" ELSE IF k = 5 THEN "1:a2:b3c:4:d5E6" ELSE IF k = 6 THEN "1:a2:b3c:4:d5E6:0" ELSE "1:a2:b3c:4:d5E6:0:Fe7"
V6Sweep == {<<"[" \o t \o "]", "v6">> : t \in {Join6(i) \o "::" \o Join6(j) : i \in 0..7, j \in 0..7} \cup {Join6(7) \o ":8", "::1.2.3.4", "::ffff:10.20.30.255", "1:2:3:4:5:6:77.88.99.100"}
               \cup UNION {{"::" \o c, c \o "::", "fe80::" \o c \o "2", c \o c \o c \o c \o ":0::1" \o c} : c \in Hex}}
V6Count(t) == Len(SelectSeq(Chars(t), LAMBDA c : c = ":"))
Hosts == V4Sweep \cup NameSweep \cup {h \in V6Sweep : V6Count(h[1]) <= 7}
KindOf(h) == h[2]
Show(n, k, p) == [host |-> [name |-> n, addr |-> n, isname |-> k = "name", isip |-> k # "name", str |-> n], port |-> p, hasport |-> p # None, str |-> n \o (IF p = None THEN "" ELSE ":" \o ToString(p))]
Want(n, k, p, rest) == [err |-> FALSE, rest |-> rest, hp |-> Show(n, k, p), other |-> "*"]
HostScene(h) == <<S("parse", <<h[1]>>, Want(h[1], h[2], None, "")), S("parse", <<h[1] \o ":5070;x">>, Want(h[1], h[2], 5070, ";x")), S("reparse", <<>>, Want(h[1], h[2], 5070, "")), S("parsehost", <<h[1] \o ">">>, Want(h[1], h[2], None, ">")),
                  S("setport", <<7>>, Want(h[1], h[2], 7, "")), S("newhost", <<h[1]>>, Want(h[1], h[2], 7, "")), S("sethostname", <<h[1]>>, Want(Lower(h[1]), h[2], 7, "")), S("setaddr", <<h[1]>>, Want(h[1], h[2], 7, "")), S("removeport", <<>>, Want(h[1], h[2], None, ""))>>
PortScene(p) == <<S("parse", <<"h:" \o ToString(p)>>, Want("h", "name", p, "")), S("reparse", <<>>, Want("h", "name", p, "")), S("removeport", <<>>, Want("h", "name", None, "")), S("setport", <<p>>, Want("h", "name", p, "")),
                  S("parse", <<"[::1]:" \o ToString(p) \o ";x">>, Want("[::1]", "v6", p, ";x")), S("parse", <<"1.2.3.4:0" \o ToString(p) \o ",">>, Want("1.2.3.4", "v4", p, ","))>>
SweepInit == hp = <<>> /\ other = <<>> /\ hist = <<>> /\ ops = 0
SomePorts == {q \in 0..65535 : q % Stride = 0 \/ q < 300 \/ q > 65500}
Case == (\E h \in Hosts : hist' = <<h>> /\ Emit(HostScene(h))) \/ (\E p \in SomePorts : hist' = <<p>> /\ Emit(PortScene(p)))
SweepNext == ops = 0 /\ ops' = 1 /\ UNCHANGED <<other, hp>> /\ Case
SweepSpec == SweepInit /\ [][SweepNext]_vars
=============================================================================
