------------------------------ MODULE HostPort --------------------------------
(* P14, P16.  Hosts and ports: parsing from text, classification, printing, edits *)
(* and copies.  A host is [n |-> name]; what it is follows from the name.         *)
EXTENDS Common
CONSTANTS MaxOps, Mode
VARIABLES hp, other, hist, ops
vars == <<hp, other, hist, ops>>

V6Names == {"[::1]", "[2001:DB8::9:1]", "[2001:db8::9:1]", "[::ffff:1.2.3.4]", "::1", "fe80::A", "fe80::a", "[FE80::a]", "[fe80::a]"}
V4Names == {"1.2.3.4", "255.255.255.255", "0.0.0.0", "10.20.30.40"}
DnsNames == {"a", "foo.example.com", "a-b.c1", "UPPER.Case", "upper.case", "1a", "a.", "x", "atlanta.com", "a.b.c.d.e.f.g", "9", "1.2.3"}
(* less usual ones, each tried in fewer combinations *)
RareV6 == {"[::]", "[1:2:3:4:5:6:7:8]", "[1::]", "[::255.255.255.255]", "[0:0:0:0:0:0:0:0]", "ABCD:ef01:2345:6789:abcd:EF01:2345:6789", "::"}
RareV4 == {"127.0.0.1", "9.99.100.199", "249.250.200.1"}
RareNames == {"256.1.1.1", "1.2.3.256", "1.2.3.4.5", "1.2.3.a", "a.1", "a1.b2.3c", "1.2.3.4.", "x-1", "0", "z.y.x.w.v.u.t.s.r.q.p.o.n.m.l.k.j.i.h.g.f.e.d.c.b.a", "xn--abc.org",
  "abcdefghijklmnopqrstuvwxyz0123456789-abcdefghijklmnopqrstuvwxyz.ABCDEFGHIJKLMNOPQRSTUVWXYZ.org"}
Rare == RareV6 \cup RareV4 \cup RareNames
Kind(n) == IF InSeq(":", Chars(n)) THEN "v6" ELSE IF n \in V4Names \cup RareV4 THEN "v4" ELSE "name"
Bracketed(n) == SubSeq(n, 1, 1) = "["
HostText(n) == IF Kind(n) = "v6" /\ ~Bracketed(n) THEN "[" \o n \o "]" ELSE n
None == -1
ShowHost(n) == [name |-> n, addr |-> n, isname |-> Kind(n) = "name", isip |-> Kind(n) # "name", str |-> HostText(n)]
(* hp is <<>> or <<[h |-> <<>> or <<name>>, p |-> port]>> *)
ShowHP(x) == IF x = <<>> THEN "*" ELSE
  [host |-> IF x[1].h = <<>> THEN "*" ELSE ShowHost(x[1].h[1]), port |-> x[1].p, hasport |-> x[1].p # None,
   str |-> IF x[1].h = <<>> THEN "" ELSE HostText(x[1].h[1]) \o (IF x[1].p = None THEN "" ELSE ":" \o ToString(x[1].p))]
W(err, rest, x, y) == [err |-> err, rest |-> rest, hp |-> ShowHP(x), other |-> ShowHP(y)]

Spaced == {" Foo.COM ", "\tx "}
Trim(n) == IF n = " Foo.COM " THEN "Foo.COM" ELSE IF n = "\tx " THEN "x" ELSE n
AllNames == V6Names \cup V4Names \cup DnsNames
Parsable(names) == {n \in names : Kind(n) = "v6" => Bracketed(n)}
ParsedHosts == Parsable(AllNames)
RarePorts == {<<":9", 9>>, <<":10", 10>>, <<":80", 80>>, <<":99", 99>>, <<":100", 100>>, <<":999", 999>>, <<":1000", 1000>>, <<":5061", 5061>>, <<":9999", 9999>>, <<":10000", 10000>>, <<":32768", 32768>>, <<":65534", 65534>>, <<":00", 0>>, <<":000000080", 80>>}
Ports == {<<"", None>>, <<":0", 0>>, <<":1", 1>>, <<":5060", 5060>>, <<":65535", 65535>>, <<":05060", 5060>>}
Rests == {"", ";x", ">", " ", "/2", "?h=v", ",b", "\n", "(c)", "@"}
Bad == {":", "a::1", "a:-1", "a:+1", "[::1", "@", "%", "h:x1", "[::1]:{ff}", "]", "", ":5060", "[::1", "[", "a:", "a:x", "[::1]:", "[::1]:x", ";a", " a", "a:;", "[::g]", "{e9}"}

Init == hp = <<>> /\ other = <<>> /\ hist = <<>> /\ ops = 0
Do(op, a, x, y, err, rest) == /\ ops < MaxOps /\ ops' = ops + 1 /\ hp' = x /\ other' = y
                              /\ hist' = Append(hist, S(op, a, W(err, rest, x, y)))
Host == hp # <<>> /\ hp[1].h # <<>>
HP(n, p) == <<[h |-> <<n>>, p |-> p]>>
Edit ==
  \/ hp # <<>> /\ \E n \in AllNames : Do("newhost", <<n>>, HP(n, hp[1].p), other, FALSE, "")
  \/ Host /\ \E n \in AllNames \cup Spaced : Do("sethostname", <<n>>, HP(Lower(Trim(n)), hp[1].p), other, FALSE, "")
  \/ Host /\ \E n \in AllNames \cup Spaced, o \in {"sethostaddr", "setaddr"} : Do(o, <<n>>, HP(Trim(n), hp[1].p), other, FALSE, "")
  \/ hp # <<>> /\ \E n \in Rare : Do("newhost", <<n>>, HP(n, hp[1].p), other, FALSE, "")
  \/ Host /\ \E n \in Rare : Do("sethostname", <<n>>, HP(Lower(n), hp[1].p), other, FALSE, "")
  \/ Host /\ \E n \in Rare, o \in {"sethostaddr", "setaddr"} : Do(o, <<n>>, HP(n, hp[1].p), other, FALSE, "")
  \/ hp # <<>> /\ \E p \in RarePorts : Do("setport", <<p[2]>>, <<[hp[1] EXCEPT !.p = p[2]]>>, other, FALSE, "")
  \/ Host /\ \E o \in {"sethostname", "sethostaddr", "setaddr"} : Do(o, <<"">>, hp, other, FALSE, "")
  \/ hp # <<>> /\ \E p \in {None, 0, 1, 5060, 65535} : Do("setport", <<p>>, <<[hp[1] EXCEPT !.p = p]>>, other, FALSE, "")
  \/ hp # <<>> /\ Do("removeport", <<>>, <<[hp[1] EXCEPT !.p = None]>>, other, FALSE, "")
  \/ Host /\ Do("inet", <<>>, hp, other, FALSE, "")
  \/ hp # <<>> /\ Do("clone", <<>>, hp, hp, FALSE, "")
  \/ Host /\ Do("clonehost", <<>>, hp, hp, FALSE, "")
  \/ other # <<>> /\ Do("swap", <<>>, other, hp, FALSE, "")
  \/ Host /\ Do("reparse", <<>>, HP(HostText(hp[1].h[1]), hp[1].p), other, FALSE, "")
  \/ hp # <<>> /\ Do("nilhost", <<>>, <<[hp[1] EXCEPT !.h = <<>>]>>, other, FALSE, "")
Start ==
  \/ Do("new", <<>>, <<[h |-> <<>>, p |-> None]>>, other, FALSE, "")
  \/ \E n \in ParsedHosts, p \in Ports, r \in Rests : (Mode = "all" \/ r = "") /\ Do("parse", <<n \o p[1] \o r>>, HP(n, p[2]), other, FALSE, r)
  \/ \E n \in Parsable(Rare), p \in {<<"", None>>, <<":5060", 5060>>}, r \in {"", ";x"} : Do("parse", <<n \o p[1] \o r>>, HP(n, p[2]), other, FALSE, r)
  \/ \E n \in {"foo.example.com", "10.20.30.40", "[::1]"}, p \in RarePorts, r \in {"", " "} : Do("parse", <<n \o p[1] \o r>>, HP(n, p[2]), other, FALSE, r)
  \/ \E n \in Parsable(Rare), r \in {"", ";x", ":5060"} : Do("parsehost", <<n \o r>>, HP(n, None), other, FALSE, r)
  \/ \E n \in ParsedHosts, r \in Rests \cup {":5060"} : (Mode = "all" \/ r = "") /\ Do("parsehost", <<n \o r>>, HP(n, None), other, FALSE, r)
  \/ \E t \in Bad : (Mode = "all" \/ ops = 1) /\ Do("parse", <<t>>, hp, other, TRUE, "*")
Next == IF hp = <<>> THEN Start ELSE Edit
Spec == Init /\ [][Next]_vars
View == <<hp, other, ops>>
(* printing and parsing again is stable: the printed form is a fixed point *)
PrintStable == hp # <<>> /\ hp[1].h # <<>> => HostText(HostText(hp[1].h[1])) = HostText(hp[1].h[1])
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
