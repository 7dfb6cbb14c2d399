--------------------------------- MODULE Uri ---------------------------------
(* P13, P16.  URIs, telephone URLs and addresses: every component is returned,     *)
(* encoded and parsed back; an edit changes its component only; a copy and its     *)
(* original are independent, also in what they are made of.                        *)
EXTENDS Common
CONSTANTS Doing, MaxOps, NObj, Kinds, OneOf(_)
VARIABLES kind, objs, hist, ops
vars == <<kind, objs, hist, ops>>

(* a parameter: name and value, <<>> when it has none *)
P(n, v) == [n |-> n, v |-> <<v>>]
Flag(n) == [n |-> n, v |-> <<>>]
Has(ps, n) == \E i \in 1..Len(ps) : EqFold(ps[i].n, n)
At(ps, n) == CHOOSE i \in 1..Len(ps) : EqFold(ps[i].n, n)
Val(ps, n) == IF Has(ps, n) /\ ps[At(ps, n)].v # <<>> THEN ps[At(ps, n)].v[1] ELSE ""
SetP(ps, n, v) == IF Has(ps, n) THEN [ps EXCEPT ![At(ps, n)].v = v] ELSE Append(ps, [n |-> n, v |-> v])
DelP(ps, n) == SelectSeq(ps, LAMBDA p : ~EqFold(p.n, n))
PText(p) == IF p.v = <<>> THEN p.n ELSE p.n \o "=" \o p.v[1]

(* ts is the telephone subscriber that may be kept beside the user name; it is not encoded *)
Tel(glob, num, ps) == [k |-> "tel", glob |-> glob, num |-> num, ps |-> ps]
Number(glob, num, ps) == [k |-> "number", glob |-> glob, num |-> num, ps |-> ps]
NoNumber == Number(FALSE, "", <<>>)
Sip(sec, user, pw, host, port, ps, hs) == [k |-> "sip", sec |-> sec, user |-> user, pw |-> pw, host |-> host, port |-> port, ps |-> ps, hs |-> hs, ts |-> NoNumber]
Other(t) == [k |-> "other", t |-> t]
(* an address: form is "name" (between angle brackets), "spec" (bare) or "wild" *)
Addr(dn, form, uri) == [k |-> "address", dn |-> dn, form |-> form, uri |-> uri]

AtHostPort(u) == (IF u.user = "" THEN "" ELSE u.user \o "@") \o u.host \o (IF u.port = -1 THEN "" ELSE ":" \o ToString(u.port))
NumText(u) == (IF u.glob THEN "+" ELSE "") \o u.num \o Concat(Map(u.ps, LAMBDA p : ";" \o PText(p)))
HPText(u) == u.host \o (IF u.port = -1 THEN "" ELSE ":" \o ToString(u.port))
InfoText(u) == u.user \o (IF u.pw = "" THEN "" ELSE ":" \o u.pw)
AuthText(u) == (IF u.user = "" THEN "" ELSE InfoText(u) \o "@") \o HPText(u)
UText(u) ==
  CASE u.k = "sip" -> (IF u.sec THEN "sips:" ELSE "sip:") \o AuthText(u)
         \o Concat(Map(u.ps, LAMBDA p : ";" \o PText(p)))
         \o (IF u.hs = <<>> THEN "" ELSE "?" \o Join(Map(u.hs, PText), "&"))
    [] u.k = "tel" -> "tel:" \o NumText(u)
    [] u.k = "number" -> NumText(u)
    [] OTHER -> u.t
AText(a) == IF a.form = "wild" THEN "*" ELSE IF a.dn # "" THEN Q(a.dn) \o " <" \o UText(a.uri) \o ">"
            ELSE IF a.form = "name" THEN "<" \o UText(a.uri) \o ">" ELSE UText(a.uri)
Text(k, o) == IF k = "Contact" THEN "Contact: " \o AText(o) \o CRLF ELSE IF o.k = "address" THEN AText(o) ELSE UText(o)

(* ---- what is observed *)
Num(t) == CHOOSE n \in 0..999 : ToString(n) = t
ShowSip(u) ==
  [GetScheme |-> IF u.sec THEN "sips" ELSE "sip", IsSecure |-> u.sec, IsSipURI |-> TRUE, GetUser |-> u.user, GetUserPassword |-> u.pw,
   GetHost |-> u.host, GetPort |-> u.port, GetTransportParam |-> Val(u.ps, "transport"), HasTransport |-> Has(u.ps, "transport"),
   GetTTLParam |-> IF Has(u.ps, "ttl") THEN Num(Val(u.ps, "ttl")) ELSE -1, GetMAddrParam |-> Val(u.ps, "maddr"),
   GetMethodParam |-> Val(u.ps, "method"), GetMethod |-> Val(u.ps, "method"), GetUserParam |-> Val(u.ps, "user"), GetUserType |-> Val(u.ps, "user"),
   IsUserTelephoneSubscriber |-> Val(u.ps, "user") = "phone", HasLrParam |-> Has(u.ps, "lr"), GetParameterNames |-> Map(u.ps, LAMBDA p : p.n),
   GetLrParam |-> IF Has(u.ps, "lr") THEN "true" ELSE "", GetUriParms |-> Map(u.ps, PText), GetQheaders |-> Map(u.hs, PText),
   GetHeaderNames |-> Map(u.hs, PText), GetHostPort |-> HPText(u), GetTelephoneSubscriber |-> NumText(u.ts), GetAuthority |-> AuthText(u),
   GetUserAtHost |-> (IF u.user = "" THEN "" ELSE u.user \o "@") \o u.host, GetUserAtHostPort |-> AtHostPort(u)]
  @@ ("GetParameter|x" :> Val(u.ps, "x")) @@ ("HasParameter|X" :> Has(u.ps, "x")) @@ ("HasParameter|y" :> Has(u.ps, "y")) @@ ("GetParameter|y" :> Val(u.ps, "y"))
  @@ ("GetHeader|subject" :> Val(u.hs, "subject")) @@ ("GetHeader|to" :> Val(u.hs, "to"))
ShowTel(u) == [GetScheme |-> "tel", IsSipURI |-> FALSE, IsGlobal |-> u.glob, GetPhoneNumber |-> u.num, GetPostDial |-> Val(u.ps, "postdial"),
   GetIsdnSubAddress |-> Val(u.ps, "isub"), GetParameterNames |-> Map(u.ps, LAMBDA p : p.n)]
  @@ ("GetParameter|x" :> Val(u.ps, "x")) @@ ("GetParameter|isub" :> Val(u.ps, "isub"))
SchemeOf(t) == CHOOSE s \in {"http", "mailto", "urn", "cid", "im"} : \E n \in 1..Len(t) : SubSeq(t, 1, n) = s \o ":"
ShowNumber(u) == [IsGlobal |-> u.glob, GetPhoneNumber |-> u.num, GetPostDial |-> Val(u.ps, "postdial"), GetIsdnSubaddress |-> Val(u.ps, "isub"),
   HasPostDial |-> Has(u.ps, "postdial"), HasIsdnSubaddress |-> Has(u.ps, "isub"), GetParameterNames |-> Map(u.ps, LAMBDA p : p.n)]
  @@ ("GetParameter|x" :> Val(u.ps, "x")) @@ ("HasParm|X" :> Has(u.ps, "x"))
ShowURI(u) == CASE u.k = "number" -> ShowNumber(u) [] u.k = "sip" -> ShowSip(u) [] u.k = "tel" -> ShowTel(u) [] OTHER -> [GetScheme |-> SchemeOf(u.t), IsSipURI |-> FALSE]
ShowAddr(a) == IF a.form = "wild" THEN [IsWildcard |-> TRUE] @@ [g \in {"GetDisplayName", "HasDisplayName", "GetURI", "IsSIPAddress", "GetHost", "GetPort", "GetUserAtHostPort", "GetAddressType", "GetHostPort"} |-> "*"]
  ELSE [IsWildcard |-> FALSE, GetDisplayName |-> a.dn, HasDisplayName |-> a.dn # "", GetURI |-> UText(a.uri), IsSIPAddress |-> a.uri.k = "sip",
        GetHost |-> IF a.uri.k = "sip" THEN a.uri.host ELSE "error", GetPort |-> IF a.uri.k = "sip" THEN ToString(a.uri.port) ELSE "error",
        GetAddressType |-> IF a.form = "name" THEN 0 ELSE 1, GetHostPort |-> IF a.uri.k = "sip" THEN HPText(a.uri) ELSE "error",
        GetUserAtHostPort |-> IF a.uri.k = "sip" THEN AtHostPort(a.uri) ELSE UText(a.uri)]
Shown(k, o) == IF k = "Contact" THEN <<>> ELSE IF o.k = "address" THEN [ShowAddr(o) EXCEPT !.GetPort = IF o.form # "wild" /\ o.uri.k = "sip" THEN "*" ELSE @] ELSE ShowURI(o)
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
Getters(k, o) == <<"String">> \o SetToSeq(DOMAIN Shown(k, o))
ShowObj(k, o) == [str |-> Text(k, o), get |-> IF k = "Contact" THEN "*" ELSE Shown(k, o)]
Show(os) == Map(os, LAMBDA o : ShowObj(kind, o))
W(err, os) == [err |-> err, ret |-> "*", objs |-> Show(os)]

(* ---- values *)
Users == {"", "alice", "+1-212.555;isub=1", "j%40s&=$,/?~"}
Hosts == {"a.com", "192.0.2.4", "[2001:db8::10]"}
ParamLists == {<<>>, <<P("transport", "tcp")>>, <<P("ttl", "15"), P("maddr", "239.255.255.1")>>, <<Flag("lr")>>, <<P("x", "1"), Flag("y")>>,
   <<P("user", "phone"), P("method", "REGISTER"), P("x", "%41[/:&+$]")>>, <<P("Transport", "SCTP"), P("X", "a")>>, <<P("ttl", "0"), Flag("LR")>>}
HeaderLists == {<<>>, <<P("subject", "project%20x")>>, <<P("to", "alice%40a.com"), P("Subject", "[a]?:/$_-!~*.()'")>>}
SipURIs == {Sip(s, u, p, h, n, ps, hs) : s \in BOOLEAN, u \in Users, p \in {"", "s3&=+$,%41"}, h \in Hosts, n \in {-1, 5060, 65535}, ps \in ParamLists, hs \in HeaderLists}
ParsedSip == {u \in SipURIs : u.user = "" => u.pw = ""}
TelURIs == {Tel(g, n, ps) : g \in BOOLEAN, n \in {"1-201.555(0123)", "7042"}, ps \in {<<>>, <<P("isub", "1411")>>, <<P("postdial", "22"), P("x", "1")>>, <<Flag("x"), P("phone-context", "a.com")>>}}
LocalTel == {Tel(FALSE, "*55#", <<>>), Tel(FALSE, "863-1234", <<P("phone-context", "+1-914")>>)}
OtherURIs == {Other("http://www.a.com/b?c=d"), Other("mailto:bob@a.com"), Other("urn:service:sos"), Other("cid:1@a.com"), Other("im:bob@a.com")}
(* rarer values of one component at a time *)
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN Times(x \o x, n \div 2) ELSE x \o Times(x \o x, n \div 2)
RareSip == {Sip(FALSE, u, p, "a.com", 5060, <<P("x", "1")>>, <<>>) : u \in {"*97", "-_.!~*'()&=+$,;?/", "%00%ff%20", "7", "1234567890", Times("0123456789", 30), "sip", "a;b"},
                 p \in {"", "7", "-_.!~*'()&=+$,", "%40%3a", Times("0123456789", 30)}}
  \cup {Sip(s, u, "", h, n, <<>>, <<>>) : s \in BOOLEAN, u \in {"", "bob"}, n \in {-1, 1, 9999},
            h \in {"a", "h-1.x--y.org", "255.255.255.255", "1.2.3.4", "[::1]", "[::ffff:10.0.0.1]", "[2001:DB8:0:0:1:2:3:4]", "a.b.c.d.e.f.example.com", Times("abcdefgh.", 20) \o "org"}}
  \cup {Sip(FALSE, "", "", "a.com", n, <<>>, <<>>) : n \in {1, 2, 9, 10, 80, 99, 100, 999, 1000, 5061, 10000, 65534}}
  \cup {Sip(FALSE, "bob", "", "a.com", -1, ps, <<P("a", "b")>>) : ps \in {<<P("maddr", "[::1]")>>, <<P("x-1.!%41*'", "-_.!~*'()[]/:&+$%20")>>, <<P("y", Times("0123456789", 30))>>,
            <<P("a", "1"), P("b", "2"), P("c", "3"), P("d", "4"), P("e", "5"), P("f", "6"), P("g", "7"), P("h", "8"), Flag("i"), Flag("j"), P("k", "11"), P("l", "12")>>, <<P("ttl", "255"), P("transport", "tls-sctp")>>}}
  \cup {Sip(FALSE, "bob", "", "a.com", 5070, ps, hs) : ps \in {<<>>, <<Flag("lr")>>}, hs \in {<<P("Route", "%3Csip:a%40b%3Blr%3E")>>, <<P("a", "1"), P("b", "2"), P("c", "3"), P("d", "4"), P("subject", "x")>>,
            <<P("body", Times("0123456789", 30))>>, <<P("a", "")>>, <<P("a", ""), P("b", "")>>}}
RareTel == {Tel(g, n, ps) : g \in {TRUE}, n \in {"1", "-1", "(1)2", ".1-", Times("0123456789", 20)}, ps \in {<<>>, <<P("phone-context", "+1-914")>>, <<P("x", "%41-_.!~*'()"), Flag("y"), P("isub", "1")>>}}
  \cup {Tel(FALSE, n, <<P("phone-context", "a.com")>>) : n \in {"*", "#", "*#06#", "(1)2", ".1-", "0"}}
URIs == RareSip \cup RareTel \cup ParsedSip \cup TelURIs \cup LocalTel \cup OtherURIs
SomeURIs == {Sip(FALSE, "bob", "", "b.com", -1, <<>>, <<>>), Sip(TRUE, "bob", "pw", "192.0.2.4", 5061, <<P("transport", "tcp"), Flag("lr")>>, <<P("subject", "x")>>),
   Sip(FALSE, "", "", "[2001:db8::10]", 5060, <<P("x", "1")>>, <<>>), Tel(TRUE, "1201", <<P("isub", "2")>>), Other("http://www.a.com/b?c=d")}
Names == {"", "Bob", "Bob Smith", "a, b; <c> : ?"}
Addrs(us) == {Addr(dn, f, u) : dn \in Names, f \in {"name", "spec"}, u \in us}
ParsedAddr(us) == {a \in Addrs(us) : a.dn # "" => a.form = "name"}

(* ---- beginnings *)
Starts(k) == CASE k = "sip" -> {Sip(FALSE, "", "", "a.com", -1, <<>>, <<>>), Sip(TRUE, "al", "pw", "[::1]", 5060, <<P("transport", "udp"), P("x", "1"), Flag("lr")>>, <<P("subject", "s"), P("to", "t")>>)}
               [] k = "tel" -> {Tel(TRUE, "1-201", <<>>), Tel(FALSE, "7042", <<P("isub", "14"), P("x", "1"), P("postdial", "9")>>)}
               [] k = "number" -> {NoNumber, Number(TRUE, "1-201", <<P("x", "1"), P("isub", "14"), P("postdial", "9")>>)}
               [] k = "address" -> {Addr("", "spec", Sip(FALSE, "bob", "", "b.com", -1, <<>>, <<>>)), Addr("Bob", "name", Sip(FALSE, "bob", "", "b.com", 5060, <<P("x", "1")>>, <<>>)),
                     Addr("", "name", Tel(TRUE, "1201", <<>>)), Addr("", "name", Other("urn:service:sos"))}
               [] k = "Contact" -> {Addr("Bob", "name", Sip(FALSE, "bob", "", "b.com", 5060, <<P("x", "1")>>, <<P("to", "t")>>))}
TextKind(k) == CASE k \in {"sip", "tel"} -> "uri" [] k = "number" -> "telephone" [] k = "address" -> "address" [] OTHER -> "element"
InText(k, o) == IF k = "Contact" THEN "Contact: " \o AText(o) \o "\n" ELSE Text(k, o)
Quiet == [err |-> FALSE, ret |-> "*", objs |-> <<>>]
Begin(k, o) == IF k = "sip" /\ o = Sip(FALSE, "", "", "a.com", -1, <<>>, <<>>)
    THEN <<S("new", <<1, "sipuri">>, Quiet), S("call", <<1, "SetHostString", <<"a.com">>>>, Quiet)>>
  ELSE IF k = "tel" /\ o = Tel(TRUE, "1-201", <<>>)
    THEN <<S("new", <<1, "telurl">>, Quiet), S("call", <<1, "SetPhoneNumber", <<"1-201">>>>, Quiet), S("call", <<1, "SetGlobal", <<TRUE>>>>, Quiet)>>
  ELSE IF o = NoNumber THEN <<S("new", <<1, "telnumber">>, Quiet)>>
  ELSE IF k = "address" /\ o = Addr("", "name", Tel(TRUE, "1201", <<>>))
    THEN <<S("new", <<1, "address">>, Quiet), S("call", <<1, "SetURI", <<[uri |-> "tel:+1201"]>>>>, Quiet)>>
  ELSE <<S("parse", <<1, TextKind(k), InText(k, o)>>, Quiet)>>
Init == /\ kind \in Kinds /\ ops = 0
        /\ \E o \in Starts(kind) : LET os == IF NObj = 1 THEN <<o>> ELSE <<o, o>> IN
             /\ objs = os
             /\ hist = Begin(kind, o) \o <<S("look", <<1, Getters(kind, o)>>, W(FALSE, <<o>>))>>
                  \o (IF NObj = 1 THEN <<>> ELSE <<S("clone", <<2, 1>>, W(FALSE, <<o>>)), S("look", <<2, Getters(kind, o)>>, W(FALSE, os))>>)
Steps(os, ss) == ops < MaxOps /\ ops' = ops + 1 /\ objs' = os /\ UNCHANGED kind /\ hist' = hist \o ss
Step(os, op, a, err) == Steps(os, <<S(op, a, W(err, os))>>)

(* ---- an edit is a method, its arguments, the outcome and whether it is refused *)
E(m, a, u) == <<m, a, u, FALSE>>   (* a tuple: TLC compares the method first *)
Bad(m, a, u) == <<m, a, u, TRUE>>
SipEdits(u) ==
  {E("SetUser", <<x>>, [u EXCEPT !.user = x]) : x \in {"alice", "b+c", "a%40b;c=?/", ""}}
  \cup {E("RemoveUser", <<>>, [u EXCEPT !.user = "", !.pw = ""])}
  \cup (IF u.user = "" THEN {} ELSE {E("SetUserPassword", <<x>>, [u EXCEPT !.pw = x]) : x \in {"secret", "x1", "%41&=+$,"}})
  \cup {E("ClearPassword", <<>>, [u EXCEPT !.pw = ""])}
  \cup {E("SetHostString", <<x>>, [u EXCEPT !.host = x]) : x \in {"b.org", "10.0.0.1", "[2001:db8::2]"}}
  \cup {E("SetHost", <<[host |-> "c.org"]>>, [u EXCEPT !.host = "c.org"]), E("SetHostPort", <<[hostport |-> "d.org:99"]>>, [u EXCEPT !.host = "d.org", !.port = 99])}
  \cup {E("SetPort", <<x>>, [u EXCEPT !.port = x]) : x \in {5060, 5070, 1, 65535}} \cup {E("RemovePort", <<>>, [u EXCEPT !.port = -1])}
  \cup {E("SetSecure", <<x>>, [u EXCEPT !.sec = x]) : x \in BOOLEAN}
  \cup {E("SetScheme", <<x>>, [u EXCEPT !.sec = (Lower(x) = "sips")]) : x \in {"sip", "SIPS"}} \cup {Bad("SetScheme", <<x>>, u) : x \in {"tel", ""}}
  \cup {E("SetTransportParam", <<x>>, [u EXCEPT !.ps = SetP(@, "transport", <<Lower(x)>>)]) : x \in {"TCP", "udp", "sctp"}} \cup {Bad("SetTransportParam", <<"">>, u)}
  \cup {E("RemoveTransport", <<>>, [u EXCEPT !.ps = DelP(@, "transport")])}
  \cup {E("SetTTLParam", <<x>>, [u EXCEPT !.ps = SetP(@, "ttl", <<ToString(x)>>)]) : x \in {0, 1, 9, 255}} \cup {E("SetTTLParam", <<-1>>, [u EXCEPT !.ps = DelP(@, "ttl")]), Bad("SetTTLParam", <<-2>>, u)}
  \cup {E("RemoveTTL", <<>>, [u EXCEPT !.ps = DelP(@, "ttl")])}
  \cup {E(m, <<x>>, [u EXCEPT !.ps = SetP(@, "maddr", <<x>>)]) : m \in {"SetMAddr", "SetMAddrParam"}, x \in {"239.1.2.3", "m.com", "[::1]"}} \cup {Bad("SetMAddrParam", <<"">>, u)}
  \cup {E("RemoveMAddr", <<>>, [u EXCEPT !.ps = DelP(@, "maddr")])}
  \cup {E(m, <<x>>, [u EXCEPT !.ps = SetP(@, "method", <<x>>)]) : m \in {"SetMethod", "SetMethodParam"}, x \in {"INVITE", "foo"}}
  \cup {E("RemoveMethod", <<>>, [u EXCEPT !.ps = DelP(@, "method")])}
  \cup {E("SetUserParam", <<x>>, [u EXCEPT !.ps = SetP(@, "user", <<x>>)]) : x \in {"phone", "ip"}} \cup {E("RemoveUserType", <<>>, [u EXCEPT !.ps = DelP(@, "user")])}
  \cup {E("SetLrParam", <<>>, [u EXCEPT !.ps = IF Has(@, "lr") THEN @ ELSE Append(@, Flag("lr"))])}
  \cup {E(m, <<n, "v2">>, [u EXCEPT !.ps = SetP(@, n, <<"v2">>)]) : m \in {"SetParameter", "SetUriParm"}, n \in {"x", "y"}}
  \cup {E("SetParameter", <<"ttl", "33">>, [u EXCEPT !.ps = SetP(@, "ttl", <<"33">>)])}
  \cup {E("SetParameter", <<"ttl", x>>, u) : x \in {"x", "", "1x"}}
  \cup {E("SetUriParameter", <<[nv |-> <<n, <<"v3">>, FALSE>>]>>, [u EXCEPT !.ps = SetP(@, n, <<"v3">>)]) : n \in {"x", "y"}}
  \cup {E("SetDefaultParm", <<n, "dd">>, [u EXCEPT !.ps = IF Has(@, n) THEN @ ELSE SetP(@, n, <<"dd">>)]) : n \in {"x", "lr"}}
  \cup {E("RemoveParameter", <<n>>, [u EXCEPT !.ps = DelP(@, n)]) : n \in {"x", "LR", "y", "transport"}}
  \cup {E(m, <<>>, [u EXCEPT !.ps = <<>>]) : m \in {"ClearUriParms", "RemoveUriParms"}}
  \cup {E("SetHeader", <<n, x>>, [u EXCEPT !.hs = SetP(@, n, <<x>>)]) : n \in {"subject", "to"} \cup (IF Has(u.hs, "a") THEN {"a"} ELSE {}), x \in {"h1", "%20a[]/?:+$", ""}}
  \cup (IF Has(u.hs, "to") THEN {} ELSE {E("SetQHeader", <<[nv |-> <<"to", <<"q">>, FALSE>>]>>, [u EXCEPT !.hs = Append(@, P("to", "q"))])})
  \cup {E("SetIsdnSubAddress", <<x>>, [u EXCEPT !.ts.ps = SetP(@, "isub", <<x>>)]) : x \in {"77", "8"}}
  \cup {E("RemoveHeader", <<n>>, [u EXCEPT !.hs = DelP(@, n)]) : n \in {"subject", "TO"}}
  \cup {E(m, <<>>, [u EXCEPT !.hs = <<>>]) : m \in {"ClearQheaders", "RemoveHeaders"}}
TelEdits(u) ==
  {E("SetGlobal", <<x>>, [u EXCEPT !.glob = x]) : x \in BOOLEAN} \cup {E("SetPhoneNumber", <<x>>, [u EXCEPT !.num = x]) : x \in {"5551234", "1-2.3"}}
  \cup {E("SetPostDial", <<x>>, [u EXCEPT !.ps = SetP(@, "postdial", <<x>>)]) : x \in {"12", "p3"}} \cup {E("SetIsdnSubAddress", <<x>>, [u EXCEPT !.ps = SetP(@, "isub", <<x>>)]) : x \in {"77", "8"}}
  \cup {E("SetParameter", <<n, "v">>, [u EXCEPT !.ps = SetP(@, n, <<"v">>)]) : n \in {"x", "isub", "y"}} \cup {E("RemoveParameter", <<n>>, [u EXCEPT !.ps = DelP(@, n)]) : n \in {"X", "isub", "postdial"}}
NumberEdits(u) == {e \in TelEdits(u) : e[1] # "SetIsdnSubAddress"}
  \cup {E("SetIsdnSubaddress", <<x>>, [u EXCEPT !.ps = SetP(@, "isub", <<x>>)]) : x \in {"77", "8"}}
  \cup {E("RemoveIsdnSubaddress", <<>>, [u EXCEPT !.ps = DelP(@, "isub")]), E("RemovePostDial", <<>>, [u EXCEPT !.ps = DelP(@, "postdial")])}
  \cup {E("DeleteParm", <<n>>, [u EXCEPT !.ps = DelP(@, n)]) : n \in {"X", "isub"}} \cup {E("SetParm", <<n, "w">>, [u EXCEPT !.ps = SetP(@, n, <<"w">>)]) : n \in {"x", "y"}}
(* what a SIP URI is made of: the authority, its user information, its host and port, and the lists of parameters and headers *)
AuthorityEdits(u) == {E("SetUser", <<x>>, [u EXCEPT !.user = x]) : x \in {"zoe", ""}} \cup {E("RemoveUserInfo", <<>>, [u EXCEPT !.user = "", !.pw = ""])}
  \cup (IF u.user = "" THEN {} ELSE {E("SetPassword", <<"pass">>, [u EXCEPT !.pw = "pass"])})
  \cup {E("SetPort", <<99>>, [u EXCEPT !.port = 99]), E("RemovePort", <<>>, [u EXCEPT !.port = -1]), E("SetHost", <<[host |-> "e.org"]>>, [u EXCEPT !.host = "e.org"]),
         E("SetHostPort", <<[hostport |-> "f.org"]>>, [u EXCEPT !.host = "f.org", !.port = -1])}
InfoEdits(u) == {E("SetUser", <<"yan">>, [u EXCEPT !.user = "yan"]), E("SetPassword", <<"word">>, [u EXCEPT !.pw = "word"]), E("ClearPassword", <<>>, [u EXCEPT !.pw = ""])}
HPEdits(u) == {E("SetPort", <<98>>, [u EXCEPT !.port = 98]), E("RemovePort", <<>>, [u EXCEPT !.port = -1]), E("SetHost", <<[host |-> "10.1.1.1"]>>, [u EXCEPT !.host = "10.1.1.1"])}
HostEdits(u) == {E("SetHostName", <<"g.org">>, [u EXCEPT !.host = "g.org"]), E("SetHostAddress", <<"10.2.2.2">>, [u EXCEPT !.host = "10.2.2.2"])}
ListEdits(l, n) == {<<"Delete", <<n>>, DelP(l, n), FALSE>>, <<"SetNameAndValue", <<n, "lv">>, SetP(l, n, <<"lv">>), FALSE>>,
  <<"SetNameValue", <<[nv |-> <<n, <<"nv">>, FALSE>>]>>, SetP(l, n, <<"nv">>), FALSE>>}
Parts(u) == IF u.k # "sip" THEN {} ELSE
  {<<"GetAuthority", e>> : e \in AuthorityEdits(u)} \cup {<<"GetHostPort", e>> : e \in HPEdits(u)} \cup {<<"GetHostPort.GetHost", e>> : e \in HostEdits(u)}
  \cup {<<"GetTelephoneSubscriber", [e EXCEPT ![3] = [u EXCEPT !.ts = e[3]]]>> : e \in NumberEdits(u.ts)}
  \cup (IF u.user = "" THEN {} ELSE {<<"GetAuthority.GetUserInfo", e>> : e \in InfoEdits(u)})
  \cup {<<"GetUriParms", [e EXCEPT ![3] = [u EXCEPT !.ps = e[3]]]>> : e \in ListEdits(u.ps, "x")}
  \cup {<<"GetQheaders", [e EXCEPT ![3] = [u EXCEPT !.hs = e[3]]]>> : e \in ListEdits(u.hs, "subject")}
URIEdits(u) == CASE u.k = "number" -> NumberEdits(u) [] u.k = "sip" -> SipEdits(u) [] u.k = "tel" -> TelEdits(u) [] OTHER -> {}
AddrEdits(a) == IF a.form = "wild" THEN {} ELSE
  {E("SetDisplayName", <<x>>, [a EXCEPT !.dn = x, !.form = "name"]) : x \in {"Carol", "D. E", ""}} \cup {E("RemoveDisplayName", <<>>, [a EXCEPT !.dn = ""])}
  \cup {E(m, <<[uri |-> UText(u)]>>, [a EXCEPT !.uri = u]) : m \in {"SetURI", "SetAddess"}, u \in SomeURIs}
  \cup {E("SetAddressType", <<0>>, [a EXCEPT !.form = "name"])} \cup (IF a.dn # "" THEN {} ELSE {E("SetAddressType", <<1>>, [a EXCEPT !.form = "spec"])})
  \cup {E("SetUser", <<"zoe">>, IF a.uri.k = "sip" THEN [a EXCEPT !.uri.user = "zoe"] ELSE a)}
  \cup {[E("RemoveParameter", <<"x">>, IF a.uri.k = "sip" THEN [a EXCEPT !.uri.ps = DelP(@, "x")] ELSE a) EXCEPT ![4] = a.uri.k # "sip"]}
  \cup {E("SetWildCardFlag", <<>>, [a EXCEPT !.form = "wild"])}
(* an edit of what the object is made of is made on what its getter returns *)
(* random behaviours choose one edit a step, and branch at the last *)
Pick(s) == IF ops = MaxOps - 1 THEN s ELSE OneOf(s)
Through(id, path, es) == \E e \in es : LET os == [objs EXCEPT ![id] = e[3]] IN
   Steps(os, <<S("follow", <<9, id, path>>, W(FALSE, objs)), S("call", <<9, e[1], e[2]>>, W(e[4], os))>>)
InURI(a) == IF a.form = "wild" THEN {} ELSE {[e EXCEPT ![3] = [a EXCEPT !.uri = e[3]]] : e \in URIEdits(a.uri)}
Editing == \E id \in 1..NObj : LET o == objs[id] IN
  CASE kind \in {"sip", "tel", "number"} -> \/ \E e \in Pick(URIEdits(o)) : Step([objs EXCEPT ![id] = e[3]], "call", <<id, e[1], e[2]>>, e[4])
                                         \/ ("part" \in Doing /\ \E p \in Pick(Parts(o)) : Through(id, p[1], {p[2]}))
    [] kind = "address" -> \/ \E e \in Pick(AddrEdits(o)) : Step([objs EXCEPT ![id] = e[3]], "call", <<id, e[1], e[2]>>, e[4])
                           \/ Through(id, "GetURI", Pick(InURI(o)))
    [] OTHER -> \/ Through(id, "GetAddress", Pick({e \in AddrEdits(o) : e[1] \notin {"SetWildCardFlag", "SetAddressType"}}))
                \/ Through(id, "GetAddress.GetURI", Pick(InURI(o)))
Copying == \E i, j \in 1..NObj : i # j /\ Step([objs EXCEPT ![j] = objs[i]], "clone", <<j, i>>, FALSE)

(* ---- parsing *)
(* what is encoded: neither the telephone subscriber nor the password of nobody *)
Dialable(u) == ~(u.glob /\ \E i \in 1..Len(u.num) : SubSeq(u.num, i, i) \in {"*", "#"})
WrittenURI(u) == CASE u.k = "sip" -> (u.user = "" => u.pw = "") /\ u.ts = NoNumber
                   [] u.k = "number" -> u.num # "" /\ Dialable(u)
                   [] u.k = "tel" -> Dialable(u)
                   [] OTHER -> TRUE
Written(o) == IF o.k # "address" THEN WrittenURI(o) ELSE IF o.form = "wild" THEN FALSE ELSE WrittenURI(o.uri)
Reparsing == \E id \in 1..NObj : Written(objs[id]) /\ Step(objs, "reparse", <<id, TextKind(kind)>>, FALSE)
Spaced(a) == {AText(a)} \cup (IF a.form = "spec" THEN {} ELSE LET u == UText(a.uri) IN
   (IF a.dn = "" THEN {"< " \o u \o "\t>"} ELSE {Q(a.dn) \o "<" \o u \o ">", Q(a.dn) \o " \t < " \o u \o " >"}) \cup (IF a.dn \in {"Bob", "Bob Smith"} THEN {a.dn \o " <" \o u \o ">", a.dn \o "\t<" \o u \o ">"} ELSE {}))
(* setting a parameter may keep or change the spelling of its name: only names in small letters are edited *)
SmallNames(ps) == \A i \in 1..Len(ps) : ps[i].n = Lower(ps[i].n)
SipOnes == {u \in URIs : u.k = "sip" /\ ("first" \in Doing => SmallNames(u.ps) /\ SmallNames(u.hs))}
TelOnes == {u \in URIs : u.k = "tel"}
AddrOnes == {a \in ParsedAddr(SomeURIs) \cup {[Addr("", "name", u) EXCEPT !.dn = d] : u \in {v \in URIs : v.k # "sip" \/ (v.user # "alice" /\ v.host = "a.com")}, d \in {"", "Bob"}} : "first" \in Doing /\ a.uri.k = "sip" => SmallNames(a.uri.ps) /\ SmallNames(a.uri.hs)}
ParsingAll == ops = 0 /\ MaxOps > 0 /\
  CASE kind = "sip" -> \E u \in OneOf(SipOnes) : \E t \in {UText(u)} : Step(<<u>>, "parse", <<1, "uri", t>>, FALSE)
    [] kind = "tel" -> \E u \in OneOf(TelOnes) : Step(<<u>>, "parse", <<1, "uri", UText(u)>>, FALSE)
    [] kind = "number" -> \E u \in OneOf(TelOnes) : Step(<<[u EXCEPT !.k = "number"]>>, "parse", <<1, "telephone", NumText(u)>>, FALSE)
    [] kind = "address" -> \E a \in OneOf(AddrOnes) :
          \E t \in Spaced(a) : Step(<<a>>, "parse", <<1, "address", t>>, FALSE)
    [] OTHER -> FALSE
Next == IF "first" \in Doing /\ ops = 0 THEN ParsingAll ELSE
        \/ "edit" \in Doing /\ Editing
        \/ "clone" \in Doing /\ Copying
        \/ "reparse" \in Doing /\ Reparsing
        \/ "parse" \in Doing /\ ParsingAll
Spec == Init /\ [][Next]_vars
View == <<kind, objs, ops>>
AnyOne(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
Every(s) == s
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
