-------------------------------- MODULE Parts --------------------------------
(* P10, P12, P13.  The parts headers and URIs are made of (call identifiers, protocols, media    *)
(* ranges, user information, authorities, challenges) as records of texts, and headers made in one go   *)
(* by a constructor that takes their value.                                                  *)
EXTENDS Common
CONSTANTS MaxOps, Kinds
VARIABLES kind, f, hist, ops
vars == <<kind, f, hist, ops>>

(* each part is a record of texts; a setter is <<name, argument, the fields it changes>> *)
Start(k) ==
  CASE k = "cid" -> [local |-> "", host |-> ""]
    [] k = "protocol" -> [name |-> "SIP", version |-> "2.0", transport |-> "UDP"]
    [] k = "mediarange" -> [type |-> "", sub |-> ""]
    [] k = "userinfo" -> [user |-> "", pw |-> "", type |-> "0"]
    [] k = "challenge" -> [scheme |-> "", ps |-> <<>>]
    [] k = "authority" -> [user |-> "", pw |-> "", host |-> "", port |-> ""]
IsTel(u) == \E c \in Range(Chars(u)) : c \in {";", "#"}
Type(u) == IF IsTel(u) THEN "0" ELSE "1"
Users == {"alice", "+1;x=y", "9#", "Bob.c"}
(* the parameters of a challenge: names, values and whether they are quoted *)
Pars == {<<"realm", "a b", TRUE>>, <<"domain", "sip:x", TRUE>>, <<"uri", "sip:y", TRUE>>, <<"opaque", "", TRUE>>, <<"qop", "auth", TRUE>>, <<"algorithm", "MD5", FALSE>>, <<"stale", "true", FALSE>>,
  <<"signature", "s1", FALSE>>, <<"signed-by", "s2", FALSE>>, <<"response", "s3", FALSE>>, <<"REALM", "z", FALSE>>, <<"x", "y", FALSE>>}
PosOf(ps, n) == IF \E i \in 1..Len(ps) : EqFold(ps[i][1], n) THEN CHOOSE i \in 1..Len(ps) : EqFold(ps[i][1], n) ELSE 0
Put(ps, x) == IF PosOf(ps, x[1]) = 0 THEN Append(ps, x) ELSE [ps EXCEPT ![PosOf(ps, x[1])] = x]
Val(ps, n) == IF PosOf(ps, n) = 0 THEN "" ELSE ps[PosOf(ps, n)][2]
ParText(x) == x[1] \o "=" \o (IF x[3] THEN Q(x[2]) ELSE x[2])
(* a set of <<method, argument, changed record>> *)
Sets(k, r) ==
  CASE k = "cid" -> {<<"SetLocalId", <<a>>, [r EXCEPT !.local = a]>> : a \in {"x", "1a-b"}} \cup {<<"SetHost", <<a>>, [r EXCEPT !.host = a]>> : a \in {"h", "H.org", ""}}
         \cup {<<"SetCallID", <<"u@v.w">>, [local |-> "u", host |-> "v.w"]>>, <<"SetCallID", <<"q">>, [local |-> "q", host |-> ""]>>, <<"SetCallID", <<"a@b">>, [local |-> "a", host |-> "b"]>>}
    [] k = "protocol" -> {<<"SetProtocolName", <<a>>, [r EXCEPT !.name = a]>> : a \in {"SIP", "xip", "SIPS"}} \cup {<<"SetProtocolVersion", <<a>>, [r EXCEPT !.version = a]>> : a \in {"2.0", "3.x"}}
         \cup {<<"SetTransport", <<a>>, [r EXCEPT !.transport = a]>> : a \in {"TCP", "tls", "Udp", "SCTP"}}
    [] k = "mediarange" -> {<<"SetType", <<a>>, [r EXCEPT !.type = a]>> : a \in {"text", "*", "X-a"}} \cup {<<"SetSubtype", <<a>>, [r EXCEPT !.sub = a]>> : a \in {"plain", "*", "b.c+d"}}
    [] k = "userinfo" -> {<<"SetUser", <<a>>, [r EXCEPT !.user = a, !.type = Type(a)]>> : a \in Users} \cup {<<"SetPassword", <<a>>, [r EXCEPT !.pw = a]>> : a \in {"p", "q&=+$,"}}
         \cup {<<"ClearPassword", <<>>, [r EXCEPT !.pw = ""]>>}
    [] k = "challenge" -> {<<"SetScheme", <<a>>, [r EXCEPT !.scheme = a]>> : a \in {"Digest", "x"}} \cup {<<"SetParameter", <<[nv |-> <<x[1], <<x[2]>>, x[3]>>]>>, [r EXCEPT !.ps = Put(@, x)]>> : x \in Pars}
         \cup {<<"RemoveParameter", <<x>>, [r EXCEPT !.ps = IF PosOf(@, x) = 0 THEN @ ELSE RemoveAt(@, PosOf(@, x))]>> : x \in {"Realm", "stale", "x"}} \cup {<<"RemoveParameters", <<>>, [r EXCEPT !.ps = <<>>]>>}
    [] k = "authority" -> {<<"SetUser", <<a>>, [r EXCEPT !.user = a]>> : a \in Users} \cup {<<"SetPassword", <<a>>, [r EXCEPT !.pw = a]>> : a \in {"p", "q&=+$,"}}
         \cup {<<"SetHost", <<[host |-> a]>>, [r EXCEPT !.host = a]>> : a \in {"h.org", "10.0.0.1"}} \cup {<<"RemoveUserInfo", <<>>, [r EXCEPT !.user = "", !.pw = ""]>>}
         \cup {<<"SetHostPort", <<[hostport |-> "g:1"]>>, [r EXCEPT !.host = "g", !.port = "1"]>>, <<"SetHostPort", <<[hostport |-> "[::1]"]>>, [r EXCEPT !.host = "[::1]", !.port = ""]>>}
         \cup IF r.host = "" THEN {} ELSE {<<"SetPort", <<ToString(p)>>, [r EXCEPT !.port = ToString(p)]>> : p \in {0, 5060, 65535}} \cup {<<"RemovePort", <<>>, [r EXCEPT !.port = ""]>>}
Bads(k) == CASE k = "cid" -> {<<"SetCallID", "">>, <<"SetCallID", "@h">>, <<"SetCallID", "l@">>} [] OTHER -> {}
User(r) == r.user \o (IF r.pw = "" THEN "" ELSE ":" \o r.pw)
Sent(r) == r.host \o (IF r.port = "" THEN "" ELSE ":" \o r.port)
Text(k, r) ==
  CASE k = "cid" -> r.local \o (IF r.host = "" THEN "" ELSE "@" \o r.host)
    [] k = "protocol" -> Upper(r.name) \o "/" \o r.version \o "/" \o Upper(r.transport)
    [] k = "mediarange" -> r.type \o "/" \o r.sub
    [] k = "userinfo" -> User(r)
    [] k = "challenge" -> r.scheme \o " " \o Join(Map(r.ps, ParText), ",")
    [] k = "authority" -> IF r.host = "" THEN "" ELSE (IF r.user = "" THEN "" ELSE User(r) \o "@") \o Sent(r)
Num(t) == IF t = "" THEN -1 ELSE IF t = "0" THEN 0 ELSE IF t = "1" THEN 1 ELSE IF t = "5060" THEN 5060 ELSE 65535
Getters(k, r) ==
  CASE k = "cid" -> [GetLocalId |-> r.local, GetHost |-> r.host]
    [] k = "protocol" -> [GetProtocolName |-> r.name, GetProtocolVersion |-> r.version, GetTransport |-> r.transport]
    [] k = "mediarange" -> [GetType |-> r.type, GetSubtype |-> r.sub]
    [] k = "userinfo" -> [GetUser |-> r.user, GetPassword |-> r.pw, GetUserType |-> IF r.type = "0" THEN 0 ELSE 1]
    [] k = "challenge" -> [GetScheme |-> r.scheme, GetRealm |-> Val(r.ps, "realm"), GetDomain |-> Val(r.ps, "domain"), GetURI |-> Val(r.ps, "uri"), GetOpaque |-> Val(r.ps, "opaque"), GetQOP |-> Val(r.ps, "qop"),
          GetAlgorithm |-> Val(r.ps, "algorithm"), GetStale |-> Val(r.ps, "stale"), GetSignature |-> Val(r.ps, "signature"), GetSignedBy |-> Val(r.ps, "signed-by"), GetResponse |-> Val(r.ps, "response"), HasParameters |-> r.ps # <<>>]
    [] k = "authority" -> [GetUser |-> r.user, GetPassword |-> r.pw, GetPort |-> Num(r.port), GetHost |-> IF r.host = "" THEN "<none>" ELSE r.host, GetHostPort |-> IF r.host = "" THEN "<none>" ELSE Sent(r)]
Names(k) == CASE k = "cid" -> <<"GetLocalId", "GetHost">> [] k = "protocol" -> <<"GetProtocolName", "GetProtocolVersion", "GetTransport">>
    [] k = "mediarange" -> <<"GetType", "GetSubtype">> [] k = "userinfo" -> <<"GetUser", "GetPassword", "GetUserType">>
    [] k = "challenge" -> <<"GetScheme", "GetRealm", "GetDomain", "GetURI", "GetOpaque", "GetQOP", "GetAlgorithm", "GetStale", "GetSignature", "GetSignedBy", "GetResponse", "HasParameters">>
    [] k = "authority" -> <<"GetUser", "GetPassword", "GetPort", "GetHost", "GetHostPort">>
Look(k, r) == [str |-> Text(k, r), get |-> Getters(k, r)]
Seen(err, ret, objs) == [err |-> err, ret |-> ret, objs |-> objs]

Others == {"userinfo", "authority"}    (* those that can be copied *)
(* f is the sequence of what each object holds *)
Objs(ff) == [i \in 1..Len(ff) |-> Look(kind, ff[i])]
Init == /\ kind \in Kinds /\ f = <<Start(kind)>> /\ ops = 0
        /\ hist = <<S("new", <<1, kind>>, Seen(FALSE, "*", <<>>)), S("look", <<1, <<"String">> \o Names(kind)>>, Seen(FALSE, "*", <<Look(kind, Start(kind))>>))>>
Step(st, ff) == ops < MaxOps /\ ops' = ops + 1 /\ f' = ff /\ hist' = Append(hist, st) /\ UNCHANGED kind
Next ==
  \E i \in 1..Len(f) :
    \/ \E s \in Sets(kind, f[i]) : LET ff == [f EXCEPT ![i] = s[3]] IN Step(S("call", <<i, s[1], s[2]>>, Seen(FALSE, "*", Objs(ff))), ff)
    \/ \E b \in Bads(kind) : Step(S("call", <<i, b[1], <<b[2]>>>>, Seen(TRUE, "*", Objs(f))), f)
    \/ Len(f) = 1 /\ kind \in Others /\ LET ff == Append(f, f[1]) IN
         /\ ops < MaxOps /\ ops' = ops + 1 /\ f' = ff /\ UNCHANGED kind
         /\ hist' = hist \o <<S("clone", <<2, 1>>, Seen(FALSE, "*", Objs(f))), S("look", <<2, <<"String">> \o Names(kind)>>, Seen(FALSE, "*", Objs(ff)))>>
Spec == Init /\ [][Next]_vars
View == <<kind, f, ops>>
EmitStep == Emit(hist')

(* ---- headers made in one go: constructor, its arguments, what it encodes as, a setter and what it makes of it *)
Built(c, a, str, get, set, b, str2) == [c |-> c, a |-> a, str |-> str, get |-> get, set |-> set, b |-> b, str2 |-> str2]
Addr(s) == <<[addr |-> s]>>
Made == <<
  Built("NewAllowFromString", <<"INVITE">>, "Allow: INVITE", [GetMethod |-> "INVITE"], "SetMethod", <<"BYE">>, "Allow: BYE"),
  Built("NewAllowEventsFromString", <<"refer">>, "Allow-Events: refer", [GetEventType |-> "refer"], "SetEventType", <<"a.b">>, "Allow-Events: a.b"),
  Built("NewContentEncodingFromString", <<"gzip">>, "Content-Encoding: gzip", [GetEncoding |-> "gzip"], "SetEncoding", <<"tar">>, "Content-Encoding: tar"),
  Built("NewContentLanguageFromString", <<"en-gb">>, "Content-Language: en-gb", [GetLanguageTag |-> "en-gb"], "SetLanguageTag", <<"da">>, "Content-Language: da"),
  Built("NewContentLengthFromInt", <<4711>>, "Content-Length: 4711", [GetContentLength |-> 4711], "SetContentLength", <<0>>, "Content-Length: 0"),
  Built("NewContentTypeFromString", <<"text", "x-y">>, "Content-Type: text/x-y", [GetContentType |-> "text", GetContentSubType |-> "x-y", GetMediaRange |-> "text/x-y"], "SetParameter", <<"q", "1">>, "Content-Type: text/x-y;q=1"),
  Built("NewErrorInfoFromURI", <<[uri |-> "sip:a@b.org"]>>, "Error-Info: <sip:a@b.org>", [GetErrorInfo |-> "sip:a@b.org"], "SetErrorMessage", <<"oops">>, "Error-Info: <sip:a@b.org>;message=\"oops\""),
  Built("NewInReplyToFromCallIdentifier", <<[cid |-> "a@b"]>>, "In-Reply-To: a@b", [GetCallId |-> "a@b"], "SetCallId", <<"x">>, "In-Reply-To: x"),
  Built("NewProxyRequireFromString", <<"100rel">>, "Proxy-Require: 100rel", [GetOptionTag |-> "100rel"], "SetOptionTag", <<"x">>, "Proxy-Require: x"),
  Built("NewRequireFromString", <<"100rel">>, "Require: 100rel", [GetOptionTag |-> "100rel"], "SetOptionTag", <<"x">>, "Require: x"),
  Built("NewSupportedFromString", <<"100rel">>, "Supported: 100rel", [GetOptionTag |-> "100rel"], "SetOptionTag", <<"x">>, "Supported: x"),
  Built("NewUnsupportedFromString", <<"100rel">>, "Unsupported: 100rel", [GetOptionTag |-> "100rel"], "SetOptionTag", <<"x">>, "Unsupported: x"),
  Built("NewRecordRouteFromAddress", Addr("<sip:p1;lr>"), "Record-Route: <sip:p1;lr>", [GetAddress |-> "<sip:p1;lr>"], "SetParameter", <<"a", "b">>, "Record-Route: <sip:p1;lr>;a=b"),
  Built("NewRouteFromAddress", Addr("\"A\" <sip:p1;lr>"), "Route: \"A\" <sip:p1;lr>", [GetAddress |-> "\"A\" <sip:p1;lr>"], "SetParameter", <<"a", "b">>, "Route: \"A\" <sip:p1;lr>;a=b"),
  Built("NewReplyToFromAddress", Addr("<sip:r@h>"), "Reply-To: <sip:r@h>", [GetAddress |-> "<sip:r@h>"], "SetParameter", <<"a", "b">>, "Reply-To: <sip:r@h>;a=b"),
  Built("NewRequestLineFromString", <<[uri |-> "sip:u@h"], "BYE">>, "BYE sip:u@h SIP/2.0", [GetMethod |-> "BYE", GetUri |-> "sip:u@h", GetSipVersion |-> "SIP/2.0"], "SetMethod", <<"INVITE">>, "INVITE sip:u@h SIP/2.0") >>
RECURSIVE InOrder(_)
InOrder(set) == IF set = {} THEN <<>> ELSE LET x == CHOOSE x \in set : TRUE IN <<x>> \o InOrder(set \ {x})
Seq1(g) == InOrder(DOMAIN g)
SeenAs(m, str, g) == Seen(FALSE, "*", <<[str |-> str \o CRLF, get |-> g]>>)
Each == LET all == \A i \in 1..Len(Made) : LET m == Made[i] IN
     Emit(<<S("construct", <<1, m.c, m.a>>, Seen(FALSE, "*", <<>>)), S("look", <<1, <<"String">> \o Seq1(m.get)>>, SeenAs(m, m.str, m.get)),
            S("look", <<1, <<"String">>>>, SeenAs(m, m.str, <<>>)), S("call", <<1, m.set, m.b>>, SeenAs(m, m.str2, <<>>))>>) IN all
MadeInit == kind = "made" /\ f = <<>> /\ hist = <<>> /\ ops = 0
MadeNext == ops = 0 /\ ops' = 1 /\ Each /\ UNCHANGED <<kind, f, hist>>
=============================================================================
