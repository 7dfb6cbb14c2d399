------------------------------- MODULE Extras -------------------------------
(* P01, P06, P10, P12, P13.  Parts put together from other parts, and the questions that  *)
(* are asked of two parts at once: scenarios over all pairs of a few values.                    *)
EXTENDS Common
CONSTANT What
VARIABLES scene, done
vars == <<scene, done>>

Seen(ret) == [err |-> FALSE, ret |-> ret, objs |-> <<>>]
Get(id, kind, text) == S("parse", <<id, kind, text>>, Seen("*"))
Line(id, text) == Get(id, "element", text \o "\n")
New(id, kind) == S("new", <<id, kind>>, Seen("*"))
Ask(id, m, args, ret) == S("call", <<id, m, args>>, Seen(ret))
Tell(id, m, args) == Ask(id, m, args, "*")
Shows(id, text) == Ask(id, "String", <<>>, text)
Obj(id) == [obj |-> id]
Part(id) == [deref |-> id]
Pairs(A, B) == {<<a, b>> : a \in A, b \in B}

(* ---- headers (P10) *)
EventTypes == {"presence", "PRESENCE", "presence.winfo", "dialog"}
EventIds == {"", "7", "a", "A"}
EventText(e) == "Event: " \o e[1] \o (IF e[2] = "" THEN "" ELSE ";id=" \o e[2])
Events == Pairs(EventTypes, EventIds)
SameEvent(a, b) == EqFold(a[1], b[1]) /\ EqFold(a[2], b[2])
Medias == {"text/plain", "TEXT/Plain", "text/html", "textplain", "text", "*/*"}
Language == <<"en", "da", "sv;q=0.5", "*">>
HeaderScenes ==
     {<<Line(1, EventText(p[1])), Line(2, EventText(p[2])), Ask(1, "Match", <<Obj(2)>>, SameEvent(p[1], p[2]))>> : p \in Pairs(Events, Events)}
  \cup {<<Line(1, EventText(e)), Ask(1, "Match", <<[nil |-> ""]>>, FALSE)>> : e \in Events}
  \cup {<<Line(1, "Content-Type: " \o t[1] \o t[2]), Ask(1, "CompareMediaRange", <<m>>, EqFold(m, t[1])), Shows(1, "Content-Type: " \o t[1] \o t[2] \o CRLF)>>
          : t \in Pairs({"text/plain", "Text/html", "*/*"}, {"", ";a=b"}), m \in Medias}
  \cup {<<Line(1, "Content-Type: text/plain" \o p), Tell(1, "SetContentTypeSubType", <<t[1], t[2]>>), Shows(1, "Content-Type: " \o t[1] \o "/" \o t[2] \o p \o CRLF),
          Ask(1, "GetContentType", <<>>, t[1]), Ask(1, "GetContentSubType", <<>>, t[2])>> : t \in Pairs({"a", "X-b"}, {"c+d", "*"}), p \in {"", ";charset=utf-8;x=y"}}
  \cup {<<Line(1, h \o ": text/plain;a=b"), New(2, "mediarange"), Tell(2, "SetType", <<"t">>), Tell(2, "SetSubtype", <<"u">>), Tell(1, "SetMediaRange", <<Obj(2)>>), Shows(1, h \o ": t/u;a=b" \o CRLF)>> : h \in {"Content-Type", "Accept"}}
  \cup {<<Line(1, "Call-ID: old@x"), New(2, "cid"), Tell(2, "SetCallID", <<c>>), Tell(1, "SetCallIdentifier", <<Obj(2)>>), Shows(1, "Call-ID: " \o c \o CRLF), Ask(1, "GetCallId", <<>>, c), Ask(1, "GetCallIdentifer", <<>>, c)>> : c \in {"n@h", "N"}}
  \cup {<<Line(1, "Via: SIP/2.0/TCP " \o o \o p \o ";branch=z9hG4bK1"), Tell(1, "SetHost", <<[host |-> h]>>), Shows(1, "Via: SIP/2.0/TCP " \o h \o p \o ";branch=z9hG4bK1" \o CRLF), Ask(1, "GetHost", <<>>, h)>>
          : o \in {"h", "10.0.0.1"}, h \in {"g.org", "[::1]", "1.2.3.4"}, p \in {"", ":5070"}}
  \cup {<<Line(1, "Content-Disposition: " \o b), Ask(1, "GetContentDisposition", <<>>, b)>> : b \in {"session", "render;handling=optional", "icon;handling=required;x=\"y z\""}}
  \cup {<<Line(1, "Authentication-Info: " \o b), Ask(1, "GetAuthenticationInfo", <<>>, b)>> : b \in {"nextnonce=\"n\"", "nextnonce=\"n\",nc=00000001"}}
  \cup {<<Line(1, "Authentication-Info: nextnonce=\"n m\",nc=0000000a"), Ask(1, g, <<"NC">>, "nc=0000000a"), Ask(1, g, <<"nextnonce">>, "nextnonce=\"n m\""), Ask(1, g, <<"rspauth">>, "<none>")>> : g \in {"GetAuthInfo", "GetNameValue"}}
  \cup {<<Line(1, h \o ";a=\"b c\";d=e"), Ask(1, "GetNameValue", <<"A">>, "a=\"b c\""), Ask(1, "GetNameValue", <<"D">>, "d=e"), Ask(1, "GetNameValue", <<"b">>, "<none>")>>
          : h \in {"Contact: <sip:a@b>", "From: <sip:a@b>", "Via: SIP/2.0/UDP h", "Content-Type: t/u", "Reply-To: <sip:a@b>", "Accept: t/u", "Retry-After: 5", "Route: <sip:a@b>"}}
  \cup {<<Line(1, "X-One: " \o v), Tell(1, "SetName", <<n>>), Shows(1, n \o ": " \o v \o CRLF), Ask(1, "EncodeBody", <<>>, v), Ask(1, "GetName", <<>>, n), Ask(1, "GetHeaderValue", <<>>, v)>> : v \in {"a", "b;c=\"d, e\": f"}, n \in {"X-Two", "y"}}
  \cup {<<Line(1, "Contact: *"), Ask(1, "GetWildCardFlag", <<>>, TRUE), Line(2, "Contact: <sip:*@h>"), Ask(2, "GetWildCardFlag", <<>>, FALSE)>>}
  \cup {<<Get(1, "header", "Accept-Language: " \o Join(SubSeq(Language, i, j), ", ") \o "\n"), Ask(1, "GetFirst", <<>>, "Accept-Language: " \o Language[i] \o CRLF), Ask(1, "GetLast", <<>>, "Accept-Language: " \o Language[j] \o CRLF)>>
          : i \in 1..2, j \in 2..4}
  \cup {<<Line(1, "Content-Length: 3"), Line(2, h), Ask(1, "Match", <<Obj(2)>>, y)>> : h \in {"Content-Length: 9"}, y \in {TRUE}}
  \cup {<<Line(1, "Content-Length: 3"), Line(2, "Expires: 3"), Ask(1, "Match", <<Obj(2)>>, FALSE)>>}

(* ---- challenges and parameter lists (P12) *)
Given == <<<<"realm", "a b", TRUE>>, <<"stale", "true", FALSE>>, <<"x", "y", FALSE>>>>
PutAll(id, m, from) == [i \in 1..(Len(Given) + 1 - from) |-> LET g == Given[i + from - 1] IN Tell(id, m, <<[nv |-> <<g[1], <<g[2]>>, g[3]>>]>>)]
Held(from) == Join([i \in 1..(Len(Given) + 1 - from) |-> LET g == Given[i + from - 1] IN g[1] \o "=" \o (IF g[3] THEN Q(g[2]) ELSE g[2])], ",")
NamesOf(from) == {Given[i][1] : i \in from..Len(Given)}
ParamScenes ==
     {<<New(1, "challenge"), Tell(1, "SetScheme", <<"Digest">>)>> \o PutAll(1, "SetParameter", from)
         \o <<Ask(1, "GetParameter", <<"x">>, IF from > 3 THEN "" ELSE "y"), Ask(1, "GetParameter", <<"Realm">>, IF from > 1 THEN "" ELSE "a b"), Ask(1, "HasParameter", <<"STALE">>, from <= 2), Ask(1, "HasParameter", <<"y">>, FALSE),
              Line(2, h \o ": Basic realm=\"old\""), Tell(2, "SetChallenge", <<Part(1)>>), Shows(2, h \o ": Digest " \o Held(from) \o CRLF), Ask(2, "GetScheme", <<>>, "Digest"), Ask(2, "GetRealm", <<>>, IF from > 1 THEN "" ELSE "a b")>>
         : from \in 1..3, h \in {"Authorization", "WWW-Authenticate", "Proxy-Authenticate", "Proxy-Authorization"}}
  \cup {<<New(1, "challenge"), Tell(1, "SetScheme", <<"Digest">>), New(2, "params"), Tell(2, "SetSeparator", <<",">>)>> \o PutAll(2, "SetNameValue", from)
         \o <<Tell(1, "SetAuthParams", <<Obj(2)>>), Shows(1, "Digest " \o Held(from)), Ask(1, "GetRealm", <<>>, IF from > 1 THEN "" ELSE "a b"), Ask(1, "HasParameters", <<>>, TRUE)>> : from \in 1..3}
  \cup {<<Line(1, h \o ";old=1"), New(2, "params")>> \o PutAll(2, "SetNameValue", 2) \o <<Tell(1, "SetParameters", <<Obj(2)>>), Shows(1, h \o ";stale=true;x=y" \o CRLF), Ask(1, "GetParameter", <<"X">>, "y"), Ask(1, "HasParameter", <<"old">>, FALSE)>>
         : h \in {"Contact: <sip:a@b>", "From: <sip:a@b>", "Via: SIP/2.0/UDP h", "Content-Type: t/u", "Reply-To: <sip:a@b>", "Accept: t/u", "Retry-After: 5", "Route: <sip:a@b>"}}
  \cup {<<Line(1, h \o ";old=1"), Tell(1, "SetParameterFromNameValue", <<[nv |-> <<n, <<"v w">>, q>>]>>), Shows(1, h \o (IF n = "old" THEN "" ELSE ";old=1") \o ";" \o n \o "=" \o (IF q THEN Q("v w") ELSE "v w") \o CRLF)>>
         : h \in {"Contact: <sip:a@b>", "Content-Type: t/u", "Route: <sip:a@b>"}, n \in {"new", "old"}, q \in {TRUE, FALSE}}

(* ---- URIs (P13) *)
Users == {"alice", "+1-2"}
UriScenes ==
     {<<Get(1, "uri", "sip:o:p@h:1;a=b?x=y"), New(2, "authority"), Tell(2, "SetHost", <<[host |-> h]>>)>> \o (IF u = "" THEN <<>> ELSE <<Tell(2, "SetUser", <<u>>)>>)
         \o <<Tell(1, "SetAuthority", <<Obj(2)>>), Shows(1, "sip:" \o (IF u = "" THEN "" ELSE u \o "@") \o h \o ";a=b?x=y"), Ask(1, "GetUser", <<>>, u), Ask(1, "GetHost", <<>>, h), Ask(1, "GetPort", <<>>, -1), Ask(1, "GetUserPassword", <<>>, "")>>
         : u \in Users \cup {""}, h \in {"g.org", "[::1]"}}
  \cup {<<New(1, "authority"), Tell(1, "SetHostPort", <<[hostport |-> "h:7"]>>), New(2, "userinfo"), Tell(2, "SetUser", <<u>>)>> \o (IF w = "" THEN <<>> ELSE <<Tell(2, "SetPassword", <<w>>)>>)
         \o <<Tell(1, "SetUserInfo", <<Obj(2)>>), Shows(1, u \o (IF w = "" THEN "" ELSE ":" \o w) \o "@h:7"), Ask(1, "GetUser", <<>>, u), Ask(1, "GetPassword", <<>>, w)>> : u \in Users, w \in {"", "pw"}}
  \cup {<<Get(1, "uri", "sip:o@h;a=b;LR?x=y&z=w"), Ask(1, "GetParm", <<"A">>, "b"), Ask(1, "GetParm", <<"lr">>, "<none>"), Ask(1, "GetParm", <<"c">>, "<none>")>>}
  \cup {<<Get(1, "uri", "sip:o@h;a=b;lr?x=y&z=w"), New(2, "params")>> \o PutAll(2, "SetNameValue", 2) \o <<Tell(1, "SetUriParms", <<Obj(2)>>), Shows(1, "sip:o@h;stale=true;x=y?x=y&z=w"), Ask(1, "GetParameter", <<"X">>, "y"), Ask(1, "HasParameter", <<"lr">>, FALSE)>>}
  \cup {<<Get(1, "uri", "sip:o@h;a=b;lr?q=y&z=w"), New(2, "params"), Tell(2, "SetSeparator", <<"&">>)>> \o PutAll(2, "SetNameValue", 2) \o <<Tell(1, "SetQheaders", <<Obj(2)>>), Shows(1, "sip:o@h;a=b;lr?stale=true&x=y"), Ask(1, "GetHeader", <<"x">>, "y"), Ask(1, "GetHeader", <<"q">>, "")>>}

(* ---- messages (P01, P06) *)
Request(lines) == "INVITE sip:u@h SIP/2.0" \o CRLF \o Concat(lines) \o CRLF
Vias == {<<>>, <<"h1">>, <<"10.0.0.1:5070">>, <<"h1:1", "h2:2">>, <<"h1", "h2:2">>, <<"[::1]:65535", "h2">>}
HostOf(v) == CASE v = "h1" -> <<"h1", 5060>> [] v = "10.0.0.1:5070" -> <<"10.0.0.1", 5070>> [] v = "h1:1" -> <<"h1", 1>> [] v = "[::1]:65535" -> <<"[::1]", 65535>>
ViaLine(v) == "Via: SIP/2.0/UDP " \o v \o CRLF
MessageScenes ==
     {<<Get(1, "request", Request(Map(vs, ViaLine))), Ask(1, "GetViaHost", <<>>, IF vs = <<>> THEN "" ELSE HostOf(vs[1])[1]), Ask(1, "GetViaPort", <<>>, IF vs = <<>> THEN 5060 ELSE HostOf(vs[1])[2])>> : vs \in Vias}
  \cup {<<Get(1, "request", Request(<<"Route: <sip:o>" \o CRLF, "Subject: s" \o CRLF>>)), Get(2, "header", l[1] \o ": " \o l[2] \o "\n"), Tell(1, "SetHeaderFromSIPHeaderList", <<Obj(2)>>),
          Shows(1, "INVITE sip:u@h SIP/2.0" \o CRLF \o (IF l[1] = "Route" THEN "" ELSE "Route: <sip:o>" \o CRLF) \o "Subject: s" \o CRLF \o l[3] \o "Content-Length: 0" \o CRLF \o CRLF)>>
         : l \in {<<"Route", "<sip:a>", "Route: <sip:a>" \o CRLF>>, <<"Route", "<sip:a>,<sip:b;lr>", "Route: <sip:a>,<sip:b;lr>" \o CRLF>>, <<"Allow", "BYE", "Allow: BYE" \o CRLF>>}}
OfRequests == {"Alert-Info: <http://a/b>", "In-Reply-To: a@b", "Authorization: Digest realm=\"a\"", "Max-Forwards: 70", "Priority: urgent", "Proxy-Authorization: Digest realm=\"a\"", "Proxy-Require: a", "Route: <sip:a>", "Subject: s"}
OfResponses == {"Error-Info: <sip:a@b>", "Proxy-Authenticate: Digest realm=\"a\"", "Server: s/1", "Unsupported: a", "Retry-After: 5", "Warning: 301 h \"t\"", "WWW-Authenticate: Digest realm=\"a\""}
OfBoth == {"Via: SIP/2.0/UDP h", "From: <sip:a@b>", "To: <sip:a@b>", "Call-ID: a", "CSeq: 1 INVITE", "Contact: <sip:a@b>", "Record-Route: <sip:a>", "Content-Type: a/b", "Content-Length: 0", "Allow: BYE", "Date: Sat, 13 Nov 2010 23:29:00 GMT", "Expires: 5",
  "MIME-Version: 1.0", "Require: a", "Supported: a", "Timestamp: 5", "User-Agent: u", "X-Any: y", "Content-Language: da", "Organization: o"}
BelongScenes ==
  {<<Get(1, m, IF m = "request" THEN Request(<<>>) ELSE "SIP/2.0 200 OK" \o CRLF \o CRLF), Get(2, k, h \o "\n"), Ask(1, "IsRequestHeader", <<Obj(2)>>, h \in OfRequests), Ask(1, "IsResponseHeader", <<Obj(2)>>, h \in OfResponses)>>
     : m \in {"request", "response"}, k \in {"header", "element"}, h \in OfRequests \cup OfResponses \cup OfBoth}

Scenes == CASE What = "header" -> HeaderScenes [] What = "params" -> ParamScenes [] What = "uri" -> UriScenes [] What = "message" -> MessageScenes [] What = "belong" -> BelongScenes
Init == scene \in Scenes /\ done = FALSE
Next == ~done /\ done' = TRUE /\ Emit(scene) /\ UNCHANGED scene
Spec == Init /\ [][Next]_vars
=============================================================================
