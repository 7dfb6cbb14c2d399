---------------------------- MODULE HeaderTable ----------------------------
(* What each kind of header consists of: its fields (kept in the header itself or *)
(* as a named parameter), the setters and getters of each, the values used for    *)
(* them, the values refused, and the standard syntax the header is encoded in.    *)
EXTENDS Common

(* values: arguments of the setter, text in the encoding, what the getters answer,*)
(* and re, the number of the value it becomes when encoded and parsed (0: itself)  *)
T(v) == [a |-> <<v>>, t |-> v, g |-> <<v>>, re |-> 0]
T2(v) == [a |-> <<v>>, t |-> v, g |-> <<v, v>>, re |-> 0]
Ts(vs) == Map(vs, T)
I(n) == [a |-> <<n>>, t |-> ToString(n), g |-> <<n>>, re |-> 0]
IsAll(ns) == Map(ns, I)
Uri(u) == [a |-> <<[uri |-> u]>>, t |-> u, g |-> <<u>>, re |-> 0]
(* an address that keeps its form, and one that gains angle brackets *)
Adr(x) == [a |-> <<[addr |-> x]>>, t |-> x, g |-> <<x>>, re |-> 0]
Spec2(x, n) == [a |-> <<[addr |-> x]>>, t |-> "<" \o x \o ">", g |-> <<x>>, re |-> n]
Big(t) == T(t)   (* a number too large for TLC, as text *)
B(b) == <<b>>
Nothing == <<"">>

(* a field kept in the header itself *)
Own(set, get, no, vals, bads) == [own |-> TRUE, par |-> "", q |-> FALSE, set |-> set, get |-> get, no |-> no, vals |-> vals,
   bads |-> bads, few |-> Len(vals), rem |-> "", rema |-> <<>>, has |-> "", man |-> FALSE, ini |-> 0, alt |-> <<>>, moves |-> <<>>]
(* a field kept as a named parameter, encoded with quotes or without *)
Par(par, q, set, get, no, vals, bads) == [Own(set, get, no, vals, bads) EXCEPT !.own = FALSE, !.par = par, !.q = q]
Man(f) == [f EXCEPT !.man = TRUE]                 (* there is no encoding without it *)
Ini(f) == [f EXCEPT !.ini = 1]                    (* the first value is there from the start *)
RemA(f, a) == [f EXCEPT !.rem = f.set, !.rema = a]   (* the setter removes, given this *)
Rem(f, rem, has) == [f EXCEPT !.rem = rem, !.has = has]
Alt(f, m) == [f EXCEPT !.alt = <<m>>]             (* another setter with the same arguments *)
Move(m, a, from, to, err) == [m |-> m, a |-> a, from |-> from, to |-> to, err |-> err]

(* more values, of rarer kinds: not tried in every combination *)
Wide(f, vals) == [f EXCEPT !.vals = @ \o vals]
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN Times(x \o x, n \div 2) ELSE x \o Times(x \o x, n \div 2)
LongToken == Times("0123456789", 33)
LongToken2 == Times("ABCDEFGH-.", 33)
Tokens == Ts(<<"a!%*_+`'~.-9", "7", "X", "-", "A.B-c", LongToken>>)
Numbers == IsAll(<<9, 10, 255, 256, 65536, 1000000000, 2147483646>>) \o <<Big("2147483648"), Big("4294967295")>>
Quotables == Ts(<<"a'b<c>{7b}e}", "=", ",", ";", " a  b ", "{c3}{a9}{f0}{9f}{98}{80}", "a:b//c?d=e&f", "(a)", Times("ab, ", 80)>>)
Plain == Ts(<<"a: b", "\"q\" <u>; c=d, e (f)", "{c3}{a9}{e2}{82}{ac}", "1", "(a", "a \t b", Times("ab, ", 80) \o "z", "\"a">>)
AddressesMore == Map(<<"\"A, B; <c>: @\" <sip:x:y@[2001:db8::1]:5071;transport=udp;lr?a=b&c=d>", "\"{c3}{a9}\" <sips:h>", "<tel:+1-201-555-0123;phone-context=x>",
   "<sip:a.b!c@h-1.x.org:1>", "\"a\" <sip:10.0.0.1:65535>", "<sip:" \o LongToken \o "@h.org;x=" \o LongToken \o ">"
   >>, Adr)
Empty == <<B("")>>
QVal == Rem(Wide(Par("q", FALSE, "SetQValue", <<"GetQValue">>, <<"-1">>, Ts(<<"0.5", "0", "1">>), <<B("1.5"), B("-0.25")>>), Ts(<<"0.25", "0.125", "0.75">>)), "RemoveQValue", "HasQValue")
Told(x) ==   (* display name, user@host:port, host and port of an address *)
  CASE x = "\"Bob\" <sip:bob@b.com>" -> <<"Bob", "bob@b.com", "b.com">>
    [] x \in {"<sip:a@b.com;lr>", "<sip:a@b.com>"} -> <<"", "a@b.com", "b.com">>
    [] x \in {"sip:c@d.org:5070", "<sip:c@d.org:5070>"} -> <<"", "c@d.org:5070", "d.org:5070">>
    [] x = "\"A, B; <c>: @\" <sip:x:y@[2001:db8::1]:5071;transport=udp;lr?a=b&c=d>" -> <<"A, B; <c>: @", "x@[2001:db8::1]:5071", "[2001:db8::1]:5071">>
    [] x = "\"{c3}{a9}\" <sips:h>" -> <<"{c3}{a9}", "h", "h">>
    [] x = "<tel:+1-201-555-0123;phone-context=x>" -> <<"", "tel:+1-201-555-0123;phone-context=x", "error">>
    [] x = "<sip:a.b!c@h-1.x.org:1>" -> <<"", "a.b!c@h-1.x.org:1", "h-1.x.org:1">>
    [] x = "\"a\" <sip:10.0.0.1:65535>" -> <<"a", "10.0.0.1:65535", "10.0.0.1:65535">>
    [] OTHER -> <<"", LongToken \o "@h.org", "h.org">>
Telling(f) == [f EXCEPT !.get = @ \o <<"GetDisplayName", "GetUserAtHostPort", "GetHostPort">>, !.no = <<"*", "*", "*", "*">>, !.vals = Map(@, LAMBDA v : [v EXCEPT !.g = @ \o Told(v.a[1].addr)])]
Address(bare) == Man(Wide(Own("SetAddress", <<"GetAddress">>, <<"*">>,
   <<Adr("\"Bob\" <sip:bob@b.com>"), Adr("<sip:a@b.com;lr>")>> \o (IF bare THEN <<Spec2("sip:c@d.org:5070", 4), Adr("<sip:c@d.org:5070>")>> ELSE <<>>)
      \o <<Adr("<sip:a@b.com>")>>, <<>>), AddressesMore))
PlainURI(set, get) == Man(Wide(Own(set, <<get>>, <<"*">>, <<Uri("http://www.a.com/x.png"), Uri("sip:a@b.com")>>, <<>>), Map(<<"http://a.org:80/b/c.d?e=f,g;h", "sip:a@[::1]:5070;x=y", "ftp://h/x">>, Uri)))
OptionTag == <<Man(Wide(Own("SetOptionTag", <<"GetOptionTag">>, Nothing, Ts(<<"100rel", "x-1">>), Empty), Tokens))>>
Seconds(set, get) == Ini(Wide(Own(set, <<get>>, <<0>>, IsAll(<<0, 1, 3600, 2147483647>>), <<B(-1), B(-2147483647)>>), Numbers))
Tag == Rem(Wide(Par("tag", FALSE, "SetTag", <<"GetTag">>, Nothing, Ts(<<"t1", "Ab-9">>), <<B(""), B("  ")>>), Tokens), "RemoveTag", "HasTag")
Product == Man([Own("SetProduct", <<"GetProduct">>, <<"*">>,
   <<[a |-> <<[strings |-> <<"SIPy/1.0">>]>>, t |-> "SIPy/1.0", g |-> <<"*">>, re |-> 0],
     [a |-> <<[strings |-> <<"SIPy">>]>>, t |-> "SIPy", g |-> <<<<"SIPy">>>>, re |-> 0],
     [a |-> <<[strings |-> <<"SIPy", "v2">>]>>, t |-> "SIPy/v2", g |-> <<<<"SIPy", "v2">>>>, re |-> 0]>>, <<<<[nil |-> TRUE]>>>>)
   EXCEPT !.moves = <<Move("AddProductToken", <<"v2">>, 2, 3, FALSE)>>])
Quoted(par, set, get, vals, bads) == Wide(Par(par, TRUE, set, <<get>>, Nothing, Ts(vals), bads \o <<B("\"x")>>), Quotables)
Hex(n, t) == [a |-> <<n>>, t |-> t, g |-> <<n>>, re |-> 0]
Count == Wide(Par("nc", FALSE, "SetNonceCount", <<"GetNonceCount">>, <<-1>>,
   <<[a |-> <<1>>, t |-> "00000001", g |-> <<1>>, re |-> 0], [a |-> <<255>>, t |-> "000000ff", g |-> <<255>>, re |-> 0],
     [a |-> <<0>>, t |-> "00000000", g |-> <<0>>, re |-> 0], [a |-> <<2147483647>>, t |-> "7fffffff", g |-> <<2147483647>>, re |-> 0]>>, <<B(-1)>>),
   <<Hex(10, "0000000a"), Hex(16, "00000010"), Hex(65535, "0000ffff"), Hex("2147483648", "80000000"), Hex("4294967295", "ffffffff"), Hex(268435456, "10000000"), Hex(9, "00000009")>>)
Auth == <<
   Ini(Own("SetScheme", <<"GetScheme">>, <<"*">>, Ts(<<"Digest", "Basic">>), <<>>)),
   Quoted("realm", "SetRealm", "GetRealm", <<"a.com", "My realm, x">>, Empty),
   Quoted("nonce", "SetNonce", "GetNonce", <<"84a4cc", "x=;,">>, Empty),
   Par("uri", TRUE, "SetURI", <<"GetURI">>, <<"*">>, <<Uri("sip:a@b.com"), Uri("sip:ss2.b.com;lr")>>, <<<<[nil |-> TRUE]>>>>),
   Quoted("algorithm", "SetAlgorithm", "GetAlgorithm", <<"MD5">>, Empty),
   Quoted("qop", "SetQop", "GetQop", <<"auth", "auth,auth-int">>, Empty),
   Quoted("opaque", "SetOpaque", "GetOpaque", <<"00ff">>, Empty),
   Quoted("domain", "SetDomain", "GetDomain", <<"sip:x.com">>, Empty),
   Quoted("cnonce", "SetCNonce", "GetCNonce", <<"0a4f", "">>, <<>>),
   Quoted("response", "SetResponse", "GetResponse", <<"6629fae4">>, Empty),
   Quoted("username", "SetUsername", "GetUsername", <<"bob", "bob smith">>, <<>>),
   Par("stale", FALSE, "SetStale", <<"IsStale">>, <<FALSE>>, <<[a |-> <<TRUE>>, t |-> "true", g |-> <<TRUE>>, re |-> 0],
       [a |-> <<FALSE>>, t |-> "false", g |-> <<FALSE>>, re |-> 0]>>, <<>>),
   Count>>
Media(v, w) == [a |-> <<v>>, t |-> v, g |-> <<v, w>>, re |-> 0]

Fields(k) ==
  CASE k = "Accept" -> <<Man(Own("SetContentType", <<"GetContentType", "AllowsAllContentTypes">>, <<"*", "*">>,
           <<Media("application", FALSE), Media("*", TRUE)>>, <<>>)),
         Man(Own("SetContentSubType", <<"GetContentSubType", "AllowsAllContentSubTypes">>, <<"*", "*">>,
           <<Media("sdp", FALSE), Media("*", TRUE), Media("vnd.x+xml", FALSE)>>, <<>>)), QVal>>
    [] k = "Accept-Encoding" -> <<Man(Own("SetEncoding", <<"GetEncoding">>, Nothing, Ts(<<"gzip", "x-1">>), Empty)), QVal>>
    [] k = "Accept-Language" -> <<Man(Alt(Own("SetLanguageRange", <<"GetLanguageRange", "GetAcceptLanguage">>, <<"", "">>,
           <<T2("en"), T2("da-gb")>>, <<>>), "SetAcceptLanguage")), QVal>>
    [] k = "Alert-Info" -> <<PlainURI("SetAlertInfo", "GetAlertInfo")>>
    [] k = "Allow" -> <<Man(Own("SetMethod", <<"GetMethod">>, Nothing, Ts(<<"INVITE", "foo-1">>), Empty))>>
    [] k = "Allow-Events" -> <<Man(Own("SetEventType", <<"GetEventType">>, Nothing, Ts(<<"refer", "a.b">>), Empty))>>
    [] k = "Authentication-Info" -> <<Man(Quoted("nextnonce", "SetNextNonce", "GetNextNonce", <<"47364c", "z,=">>, <<>>)),
         Quoted("cnonce", "SetCNonce", "GetCNonce", <<"0a4f">>, <<>>), Quoted("qop", "SetQop", "GetQop", <<"auth">>, <<>>),
         Quoted("rspauth", "SetResponse", "GetResponse", <<"ff00">>, <<>>), Count>>
    [] k \in {"Authorization", "Proxy-Authorization", "WWW-Authenticate", "Proxy-Authenticate"} -> Auth
    [] k = "CSeq" -> <<Ini(Own("SetSequenceNumber", <<"GetSequenceNumber">>, <<"*">>, IsAll(<<1, 0, 4711, 2147483647>>), <<B(-1)>>)),
         Ini(Own("SetMethod", <<"GetMethod">>, <<"*">>, <<T("INVITE"), [T("ack") EXCEPT !.t = "ACK", !.re = 3], T("ACK")>>, Empty))>>
    [] k = "Call-ID" -> <<Ini(Own("SetCallId", <<"GetCallId">>, <<"*">>, Ts(<<"first@id", "A84b4c76e66710@pc33.a.com", "noat">>),
         <<B(""), B("@b"), B("a@")>>))>>
    [] k = "Call-Info" -> <<PlainURI("SetInfo", "GetInfo"), Par("purpose", FALSE, "SetPurpose", <<"GetPurpose">>, Nothing, Ts(<<"icon", "card">>), Empty)>>
    [] k = "Contact" -> <<Address(TRUE), QVal, Par("expires", FALSE, "SetExpires", <<"GetExpires">>, <<"*">>, IsAll(<<3600, 0>>), <<B(-1)>>)>>
    [] k = "Content-Disposition" -> <<Man(Own("SetDispositionType", <<"GetDispositionType">>, Nothing, Ts(<<"session", "x-1">>), Empty)),
         Par("handling", FALSE, "SetHandling", <<"GetHandling">>, Nothing, Ts(<<"optional", "required">>), Empty)>>
    [] k = "Content-Encoding" -> <<Man(Own("SetEncoding", <<"GetEncoding">>, Nothing, Ts(<<"gzip", "x-1">>), Empty))>>
    [] k = "Content-Language" -> <<Man(Alt(Own("SetLanguageTag", <<"GetLanguageTag", "GetContentLanguage">>, <<"", "">>, <<T2("en"), T2("da-gb")>>, <<>>),
         "SetContentLanguage"))>>
    [] k = "Content-Length" -> <<Seconds("SetContentLength", "GetContentLength")>>
    [] k = "Content-Type" -> <<Man(Own("SetContentType", <<"GetContentType", "GetMediaType">>, <<"*", "*">>, <<T2("application"), T2("text")>>, Empty)),
         Man(Own("SetContentSubType", <<"GetContentSubType", "GetMediaSubType">>, <<"*", "*">>, <<T2("sdp"), T2("x-y.z")>>, Empty)),
         Par("charset", FALSE, "", <<"GetCharSet">>, Nothing, Ts(<<"UTF-8">>), <<>>)>>
    [] k = "Date" -> <<Man(Own("SetDate", <<"GetDate">>, <<"*">>,
         <<[a |-> <<[date |-> "Sat, 13 Nov 2010 23:29:00 UTC"]>>, t |-> "Sat, 13 Nov 2010 23:29:00 GMT", g |-> <<"Sat, 13 Nov 2010 23:29:00 GMT">>, re |-> 0],
           [a |-> <<[date |-> "Thu, 01 Jan 2004 00:00:09 UTC"]>>, t |-> "Thu, 01 Jan 2004 00:00:09 GMT", g |-> <<"Thu, 01 Jan 2004 00:00:09 GMT">>, re |-> 0]>>, <<>>))>>
    [] k = "Error-Info" -> <<PlainURI("SetErrorInfo", "GetErrorInfo"),
         Par("message", TRUE, "SetErrorMessage", <<"GetErrorMessage">>, Nothing, Ts(<<"out of order", "x">>), Empty)>>
    [] k = "Event" -> <<Man(Own("SetEventType", <<"GetEventType">>, Nothing, Ts(<<"refer", "a.b">>), Empty)),
         Par("id", FALSE, "SetEventId", <<"GetEventId">>, Nothing, Ts(<<"93809823", "x">>), Empty)>>
    [] k \in {"Expires", "Min-Expires"} -> <<Seconds("SetExpires", "GetExpires")>>
    [] k = "Extension" -> <<Man(Own("SetValue", <<"GetValue">>, Nothing, Ts(<<"any; text=\"x\", y", "z">>), <<>>))>>
    [] k \in {"From", "To"} -> <<Telling(Address(TRUE)), Tag>>
    [] k = "In-Reply-To" -> <<Man(Own("SetCallId", <<"GetCallId">>, Nothing, Ts(<<"70710@saturn.b.com", "noat">>), <<B(""), B("@b"), B("a@")>>))>>
    [] k = "Max-Forwards" -> <<Ini([Own("SetMaxForwards", <<"GetMaxForwards", "HasReachedZero">>, <<0, TRUE>>,
         <<[I(0) EXCEPT !.g = <<0, TRUE>>], [I(1) EXCEPT !.g = <<1, FALSE>>], [I(254) EXCEPT !.g = <<254, FALSE>>], [I(255) EXCEPT !.g = <<255, FALSE>>], [I(70) EXCEPT !.g = <<70, FALSE>>]>>,
         <<B(-1), B(256), B(100000)>>) EXCEPT !.moves = <<Move("DecrementMaxForwards", <<>>, 2, 1, FALSE), Move("DecrementMaxForwards", <<>>, 4, 3, FALSE),
           Move("DecrementMaxForwards", <<>>, 1, 1, TRUE)>>])>>
    [] k = "MIME-Version" -> <<Ini(Own("SetMajorVersion", <<"GetMajorVersion">>, <<0>>, IsAll(<<0, 1, 12>>), <<B(-1)>>)),
         Ini(Own("SetMinorVersion", <<"GetMinorVersion">>, <<0>>, IsAll(<<0, 1, 34>>), <<B(-1)>>))>>
    [] k = "Organization" -> <<Man(Own("SetOrganization", <<"GetOrganization">>, Nothing, Ts(<<"Boxes by Bob", "x">>), Empty))>>
    [] k = "Priority" -> <<Man(Own("SetPriority", <<"GetPriority">>, Nothing, Ts(<<"urgent", "x-1">>), Empty))>>
    [] k = "RAck" -> <<Man(Own("SetRSeqNumber", <<"GetRSeqNumber">>, <<0>>, IsAll(<<1, 776656>>), <<B(0), B(-1)>>)),
         Ini(Own("SetCSeqNumber", <<"GetCSeqNumber">>, <<0>>, IsAll(<<0, 1, 31>>), <<B(-1)>>)),
         Man(Own("SetMethod", <<"GetMethod">>, Nothing, Ts(<<"INVITE", "OPTIONS">>), Empty))>>
    [] k = "RSeq" -> <<Man(Own("SetSequenceNumber", <<"GetSequenceNumber">>, <<0>>, IsAll(<<1, 988789>>), <<B(0), B(-1)>>))>>
    [] k = "Reason" -> <<Man(Own("SetProtocol", <<"GetProtocol">>, Nothing, Ts(<<"SIP", "Q.850">>), Empty)),
         Par("cause", FALSE, "SetCause", <<"GetCause">>, <<"*">>, IsAll(<<16, 0, 200>>), <<B(-1)>>),
         Par("text", TRUE, "SetText", <<"GetText">>, Nothing, Ts(<<"Terminated", "Call, completed">>), <<>>)>>
    [] k = "Route" -> <<Man(Own("SetAddress", <<"GetAddress">>, <<"*">>,   (* a bare URI stays bare *)
         <<Adr("\"Bob\" <sip:bob@b.com>"), Adr("<sip:a@b.com;lr>"), Adr("sip:c@d.org:5070"), Adr("<sip:a@b.com>")>>, <<>>))>>
    [] k = "Reply-To" -> <<[Address(TRUE) EXCEPT !.get = @ \o <<"GetDisplayName", "GetHostPort">>, !.no = <<"*", "*", "*">>,
           !.vals = Map(@, LAMBDA v : [v EXCEPT !.g = @ \o LET w == Told(v.a[1].addr) IN <<w[1], IF w[3] = "error" THEN "<none>" ELSE w[3]>>])]>>
    [] k \in {"Record-Route", "Refer-To"} -> <<Address(TRUE)>>
    [] k \in {"Require", "Supported", "Unsupported", "Proxy-Require"} -> OptionTag
    [] k = "Retry-After" -> <<Seconds("SetRetryAfter", "GetRetryAfter"),
         Rem(Own("SetComment", <<"GetComment">>, Nothing, Ts(<<"in a meeting", "x">>), Empty), "RemoveComment", "HasComment"),
         Rem(Par("duration", FALSE, "SetDuration", <<"GetDuration">>, <<0>>, IsAll(<<3600, 0>>), <<B(-1)>>), "RemoveDuration", "")>>
    [] k \in {"Server", "User-Agent"} -> <<Product>>
    [] k = "Subject" -> <<Man(Own("SetSubject", <<"GetSubject">>, Nothing, Ts(<<"Need more boxes, now", "x">>), Empty))>>
    [] k = "Subscription-State" -> <<Man(Own("SetState", <<"GetState">>, Nothing, Ts(<<"active", "terminated">>), Empty)),
         Own("SetReasonCode", <<"GetReasonCode">>, Nothing, Ts(<<"probation", "timeout">>), Empty),
         Own("SetRetryAfter", <<"GetRetryAfter">>, <<-1>>, IsAll(<<60, 0>>), <<B(-1)>>),
         Own("SetExpires", <<"GetExpires">>, <<-1>>, IsAll(<<3600, 0>>), <<B(-1)>>)>>
    [] k = "Timestamp" -> <<Ini(Own("SetTimeStamp", <<"GetTimeStamp">>, <<"0">>, Ts(<<"0", "54", "54.25", "7.03125">>), <<B("-1"), B("-0.5")>>)),
         Rem(Own("SetDelay", <<"GetDelay">>, <<"-1">>, Ts(<<"0", "0.5", "3", "0.0625">>), <<B("-2"), B("-0.5")>>), "RemoveDelay", "HasDelay")>>
    [] k = "Via" -> <<
         Ini(Own("SetTransport", <<"GetTransport">>, <<"*">>, <<T("UDP"), T("TCP"), [T("tls") EXCEPT !.t = "TLS", !.re = 4], T("TLS")>>, Empty)),
         Man(Own("SetHostFromString", <<"GetHost">>, <<"*">>, Ts(<<"pc33.a.com", "10.0.0.1", "[2001:db8::9]">>), <<>>)),
         Rem(Own("SetPort", <<"GetPort">>, <<-1>>, IsAll(<<5060, 1, 65535>>), <<>>), "RemovePort", "HasPort"),
         Rem(Own("SetComment", <<"GetComment">>, Nothing, Ts(<<"Acme server", "x">>), <<>>), "RemoveComment", "HasComment"),
         Par("branch", FALSE, "SetBranch", <<"GetBranch">>, Nothing, Ts(<<"z9hG4bK776asdhds", "x1">>), Empty),
         RemA(Par("ttl", FALSE, "SetTTL", <<"GetTTL">>, <<-1>>, IsAll(<<16, 0, 255>>), <<B(-2), B(256)>>), <<-1>>),
         Par("maddr", FALSE, "SetMAddr", <<"GetMAddr", "GetMaddr">>, <<"", "*">>, <<T2("224.2.0.1"), T2("m.a.com")>>, Empty),
         Par("received", FALSE, "SetReceived", <<"GetReceived">>, Nothing, Ts(<<"192.0.2.1", "2001:db8::7">>), Empty),
         Ini(Wide(Own("SetProtocol", <<"GetProtocol">>, <<"*">>, <<T("SIP")>>, Empty), <<T("X-1")>>)),   (* only SIP/2.0 is parsed *)
         Ini(Wide(Own("SetProtocolVersion", <<"GetProtocolVersion">>, <<"*">>, <<T("2.0")>>, <<>>), <<T("3.0")>>))>>
    [] k = "Warning" -> <<Man(Own("SetCode", <<"GetCode">>, <<"*">>, IsAll(<<300, 399, 370>>), <<B(299), B(400), B(0), B(-300)>>)),
         Man(Own("SetAgent", <<"GetAgent">>, Nothing, Ts(<<"a.com", "pc1.b.org:5060">>), Empty)),
         Man(Own("SetText", <<"GetText">>, Nothing, Ts(<<"No, sorry", "x">>), Empty))>>

AuthKinds == {"Authorization", "Proxy-Authorization", "WWW-Authenticate", "Proxy-Authenticate"}
AddressKinds == {"From", "To", "Contact", "Record-Route", "Route", "Reply-To", "Refer-To"}
(* the kinds that carry parameters *)
ParKinds == AuthKinds \cup AddressKinds \cup {"Authentication-Info", "Accept", "Accept-Encoding", "Accept-Language", "Alert-Info", "Call-Info",
   "Content-Disposition", "Content-Type", "Error-Info", "Event", "Reason", "Retry-After", "Subscription-State", "Via"}
PlainKinds == {"Allow", "Allow-Events", "CSeq", "Call-ID", "Content-Encoding", "Content-Language", "Content-Length", "Date", "Expires", "Extension", "In-Reply-To",
   "Max-Forwards", "MIME-Version", "Min-Expires", "Organization", "Priority", "Proxy-Require", "RAck", "RSeq", "Require", "Server", "Subject", "Supported",
   "Timestamp", "Unsupported", "User-Agent", "Warning"}
CloneKinds == {"Via", "Contact"}
AllKinds == ParKinds \cup PlainKinds
(* the kinds of which one line may hold several values *)
ListKinds == {"Accept", "Accept-Encoding", "Accept-Language", "Alert-Info", "Allow", "Allow-Events", "Call-Info", "Contact", "Content-Encoding",
   "Content-Language", "Error-Info", "In-Reply-To", "Proxy-Authenticate", "Proxy-Require", "Reason", "Record-Route", "Require", "Route", "Supported",
   "Unsupported", "Via", "WWW-Authenticate", "Warning"}
(* the rarer values of each field, by its first getter *)
Day(d) == [a |-> <<[date |-> d \o " UTC"]>>, t |-> d \o " GMT", g |-> <<d \o " GMT">>, re |-> 0]
Tokens2 == Map(<<"a!%*_+`'~.-9", "7", "X-", LongToken>>, LAMBDA v : T2(v))
More(k, g) ==
  CASE k = "Accept" /\ g # "GetQValue" -> Map(<<"a!%_+`'~.-9", "x", LongToken>>, LAMBDA v : Media(v, FALSE))
    [] k \in {"Accept-Language", "Content-Language"} /\ g \in {"GetLanguageRange", "GetLanguageTag"} -> Map(<<"a-bcdefgh-i", "EN-us", "x-1-2-3">>, LAMBDA v : T2(v))
    [] g = "GetEncoding" -> Tokens
    [] g \in {"GetEventType"} -> Ts(<<"a!%*_+`'~-9", "7", "a.b.c", LongToken>>)
    [] g \in {"GetMethod"} /\ k = "Allow" -> Tokens
    [] g \in {"GetMethod"} /\ k = "RAck" -> Ts(<<"A!%*_+`'~.-9", "7", "X", LongToken2>>)
    [] g \in {"GetMethod"} /\ k = "CSeq" -> Ts(<<"A!%*_+`'~.-9", "7", "X", LongToken2>>)
    [] g \in {"GetSequenceNumber", "GetRSeqNumber"} -> IsAll(<<2, 10, 255, 65536, 1000000000, 2147483646>>) \o (IF g = "GetRSeqNumber" THEN <<Big("4294967295")>> ELSE <<Big("2147483648")>>)
    [] g \in {"GetCSeqNumber", "GetMajorVersion", "GetMinorVersion"} -> IsAll(<<9, 10, 255, 65536, 1000000000, 2147483646>>) \o <<Big("2147483648")>>
    [] g = "GetCallId" -> Ts(<<"a!%*_+`'~()<>:\\\"/[]?{7b}}.-9@h", "7", "x@[::1]", LongToken \o "@" \o LongToken>>)
    [] g \in {"GetPurpose", "GetHandling", "GetEventId", "GetPriority", "GetDispositionType", "GetBranch", "GetState", "GetReasonCode"} -> Tokens
    [] g = "GetProtocol" /\ k = "Reason" -> Tokens
    [] k = "Contact" /\ g = "GetExpires" -> Numbers
    [] k = "Content-Type" /\ g # "GetCharSet" -> Tokens2
    [] k = "Content-Type" /\ g = "GetCharSet" -> Tokens
    [] k = "Date" -> Map(<<"Sun, 29 Feb 2004 23:59:59", "Mon, 28 Feb 2011 00:00:00", "Tue, 01 Mar 2005 01:02:03", "Wed, 30 Apr 2008 12:00:00", "Thu, 31 May 2012 09:09:09",
           "Fri, 10 Jun 2005 10:10:10", "Sat, 31 Jul 1999 20:20:20", "Sun, 08 Aug 1971 08:08:08", "Mon, 20 Sep 2038 19:19:19", "Tue, 11 Oct 2050 11:11:11",
           "Fri, 31 Dec 2066 23:00:00", "Sat, 01 Jan 2000 00:00:00", "Thu, 01 Jan 1970 00:00:00">>, Day)
    [] g \in {"GetErrorMessage", "GetText"} -> Quotables
    [] k = "Extension" \/ g \in {"GetOrganization", "GetSubject"} -> Plain
    [] k = "Max-Forwards" -> [i \in 1..4 |-> [I(<<2, 9, 100, 253>>[i]) EXCEPT !.g = <<<<2, 9, 100, 253>>[i], FALSE>>]]
    [] g = "GetCause" -> Numbers
    [] g \in {"GetComment"} -> Ts(<<"a, b; c=d: e", "\"q", "{c3}{a9}", "<x>", Times("ab, ", 80) \o "z">>)
    [] g = "GetDuration" \/ (k = "Subscription-State" /\ g = "GetRetryAfter") -> Numbers
    [] k = "Subscription-State" /\ g = "GetExpires" -> Numbers
    [] g = "GetTransport" -> Ts(<<"SCTP", "TLS-SCTP", "X.1">>)
    [] g = "GetHost" -> Ts(<<"a", "1.2.3.4", "255.255.255.255", "h-1.x-y.org", "[::1]", "[2001:0DB8::9]", "x.y.z.example.com", "0xa.b">>)
    [] k = "Via" /\ g = "GetPort" -> IsAll(<<2, 9, 10, 80, 5061, 8080, 9999, 10000, 65534>>)
    [] g = "GetTTL" -> IsAll(<<1, 9, 10, 254>>)
    [] g = "GetMAddr" -> Map(<<"a", "h-1.x-y.org", "255.255.255.255", "[::1]">>, LAMBDA v : T2(v))
    [] g = "GetReceived" -> Ts(<<"10.0.0.1", "::1", "255.255.255.255", "2001:db8:0:0:1:2:3:4">>)
    [] g = "GetCode" -> IsAll(<<301, 305, 330, 331, 369, 371, 398>>)
    [] g = "GetAgent" -> Ts(<<"a", "10.0.0.1:1", "[::1]:5060", "x-y", "a!%*_+`'~.-9">>)
    [] g = "GetTimeStamp" -> Ts(<<"1", "0.5", "65536", "1.5", "999", "1048576.5", "0.0625">>)
    [] g = "GetDelay" -> Ts(<<"1", "65536", "1.5", "999", "10">>)
    [] OTHER -> <<>>
MoreBads(k, g) ==
  CASE k = "Max-Forwards" -> <<B(257), B(512), B(2147483647), B(-2147483647 - 1), B(-256), B("4294967297"), B("-4294967295")>>
    [] g = "GetCode" -> <<B(399 + 256), B(2147483647), B(-2147483647 - 1), B(300 - 256), B(200), B(500), B(-399)>>
    [] g = "GetQValue" -> <<B("1.001"), B("-0.001"), B("2"), B("-1"), B("1000000"), B("NaN"), B("Inf"), B("-Inf")>>
    [] g = "GetTTL" -> <<B(257), B(512), B(-3), B(2147483647), B(-2147483647 - 1)>>
    [] g \in {"GetContentLength", "GetExpires", "GetCause", "GetDuration", "GetMajorVersion", "GetMinorVersion", "GetCSeqNumber", "GetNonceCount", "GetSequenceNumber", "GetRSeqNumber"}
         \/ (g = "GetRetryAfter" /\ k = "Retry-After") -> <<B(-2), B(-2147483647 - 1), B(-65536), B("-2147483649"), B("-4294967296")>>
    [] OTHER -> <<>>
Table == [k \in AllKinds |-> LET fs == Fields(k) IN [i \in 1..Len(fs) |-> [Wide(fs[i], More(k, fs[i].get[1])) EXCEPT !.bads = @ \o MoreBads(k, fs[i].get[1])]]]
Name(k) == IF k = "Extension" THEN "X-Ext" ELSE k
(* parameters that a kind encodes between quotes whoever sets them *)
AutoQ(k, n) ==
  \/ k \in AuthKinds /\ Lower(n) \in {"qop", "realm", "cnonce", "nonce", "username", "domain", "opaque", "nextnonce", "uri", "algorithm", "response"}
  \/ k = "Authentication-Info" /\ Lower(n) \in {"qop", "nextnonce", "realm", "cnonce", "nonce", "opaque", "username", "domain", "algorithm", "rspauth"}

(* ---- the standard syntax. own: texts of the fields in the header itself ("" when *)
(* not set); pars: ordered parameters; s: what is put where white space is optional *)
ParText(p, s) == IF p.v = <<>> THEN p.n ELSE p.n \o s \o "=" \o s \o (IF p.q THEN Q(p.v[1]) ELSE p.v[1])
ParsText(pars, sep, s) == Join([i \in 1..Len(pars) |-> ParText(pars[i], s)], s \o sep \o s)
Core(k, own, s) ==
  CASE k \in {"Accept", "Content-Type"} -> own[1] \o s \o "/" \o s \o own[2]
    [] k \in {"Alert-Info", "Call-Info", "Error-Info"} -> "<" \o own[1] \o ">"
    [] k = "Authentication-Info" -> ""
    [] k = "CSeq" -> own[1] \o " " \o s \o own[2]
    [] k = "RAck" -> own[1] \o " " \o s \o own[2] \o " " \o s \o own[3]
    [] k = "MIME-Version" -> own[1] \o "." \o own[2]
    [] k = "Retry-After" -> own[1] \o (IF own[2] = "" THEN "" ELSE " " \o s \o "(" \o own[2] \o ")")
    [] k = "Subscription-State" -> own[1] \o (IF own[2] = "" THEN "" ELSE s \o ";" \o s \o "reason" \o s \o "=" \o s \o own[2])
         \o (IF own[3] = "" THEN "" ELSE s \o ";" \o s \o "retry-after" \o s \o "=" \o s \o own[3])
         \o (IF own[4] = "" THEN "" ELSE s \o ";" \o s \o "expires" \o s \o "=" \o s \o own[4])
    [] k = "Timestamp" -> own[1] \o (IF own[2] = "" THEN "" ELSE " " \o s \o own[2])
    [] k = "Via" -> own[5] \o s \o "/" \o s \o own[6] \o s \o "/" \o s \o own[1] \o " " \o s \o own[2]
         \o (IF own[3] = "" THEN "" ELSE ":" \o own[3]) \o (IF own[4] = "" THEN "" ELSE " " \o s \o "(" \o own[4] \o ")")
    [] k = "Warning" -> own[1] \o " " \o s \o own[2] \o (IF own[3] = "" THEN "" ELSE " " \o s \o Q(own[3]))
    [] OTHER -> own[1]
Body(k, own, pars, s) ==
  Core(k, own, s) \o (IF pars = <<>> THEN (IF k \in AuthKinds THEN " " ELSE "")
    ELSE IF k \in AuthKinds THEN " " \o s \o ParsText(pars, ",", s)
    ELSE IF k = "Authentication-Info" THEN ParsText(pars, ",", s)
    ELSE s \o ";" \o s \o ParsText(pars, ";", s))
Line(k, own, pars, s) == Name(k) \o s \o ":" \o (IF s = "" THEN " " ELSE s) \o Body(k, own, pars, s) \o s
=============================================================================
