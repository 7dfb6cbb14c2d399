---------------------------- MODULE MessageTable ----------------------------
(* The headers a message is edited with: name, whether several values of that name *)
(* form one list and how such a list is encoded, values, typed accessors, setter.  *)
EXTENDS Common

Single(n, vals, get, set) == [n |-> n, list |-> FALSE, rows |-> FALSE, vals |-> vals, get |-> get, all |-> "", set |-> set]
List(n, vals, get, all, set) == [n |-> n, list |-> TRUE, rows |-> FALSE, vals |-> vals, get |-> get, all |-> all, set |-> set]
(* a list of which every value is encoded on a line of its own *)
Rows(n, vals) == [List(n, vals, "", "", "") EXCEPT !.rows = TRUE]

Headers == <<
  Single("From", <<"<sip:a@x.org>", "\"B\" <sip:b@x.org>;tag=f2">>, "GetFrom", "SetFrom"),                      \* 1
  Single("To", <<"<sip:c@y.org>;tag=t1", "<sip:d@y.org>">>, "GetTo", "SetTo"),
  Single("CSeq", <<"1 INVITE", "2 INVITE">>, "GetCSeq", "SetCSeq"),
  Single("Call-ID", <<"c1@x.org", "c2">>, "GetCallId", "SetCallId"),
  Single("Max-Forwards", <<"70", "0">>, "GetMaxForwards", "SetMaxForwards"),
  Single("Expires", <<"0", "3600">>, "GetExpires", "SetExpires"),                                              \* 6
  Single("Min-Expires", <<"5", "60">>, "GetMinExpires", "SetMinExpiresHeader"),
  Single("Organization", <<"Acme", "A B">>, "GetOrganizationHeader", ""),
  Single("Priority", <<"normal", "urgent">>, "GetPriorityHeader", ""),
  Single("Content-Type", <<"application/sdp", "text/plain;charset=x">>, "GetContentTypeHeader", ""),
  Single("Content-Disposition", <<"session", "render;handling=optional">>, "GetContentDisposition", "SetContentDisposition"),  \* 11
  Single("Authorization", <<"Digest realm=\"a\"", "Digest realm=\"b\",nonce=\"n\"">>, "GetAuthorization", ""),
  Single("Proxy-Authorization", <<"Digest realm=\"a\"", "Digest realm=\"b\"">>, "GetProxyAuthorizationHeader", ""),
  Single("Subject", <<"hello", "x y">>, "", ""),
  Single("User-Agent", <<"ua/1", "ub">>, "", ""),
  Single("Server", <<"sa/1", "sb">>, "", ""),                                                                   \* 16
  Single("MIME-Version", <<"1.0", "2.1">>, "", ""),
  Single("Reply-To", <<"<sip:a@x.org>", "\"B\" <sip:b@x.org>">>, "", ""),
  Single("Timestamp", <<"54", "1.5">>, "", ""),
  Single("Retry-After", <<"5", "60;duration=10">>, "", ""),
  Single("Event", <<"presence", "dialog;id=7">>, "", ""),                                                       \* 21
  Single("RSeq", <<"1", "22">>, "", ""),
  Single("RAck", <<"1 2 INVITE", "3 4 PRACK">>, "", ""),
  Single("Subscription-State", <<"active", "pending;expires=5">>, "", ""),
  Single("Refer-To", <<"<sip:a@x.org>", "\"B\" <sip:b@x.org>">>, "", ""),
  Single("Date", <<"Sat, 13 Nov 2010 23:29:00 GMT", "Mon, 02 Jan 2006 15:04:05 GMT">>, "", ""),                 \* 26
  List("Via", <<"SIP/2.0/UDP h1;branch=z9hG4bK1", "SIP/2.0/TCP h2:5070;branch=z9hG4bK2", "SIP/2.0/TLS h3">>, "GetTopmostVia", "GetViaHeaders", "SetVia"),
  List("Route", <<"<sip:r1.org;lr>", "<sip:r2.org>", "\"R\" <sip:r3.org;lr>">>, "", "GetRouteHeaders", ""),
  List("Record-Route", <<"<sip:q1.org;lr>", "<sip:q2.org>", "<sip:q3.org;lr>">>, "", "GetRecordRouteHeaders", ""),
  List("Contact", <<"<sip:m1@h.org>", "\"M\" <sip:m2@h.org>;q=0.5", "<sip:m3@h.org:5070>">>, "", "GetContactHeaders", ""),
  List("Error-Info", <<"<sip:e1@h.org>", "<http://e.org/2>", "<sip:e3@h.org>">>, "", "GetErrorInfoHeaders", ""),  \* 31
  List("Content-Encoding", <<"gzip", "tar", "x-1">>, "GetContentEncoding", "", "SetContentEncoding"),
  List("Content-Language", <<"en", "fr", "da-gb">>, "GetContentLanguage", "", "SetContentLanguage"),
  List("Warning", <<"307 isi.edu \"a\"", "370 h \"b c\"", "399 h.org \"d\"">>, "", "", ""),
  List("Accept", <<"application/sdp", "text/html;level=1", "*/*">>, "", "", ""),
  List("Accept-Encoding", <<"gzip", "tar", "x-1">>, "", "", ""),                                                 \* 36
  List("Accept-Language", <<"en", "fr", "da-gb">>, "", "", ""),
  List("Alert-Info", <<"<http://a.org/1>", "<sip:a2@h.org>;x=1", "<http://a.org/3>">>, "", "", ""),
  List("Allow", <<"INVITE", "ACK", "OPTIONS">>, "", "", ""),
  List("Allow-Events", <<"presence", "dialog", "x-1">>, "", "", ""),
  List("Call-Info", <<"<http://a.org/1>;purpose=icon", "<http://a.org/2>", "<sip:a3@h.org>">>, "", "", ""),      \* 41
  List("In-Reply-To", <<"c1@x.org", "c2", "c3@z">>, "", "", ""),
  List("Proxy-Require", <<"p1", "p2", "p3">>, "", "", ""),
  List("Reason", <<"SIP;cause=200", "Q.850;cause=16", "SIP;cause=600">>, "", "", ""),
  List("Require", <<"100rel", "r2", "r3">>, "", "", ""),
  List("Supported", <<"100rel", "s2", "s3">>, "", "", ""),                                                       \* 46
  List("Unsupported", <<"100rel", "u2", "u3">>, "", "", ""),
  Rows("WWW-Authenticate", <<"Digest realm=\"a\"", "Digest realm=\"b\",nonce=\"n\"", "Digest realm=\"c\"">>),
  Rows("Proxy-Authenticate", <<"Digest realm=\"a\"", "Digest realm=\"b\",nonce=\"n\"", "Digest realm=\"c\"">>),
  Rows("X-Ext", <<"v1", "v 2", "3, 4">>)                                                                        \* 50
>>
No(n) == CHOOSE i \in 1..Len(Headers) : Headers[i].n = n

(* From and To values with another tag *)
Bases == <<"<sip:a@x.org>", "\"B\" <sip:b@x.org>", "<sip:c@y.org>", "<sip:d@y.org>">>
Tags == <<"f2", "t1", "Tg-9">>
Tagged(b, t) == b \o (IF t = 0 THEN "" ELSE ";tag=" \o Tags[t])
Splits == [b \in 1..Len(Bases), t \in 0..Len(Tags) |-> Tagged(Bases[b], t)]
SplitOf(x) == CHOOSE p \in (1..Len(Bases)) \X (0..Len(Tags)) : Splits[p[1], p[2]] = x
TagIn(x) == LET t == SplitOf(x)[2] IN IF t = 0 THEN "" ELSE Tags[t]
Retag(x, t) == Tagged(Bases[SplitOf(x)[1]], t)
SeqNo(x) == IF x = "1 INVITE" THEN 1 ELSE 2
=============================================================================
