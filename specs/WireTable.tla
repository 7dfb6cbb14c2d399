----------------------------- MODULE WireTable -----------------------------
(* The headers of messages as they come on the wire: name, compact name, whether   *)
(* a line may hold several values, and values, each written with "|" wherever       *)
(* white space may stand or the line may be folded, with what it is encoded as.     *)
EXTENDS Common

CutAt(s) == LET at == {i \in 1..Len(s) : SubSeq(s, i, i) = "|"} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
RECURSIVE Cut(_)
Cut(s) == LET i == CutAt(s) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Cut(SubSeq(s, i + 1, Len(s)))
V(w) == [w |-> Cut(w), c |-> Concat(Cut(w))]                    (* encoded as it is written *)
As(w, c) == [w |-> Cut(w), c |-> c]                             (* encoded otherwise *)
Vs(ws) == Map(ws, V)

One(n, short, vals) == [n |-> n, short |-> short, list |-> FALSE, rows |-> FALSE, vals |-> vals]
Many(n, short, vals) == [One(n, short, vals) EXCEPT !.list = TRUE]            (* values parted by commas *)
Each(n, vals) == [One(n, "", vals) EXCEPT !.list = TRUE, !.rows = TRUE]       (* a line for every value *)

(* the algorithm, and the quality of protection, are encoded in quotes, as the library's own tests ask *)
Pairs(pre) == <<As(pre \o "|realm|=|\"a, b\"|,|nonce|=|\"84a4cc6f\"|,|opaque|=|\"\"|,|stale|=|FALSE|,|algorithm|=|MD5",
                   pre \o "realm=\"a, b\",nonce=\"84a4cc6f\",opaque=\"\",stale=FALSE,algorithm=\"MD5\"")>> \o Vs(<<
  pre \o "|qop|=|\"auth,auth-int\"|,|realm|=|\"x\"", pre \o "|realm|=|\"a\\\"b;c\"" >>)
Addresses == Vs(<<"<sip:a@x.org>", "<sip:b@x.org;lr;transport=tcp?h=v%20w>|;|p|=|v|;|z|=|1", "\"A \\\"B\\\", <C>;d\" <sips:c:pw@[2001:db8::9]:5061>",
                  "<tel:+1-201-555;phone-context=x>|;|p|=|\"q, r\"">>)
Bare == << As("sip:d@x.org:5070", "<sip:d@x.org:5070>"), As("Ed Q |<sip:e@x.org>", "\"Ed Q\" <sip:e@x.org>") >>
Tagged == Vs(<<"<sip:a@x.org>|;|tag|=|f2", "\"B, C\" |<sip:b@x.org:5070;user=phone>|;|tag|=|1-x|;|y|=|z", "<tel:+12015550123>|;|tag|=|T">>)
       \o << As("sip:d@x.org|;|tag|=|d4", "<sip:d@x.org>;tag=d4"), As("Ed |<sip:e@x.org>|;|tag|=|e", "\"Ed\" <sip:e@x.org>;tag=e") >>

(* ---- values of rarer kinds, by header; WireTable keeps them behind the others *)
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN Times(x \o x, n \div 2) ELSE x \o Times(x \o x, n \div 2)
LongWord == Times("0123456789", 33)
LongText == Times("ab, ", 90) \o "z"
Odd == "a!%*_+`'~.-9"
RareURIs == <<"sip:a;b=c?d/e@h.org", "sip:a%20b!$&'()*+,=:p&=+$,@h.org", "sip:h.org;lr;ttl=1;maddr=[::1];method=INVITE;x=%41", "sip:h.org?a=b&c=d&Subject=x%20y",
  "sip:" \o LongWord \o "@h.org;x=" \o LongWord, "mailto:a@b.org?c=d", "urn:service:sos", "cid:1@2", "http://a.org:80/b,c;d?e=f&g=h", "tel:+1-(201).555;isub=12;postd=p34",
  "tel:7042;phone-context=x.org", "sips:10.0.0.1:65535", "sip:a@[::ffff:10.0.0.1]", "sip:+1-2;x=y@h.org;user=phone", "sip:*97@h", "sip:a.b-c_d@x-1.y2.org:1">>
RareAddresses == Vs(Map(RareURIs, LAMBDA u : "<" \o u \o ">")) \o Vs(<<"\"\\\"A\\\" \\\\ <;,>@:\" <sip:a@x.org>", "\"{c3}{a9} {e2}{82}{ac}\" <sip:a@x.org>", "\"" \o LongText \o "\" <sip:a@x.org>"
  >>) \o << As("<SIP:a@H.org>", "<sip:a@H.org>"), As("a-.!%*_+`'~ b |<sip:a@x.org>", "\"a-.!%*_+`'~ b\" <sip:a@x.org>") >>
RarePars == Vs(<<"<sip:a@x.org>|;|x|=|" \o Odd \o "|;|" \o Odd \o "|=|1", "<sip:a@x.org>|;|x|=|\"\\\"\\\\;,<>\"|;|y|=|" \o LongWord,
  "<sip:a@x.org>|;|a|=|1|;|b|=|2|;|c|=|3|;|d|=|4|;|e|=|5|;|f|=|6|;|g|=|7|;|h|=|8|;|i|=|9|;|j|=|10|;|k|=|11|;|l|=|12">>)
RareTags == Vs(<<"<sip:a@x.org>|;|tag|=|" \o Odd, "<sip:a@x.org>|;|tag|=|" \o LongWord, "<sip:a@x.org>|;|x|=|y|;|tag|=|0|;|z|=|\"tag=1\"">>)
RareTokens == Vs(<<Odd, "7", LongWord, "UPPER-lower.1">>)
RareTexts == Vs(<<"a: b", "\"a", "<a", "a)", "{c3}{a9}{e2}{82}{ac}", LongText, "1", "x=y;z, w">>)
RareNumbers == << V("2147483647"), V("65536"), As("007", "7"), V("10"), V("1000000000") >>
RareQuoted(pre) == Vs(Map(<<"\\\"\\\\", "{c3}{a9}", LongText, " a  b ", "'<>()@,;:/[]?=", "">>, LAMBDA t : pre \o "\"" \o t \o "\""))
RareAuth == RareQuoted("Digest |realm|=|") \o RareQuoted("Digest |realm|=|\"x\"|,|nonce|=|") \o Vs(<<"Digest |realm|=|\"a\"|,|x|=|" \o Odd, "Basic |realm|=|\"a\"">>)
RareDates == Vs(<<"Sun, 29 Feb 2004 23:59:59 GMT", "Mon, 28 Feb 2011 00:00:00 GMT", "Tue, 01 Mar 2005 01:02:03 GMT", "Wed, 30 Apr 2008 12:00:00 GMT", "Thu, 31 May 2012 09:09:09 GMT",
  "Fri, 10 Jun 2005 10:10:10 GMT", "Sat, 31 Jul 1999 20:20:20 GMT", "Sun, 08 Aug 1971 08:08:08 GMT", "Mon, 20 Sep 2038 19:19:19 GMT", "Tue, 11 Oct 2050 11:11:11 GMT", "Fri, 31 Dec 2066 23:00:00 GMT">>)
RareQ(x) == Vs(<<x \o "|;|q|=|0", x \o "|;|q|=|1", x \o "|;|q|=|0.125">>)
Rare(n) ==
  CASE n \in {"From", "To"} -> RareAddresses \o RarePars \o RareTags
    [] n \in {"Reply-To", "Refer-To", "Route", "Record-Route", "Contact"} -> RareAddresses \o RarePars
    [] n = "CSeq" -> << V("10 |INVITE"), As("0007 |INVITE", "7 INVITE"), V("65536 |INVITE"), V("1000000000 |INVITE") >>
    [] n = "Call-ID" -> Vs(<<"a!%*_+`'~()<>:\\\"/[]?{7b}}.-9@h", "7", LongWord \o "@" \o LongWord, "x@[::1]">>)
    [] n = "In-Reply-To" -> Vs(<<"a!%*_+`'~()<>:\\\"/[]?{7b}}.-9@h", "7", LongWord \o "@" \o LongWord, "x@[::1]">>)
    [] n = "Max-Forwards" -> << V("1"), V("9"), V("10"), V("254"), As("070", "70") >>
    [] n \in {"Expires", "Min-Expires", "RSeq", "Retry-After"} -> RareNumbers
    [] n \in {"Organization", "Subject"} -> RareTexts
    [] n \in {"X-Ext", "P-Other"} -> RareTexts
    [] n \in {"Priority", "Content-Encoding", "Accept-Encoding", "Allow", "Proxy-Require", "Require", "Supported", "Unsupported", "Reason", "Content-Disposition"} -> RareTokens
    [] n \in {"Event", "Allow-Events"} -> Vs(<<"a!%*_+`'~-9", "7", "a.b.c.d", LongWord>>)
    [] n = "Subscription-State" -> RareTokens \o Vs(<<"pending|;|expires|=|2147483647", "x|;|retry-after|=|0">>)
    [] n = "Content-Type" -> Vs(<<"a!%_+`'~.-9|/|b!%_+`'~.-9", LongWord \o "|/|" \o LongWord, "x|/|y|;|a|=|\"\\\"\\\\;,\"|;|b|=|" \o Odd>>)
    [] n = "Accept" -> Vs(<<"a!%_+`'~.-9|/|b!%_+`'~.-9", LongWord \o "|/|" \o LongWord, "x|/|y|;|a|=|\"\\\"\\\\;,\"|;|b|=|" \o Odd>>) \o RareQ("x|/|y")
    [] n \in {"Accept-Language", "Content-Language"} -> Vs(<<"a-bcdefgh-i", "EN-us", "x-1-2-3">>)
    [] n \in {"Authorization", "Proxy-Authorization", "WWW-Authenticate", "Proxy-Authenticate"} -> RareAuth
    [] n = "Authentication-Info" -> RareQuoted("nextnonce|=|")
    [] n \in {"User-Agent", "Server"} -> Vs(<<Odd, LongWord, "7">>)
    [] n = "MIME-Version" -> Vs(<<"0.0", "10.9", "2147483647.65536">>)
    [] n = "Timestamp" -> Vs(<<"0", "1 |0", "0.5 |1.5", "65536">>) \o << As("5.", "5"), As("7. |.5", "7 0.5"), As("7 |2.", "7 2") >>
    [] n = "RAck" -> << V("2147483647 |2147483647 |A!%*_+`'~.-9"), As("007 |010 |ACK", "7 10 ACK") >>
    [] n = "Date" -> RareDates
    [] n = "Via" -> Vs(<<"SIP|/|2.0|/|UDP a|;|branch|=|" \o Odd, "SIP|/|2.0|/|SCTP x-1.y.org:1|;|branch|=|" \o LongWord, "SIP|/|2.0|/|TLS-SCTP 255.255.255.255:65535",
         "SIP|/|2.0|/|UDP h|;|maddr|=|[::1]|;|received|=|[2001:db8::7]|;|x|=|\"\\\"\\\\;,\"", "SIP|/|2.0|/|UDP h|;|a|=|1|;|b|=|2|;|c|=|3|;|d|=|4|;|e|=|5|;|f|=|6|;|g|=|7|;|h|=|8|;|i|=|9|;|j|;|k|;|l",
         "SIP|/|2.0|/|UDP h:5060 |(a; b, c=d)|;|rport">>)
    [] n \in {"Error-Info", "Alert-Info", "Call-Info"} -> Vs(Map(RareURIs, LAMBDA u : "<" \o u \o ">")) \o RarePars
    [] n = "Warning" -> RareQuoted("301 |h |") \o RareQuoted("398 |[::1]:5060 |") \o Vs(<<"300 |a!%*_+`'~.-9 |\"x\"">>)
    [] OTHER -> <<>>
Usual == <<
  One("From", "f", Tagged),
  One("To", "t", Tagged \o Vs(<<"<sip:a@x.org>">>)),
  One("CSeq", "", << V("1 |INVITE"), V("2147483647 |INVITE"), V("0 |INVITE") >>),
  One("Call-ID", "i", Vs(<<"c1@x.org", "c2", "f81d4fae-7dec.11d0+a7~%@192.0.2.1">>)),
  One("Max-Forwards", "", Vs(<<"70", "0", "255">>)),
  One("Expires", "", Vs(<<"0", "3600">>)),
  One("Min-Expires", "", Vs(<<"0", "60">>)),
  One("Organization", "", Vs(<<"Boxes by Bob, Inc; x=y", "x">>)),
  One("Priority", "", Vs(<<"non-urgent", "x.1">>)),
  One("Content-Type", "c", Vs(<<"application|/|sdp", "multipart|/|mixed|;|boundary|=|\"a;b, c\"|;|charset|=|UTF-8">>)),
  One("Content-Disposition", "", Vs(<<"session", "render|;|handling|=|optional|;|x|=|y">>)),
  One("Authorization", "", Pairs("Digest ") \o <<As("Digest |username|=|\"bob, b\"|,|uri|=|\"sip:a@b;lr\"|,|nc|=|00000001|,|response|=|\"00ff\"|,|cnonce|=|\"c\"|,|qop|=|auth-int", "Digest username=\"bob, b\",uri=\"sip:a@b;lr\",nc=00000001,response=\"00ff\",cnonce=\"c\",qop=\"auth-int\"")>>),
  One("Proxy-Authorization", "", Pairs("Digest ")),
  One("Subject", "s", Vs(<<"Need more boxes, now; \"a\" <b>: c", "x">>)),
  One("User-Agent", "", Vs(<<"Softphone/1.5", "ua">>)),
  One("Server", "", Vs(<<"Home/2", "s">>)),
  One("MIME-Version", "", Vs(<<"1.0", "12.34">>)),
  One("Reply-To", "", Addresses \o Bare),
  One("Timestamp", "", Vs(<<"54", "7.03125", "54.25 |0.5">>)),
  One("Retry-After", "", Vs(<<"18000", "120 |(I'm in a meeting; back soon)", "5|;|duration|=|10", "60 |(x)|;|duration|=|0|;|z|=|1", "1 |(a (b; (c), d) \\( e)|;|x|=|y">>)),
  One("Event", "o", Vs(<<"presence", "dialog.winfo|;|id|=|7|;|x|=|y">>)),
  One("RSeq", "", Vs(<<"1", "988789">>)),
  One("RAck", "", Vs(<<"1 |2 |INVITE", "776656 |0 |PRACK">>)),
  One("Subscription-State", "", Vs(<<"active", "terminated|;|reason|=|probation|;|retry-after|=|60|;|expires|=|0">>)),
  One("Refer-To", "r", Addresses \o Bare),
  One("Date", "", Vs(<<"Sat, 13 Nov 2010 23:29:00 GMT", "Thu, 01 Jan 2004 00:00:09 GMT">>)),
  One("Authentication-Info", "", Vs(<<"nextnonce|=|\"47364c, x\"|,|qop|=|\"auth\"|,|nc|=|00000001", "nextnonce|=|\"a\"">>)),
  Many("Via", "v", Vs(<<"SIP|/|2.0|/|UDP |h1|;|branch|=|z9hG4bK1", "SIP|/|2.0|/|TCP |h2|:|5070|;|branch|=|z9hG4bK2|;|received|=|192.0.2.1|;|rport|=|9",
     "SIP|/|2.0|/|TLS |[2001:db8::7]|:|5061|;|rport|;|x|;|branch|=|z9hG4bK3", "SIP|/|2.0|/|UDP 10.0.0.1|;|ttl|=|16|;|maddr|=|224.2.0.1|;|branch|=|1a">>)),
  Many("Route", "", Vs(<<"<sip:r1.org;lr>", "\"R, S\" |<sip:r3.org;lr>|;|x|=|y", "<sip:u@r2.org:5070>">>)),
  Many("Record-Route", "", Vs(<<"<sip:q1.org;lr>", "<sip:q2.org>|;|p|=|z", "\"Q\" <sip:q3.org;lr;ftag=1>">>)),
  Many("Contact", "m", Addresses \o Bare \o Vs(<<"\"M\" |<sip:m2@h.org>|;|q|=|0.5|;|expires|=|3600">>)),
  Many("Error-Info", "", Vs(<<"<sip:e1@h.org>", "<http://e.org/2,3>|;|message|=|\"out, of; order\"", "<sip:e3@h.org>|;|x|=|y">>)),
  Many("Content-Encoding", "e", Vs(<<"gzip", "tar", "x-1">>)),
  Many("Content-Language", "", Vs(<<"en", "fr", "da-gb">>)),
  Many("Warning", "", Vs(<<"307 |isi.edu |\"a, b\"", "370 |h:5070 |\"c\"", "399 |h.org |\"x; \\\"y\\\"\"">>)),
  Many("Accept", "", Vs(<<"application|/|sdp", "text|/|html|;|level|=|1", "*|/|*", "a|/|*|;|q|=|0.5">>)),
  Many("Accept-Encoding", "", Vs(<<"gzip", "identity|;|q|=|0.5", "*">>)),
  Many("Accept-Language", "", Vs(<<"en", "da-gb|;|q|=|0.5", "*">>)),
  Many("Alert-Info", "", Vs(<<"<http://a.org/1,2;x>", "<sip:a2@h.org>|;|x|=|1", "<http://a.org/3>">>)),
  Many("Allow", "", Vs(<<"INVITE", "ACK", "X-1">>)),
  Many("Allow-Events", "u", Vs(<<"presence", "dialog.winfo", "x-1">>)),
  Many("Call-Info", "", Vs(<<"<http://a.org/1>|;|purpose|=|icon", "<http://a.org/2>", "<sip:a3@h.org>|;|purpose|=|card|;|z|=|y">>)),
  Many("In-Reply-To", "", Vs(<<"c1@x.org", "c2", "c3@z">>)),
  Many("Proxy-Require", "", Vs(<<"p1", "p2.x", "p3">>)),
  Many("Reason", "", Vs(<<"SIP|;|cause|=|200|;|text|=|\"Call, done; x\"", "Q.850|;|cause|=|16", "SIP">>)),
  Many("Require", "", Vs(<<"100rel", "r2", "r3">>)),
  Many("Supported", "k", Vs(<<"100rel", "s2", "s3">>)),
  Many("Unsupported", "", Vs(<<"100rel", "u2", "u3">>)),
  Each("WWW-Authenticate", Pairs("Digest ")),
  Each("Proxy-Authenticate", Pairs("Digest ")),
  Each("X-Ext", Vs(<<"v1", "v 2; \"x\" <y>", "3, 4">>)),
  Each("P-Other", Vs(<<"sip:a", "b: c">>))
>>
Wire == [i \in 1..Len(Usual) |-> [n |-> Usual[i].n, short |-> Usual[i].short, list |-> Usual[i].list, rows |-> Usual[i].rows,
   vals |-> Usual[i].vals \o Rare(Usual[i].n), few |-> Len(Usual[i].vals)]]
WireNo(n) == CHOOSE i \in 1..Len(Wire) : Wire[i].n = n
=============================================================================
