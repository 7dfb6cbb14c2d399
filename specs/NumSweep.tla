------------------------------ MODULE NumSweep ------------------------------
(* P10, P11.  Every number a header can carry (or a wide choice of them), every day and every *)
(* second: read, told, encoded, set and read again; and the numbers next to them refused.     *)
EXTENDS Common
CONSTANTS What, Stride
VARIABLES f, n
vars == <<f, n>>
Seen(ret) == [err |-> FALSE, ret |-> ret, objs |-> <<>>]
Get(id, kind, text) == S("parse", <<id, kind, text>>, Seen("*"))
Ask(id, m, args, ret) == S("call", <<id, m, args>>, Seen(ret))
Again(id, kind) == S("reparse", <<id, kind>>, Seen("*"))
Refused(id, m, args) == S("call", <<id, m, args>>, [err |-> TRUE, ret |-> "*", objs |-> <<>>])
Max == 2147483647
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Round == UNION {{Pow(2, k) - 1, Pow(2, k)} : k \in 1..30} \cup UNION {{Pow(10, k) - 1, Pow(10, k), Pow(10, k) + 1} : k \in 0..9} \cup {Max, Max - 1}
Many == Round \cup {i * Stride : i \in 0..(100000 \div Stride)} \cup 0..130
F(pre, post, getter, setter, good, bad) == [pre |-> pre, post |-> post, getter |-> getter, setter |-> setter, good |-> good, bad |-> bad]
Fields == {
  F("Max-Forwards: ", "", "GetMaxForwards", "SetMaxForwards", 0..255, (-300..-1) \cup 256..1100), F("Warning: ", " h \"t\"", "GetCode", "SetCode", 300..399, (-5..299) \cup 400..1100),
  F("Via: SIP/2.0/UDP h;ttl=", ";x=y", "GetTTL", "SetTTL", 0..255, (-9..-2) \cup 256..600), F("Via: SIP/2.0/UDP h:", ";x=y", "GetPort", "SetPort", {i \in Many : i \in 1..65535}, {}),
  F("Expires: ", "", "GetExpires", "SetExpires", Many, -300..-1), F("Min-Expires: ", "", "GetExpires", "SetExpires", Many, -300..-1), F("Content-Length: ", "", "GetContentLength", "SetContentLength", Many, -300..-1),
  F("CSeq: ", " INVITE", "GetSequenceNumber", "SetSequenceNumber", Many, -300..-1), F("RSeq: ", "", "GetSequenceNumber", "SetSequenceNumber", Many \ {0}, -300..0),
  F("RAck: ", " 7 INVITE", "GetRSeqNumber", "SetRSeqNumber", Many \ {0}, -300..0), F("RAck: 7 ", " INVITE", "GetCSeqNumber", "SetCSeqNumber", Many, -300..-1),
  F("Retry-After: ", " (c);duration=5", "GetRetryAfter", "SetRetryAfter", Many, -300..-1), F("Retry-After: 5;duration=", "", "GetDuration", "SetDuration", Many, -300..-1),
  F("Subscription-State: active;expires=", "", "GetExpires", "SetExpires", Many, -300..-1), F("Subscription-State: active;retry-after=", "", "GetRetryAfter", "SetRetryAfter", Many, -300..-1),
  F("Contact: <sip:a@b>;expires=", ";x=y", "GetExpires", "SetExpires", Many, -300..-1), F("Reason: SIP;cause=", "", "GetCause", "SetCause", Many, -300..-1),
  F("MIME-Version: ", ".5", "GetMajorVersion", "SetMajorVersion", 0..130, -30..-1), F("MIME-Version: 1.", "", "GetMinorVersion", "SetMinorVersion", 0..130, -30..-1),
  F("Timestamp: ", "", "GetTimeStamp", "SetTimeStamp", 0..130, {}) }
Num(g, v) == IF g.getter = "GetTimeStamp" THEN ToString(v) ELSE v
Text(g, v) == g.pre \o ToString(v) \o g.post
Base(g) == IF g.pre = "Warning: " THEN 300 ELSE IF g.pre = "Max-Forwards: " THEN 3 ELSE 1
Good(g, v) == <<Get(1, "element", Text(g, v) \o "\n"), Ask(1, g.getter, <<>>, Num(g, v)), Ask(1, "String", <<>>, Text(g, v) \o CRLF), Again(1, "element"), Ask(1, g.getter, <<>>, Num(g, v)),
                Get(1, "element", Text(g, Base(g)) \o "\n"), Ask(1, g.setter, <<Num(g, v)>>, "*"), Ask(1, g.getter, <<>>, Num(g, v)), Ask(1, "String", <<>>, Text(g, v) \o CRLF)>>
Bad(g, v) == <<Get(1, "element", Text(g, Base(g)) \o "\n"), Refused(1, g.setter, <<Num(g, v)>>), Ask(1, g.getter, <<>>, Num(g, Base(g))), Ask(1, "String", <<>>, Text(g, Base(g)) \o CRLF)>>

(* thousandths: the shortest decimal *)
Dec(i) == IF i % 1000 = 0 THEN ToString(i \div 1000) ELSE
          LET d == i % 1000 w == ToString(i \div 1000) \o "." IN
          IF d % 100 = 0 THEN w \o ToString(d \div 100) ELSE IF d % 10 = 0 THEN w \o (IF d < 100 THEN "0" ELSE "") \o ToString(d \div 10) ELSE w \o (IF d < 10 THEN "00" ELSE IF d < 100 THEN "0" ELSE "") \o ToString(d)
Quals == {<<"Accept: t/u;q=", "">>, <<"Contact: <sip:a@b>;q=", ";x=y">>, <<"Accept-Encoding: gzip;q=", "">>, <<"Accept-Language: en;q=", "">>}
Qual(g, i) == LET t == g[1] \o Dec(i) \o g[2] IN <<Get(1, "element", t \o "\n"), Ask(1, "GetQValue", <<>>, Dec(i)), Ask(1, "String", <<>>, t \o CRLF), Again(1, "element"), Ask(1, "String", <<>>, t \o CRLF),
                Get(1, "element", g[1] \o "0.5" \o g[2] \o "\n"), Ask(1, "SetQValue", <<Dec(i)>>, "*"), Ask(1, "GetQValue", <<>>, Dec(i)), Ask(1, "String", <<>>, t \o CRLF)>>
NoQual(g, i) == LET t == g[1] \o "0.5" \o g[2] IN <<Get(1, "element", t \o "\n"), Refused(1, "SetQValue", <<Dec(i)>>), Refused(1, "SetQValue", <<"-" \o Dec(i)>>), Ask(1, "String", <<>>, t \o CRLF)>>
Stamps == {<<"Timestamp: ", "", "GetTimeStamp", "SetTimeStamp">>, <<"Timestamp: 3.5 ", "", "GetDelay", "SetDelay">>}
Stamp(g, i) == LET t == g[1] \o Dec(i) \o g[2] IN <<Get(1, "element", t \o "\n"), Ask(1, g[3], <<>>, Dec(i)), Ask(1, "String", <<>>, t \o CRLF), Again(1, "element"), Ask(1, g[3], <<>>, Dec(i)),
                Get(1, "element", g[1] \o "0.5" \o g[2] \o "\n"), Ask(1, g[4], <<Dec(i)>>, "*"), Ask(1, g[3], <<>>, Dec(i)), Ask(1, "String", <<>>, t \o CRLF)>>

(* days since 1 January 1996, a Monday *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 30
RECURSIVE Calendar(_, _, _)
Calendar(d, y, m) == IF d < Days(y, m) THEN <<y, m, d + 1>> ELSE Calendar(d - Days(y, m), IF m = 12 THEN y + 1 ELSE y, IF m = 12 THEN 1 ELSE m + 1)
Wkday == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Two(i) == IF i < 10 THEN "0" \o ToString(i) ELSE ToString(i)
Day(d, s) == LET c == Calendar(d % 1461, 1996 + 4 * (d \div 1461), 1) IN
             Wkday[(d % 7) + 1] \o ", " \o Two(c[3]) \o " " \o Months[c[2]] \o " " \o ToString(c[1]) \o " " \o Two(s \div 3600) \o ":" \o Two((s \div 60) % 60) \o ":" \o Two(s % 60)
Date(d, s) == LET t == Day(d, s) IN <<Get(1, "element", "Date: " \o t \o " GMT\n"), Ask(1, "GetDate", <<>>, t \o " GMT"), Ask(1, "String", <<>>, "Date: " \o t \o " GMT" \o CRLF), Again(1, "element"), Ask(1, "GetDate", <<>>, t \o " GMT"),
                Get(1, "element", "Date: Sat, 13 Nov 2010 23:29:00 GMT\n"), Ask(1, "SetDate", <<[date |-> t \o " UTC"]>>, "*"), Ask(1, "String", <<>>, "Date: " \o t \o " GMT" \o CRLF)>>
Init == n = -1000 /\ f \in (CASE What = "good" -> Fields [] What = "bad" -> {g \in Fields : g.bad # {}} [] What = "fine" -> {1})
One(g, i) == CASE What = "good" -> Emit(Good(g, i)) [] What = "bad" -> Emit(Bad(g, i))
               [] What = "fine" -> /\ \A q \in Quals : IF i <= 1000 THEN Emit(Qual(q, i)) ELSE Emit(NoQual(q, i))
                                   /\ \A q \in Stamps : Emit(Stamp(q, i * 7)) /\ Emit(Stamp(q, i))
                                   /\ Emit(Date(i * 9, (i * 7919) % 86400)) /\ Emit(Date(i, (i * 61) % 86400))
Numbers(g) == CASE What = "good" -> g.good [] What = "bad" -> g.bad [] What = "fine" -> 0..1200
Next == n = -1000 /\ f' = f /\ n' \in Numbers(f) /\ One(f, n')
Spec == Init /\ [][Next]_vars
=============================================================================
