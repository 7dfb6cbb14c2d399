------------------------------- MODULE Chars --------------------------------
(* P09, P10, P13.  Every character that the grammar lets stand in a place, alone, at the    *)
(* beginning, inside, at the end and doubled: the text is read back and encoded as it was.   *)
EXTENDS Common
CONSTANTS What, Pairs
VARIABLES f, c, done
vars == <<f, c, done>>

Seen(ret) == [err |-> FALSE, ret |-> ret, objs |-> <<>>]
Get(id, kind, text) == S("parse", <<id, kind, text>>, Seen("*"))
Ask(id, m, args, ret) == S("call", <<id, m, args>>, Seen(ret))
Again(id, kind) == S("reparse", <<id, kind>>, Seen("*"))

Letters == Range(UpperSeq) \cup Range(LowerSeq)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Alnum == Letters \cup Digits
Hex == Chars("0123456789abcdef")
Upper2 == {"{" \o Hex[i] \o Hex[j] \o "}" : i \in 9..16, j \in 1..16}      (* the bytes from 80 to ff *)
Escape == {"%" \o x \o y : x \in {"0", "2", "4", "7", "a", "F"}, y \in {"0", "5", "f", "A"}}
Token == Alnum \cup Range(Chars("-.!%*_+`'~"))
Word == Token \cup Range(Chars("()<>:\\\"/[]?}")) \cup {"{7b}"}
Quoted == Token \cup Range(Chars(" ()<>:/[]?}@,;=&$#^|")) \cup {"{7b}", "\t"}
Text == Quoted \cup {"\"", "\\"}
Mark == Range(Chars("-_.!~*'()"))
User == Alnum \cup Mark \cup Range(Chars("&=+$,;?/")) \cup Escape
Pass == Alnum \cup Mark \cup Range(Chars("&=+$,")) \cup Escape
ParChar == Alnum \cup Mark \cup Range(Chars("[]/:&+$")) \cup Escape
HdrChar == Alnum \cup Mark \cup Range(Chars("[]/?:+$")) \cup Escape
Edge == {" ", "\t", ","}
Blank == {" ", "\t"}

(* where the character stands *)
Placed(x, edges, o) == {o[1] \o x \o o[2], o[1] \o x \o x \o o[2]} \cup (IF edges THEN {x, x \o o[1], "7" \o x, x \o x} ELSE {})

Outer(g) == IF g.pre = "CSeq: 7 M" THEN <<"A", "B">> ELSE <<"a", "b">>
(* the kind of text, what is before and behind, who tells it, and the characters; whether the ends count *)
F(kind, pre, post, getter, args, class) == [kind |-> kind, pre |-> pre, post |-> post, getter |-> getter, args |-> args, class |-> class, free |-> {}]
Ends(g, set) == [g EXCEPT !.free = set]                 (* the characters that are no part of a value at its ends *)
H(pre, post, getter, class) == F("element", pre, post, getter, <<>>, class)
HP(pre, post, par, class) == F("element", pre, post, "GetParameter", <<par>>, class)
HeaderFields == {
  H("Call-ID: ", "", "GetCallId", Word), H("Call-ID: x@", "", "GetCallId", Word), H("From: <sip:a@b>;tag=", "", "GetTag", Token), H("To: <sip:a@b>;x=y;tag=", ";z=w", "GetTag", Token),
  H("Via: SIP/2.0/UDP h;branch=", ";x=y", "GetBranch", Token), H("CSeq: 7 M", "", "GetMethod", Range(UpperSeq) \cup Digits \cup Range(Chars("-.!%*_+`'~"))), H("Supported: ", "", "GetOptionTag", Token), H("Require: ", "", "GetOptionTag", Token), H("Allow: ", "", "GetMethod", Token),
  H("Content-Encoding: ", "", "GetEncoding", Token), H("Allow-Events: ", "", "GetEventType", Token), H("Event: ", ";id=1", "GetEventType", Token), H("Event: presence;id=", "", "GetEventId", Token),
  H("Subscription-State: ", ";expires=5", "GetState", Token), H("Priority: ", "", "GetPriority", Token), H("Content-Disposition: ", ";x=y", "GetDispositionType", Token),
  H("Content-Type: ", "/x;y=z", "GetContentType", Token), H("Content-Type: x/", ";y=z", "GetContentSubType", Token), H("Accept: x/", ";q=0.5", "GetContentSubType", Token),
  HP("Contact: <sip:a@b>;x=", ";y=z", "x", Token), HP("Contact: <sip:a@b>;x=\"", "\";y=z", "x", Quoted), HP("Content-Type: t/u;x=\"", "\"", "x", Quoted), HP("Accept: t/u;x=", ";y=z", "x", Token), HP("Route: <sip:a@b;lr>;x=", "", "x", Token),
  H("Authorization: Digest realm=\"", "\",nonce=\"n\"", "GetRealm", Quoted), H("WWW-Authenticate: Digest realm=\"r\",nonce=\"", "\"", "GetNonce", Quoted), H("Proxy-Authenticate: Digest opaque=\"", "\"", "GetOpaque", Quoted),
  H("Proxy-Authorization: Digest username=\"", "\",uri=\"sip:a@b\"", "GetUsername", Quoted), H("Authentication-Info: nextnonce=\"", "\"", "GetNextNonce", Quoted),
  H("Warning: 301 h \"", "\"", "GetText", Quoted \cup Upper2), H("Retry-After: 5 (", ");x=y", "GetComment", (Quoted \ {"(", ")"}) \cup Upper2), H("Reason: SIP;text=\"", "\"", "GetText", Quoted),
  H("From: \"", "\" <sip:a@b>;tag=1", "GetDisplayName", Quoted \cup Upper2), F("address", "\"", "\" <sip:a@b>", "GetDisplayName", <<>>, Quoted \cup Upper2),
  Ends(H("Subject: ", "", "GetSubject", Text \cup Upper2), Blank), Ends(H("Organization: ", "", "GetOrganization", Text \cup Upper2), Blank), Ends(H("X-Any: ", "", "GetValue", Text \cup Upper2), Blank),
  H("X", ": v", "GetName", Token),
  H("In-Reply-To: ", "@h", "GetCallId", Word \ {"@"}), H("Proxy-Require: ", "", "GetOptionTag", Token), H("Unsupported: ", "", "GetOptionTag", Token), H("Accept-Encoding: ", ";q=0.5", "GetEncoding", Token),
  H("Call-Info: <http://h/", ">;purpose=icon", "String", Alnum \cup Mark \cup Range(Chars("/:@&=+$,;"))), H("Alert-Info: <http://h/a?", ">", "String", Alnum \cup Mark \cup Range(Chars(";/?:@&=+$,")) \cup Escape), H("Error-Info: <sip:", "@h>", "String", User),
  H("Server: ", "/1", "String", Token), H("User-Agent: a/", " b", "String", Token), H("User-Agent: a (", ")", "String", (Quoted \ {"(", ")"}) \cup Upper2 \cup {"\\(", "\\)"}), H("Via: SIP/2.0/UDP h;", "=1", "String", (Token \ Letters) \cup Range(LowerSeq)),
  H("Contact: <sip:a@b>;", "=1", "String", Token), H("Via: SIP/2.0/UDP ", ".h:5;branch=z9hG4bK1", "String", Alnum), H("Via: SIP/2.0/UDP h;received=", ";branch=z9hG4bK1", "GetReceived", Digits),
  H("Reason: ", ";cause=200", "GetProtocol", Token), H("Refer-To: <sip:", "@h>", "String", User), H("Reply-To: \"", "\" <sip:a@b>", "GetDisplayName", Quoted \cup Upper2), H("Record-Route: <sip:h;lr;x=", ">", "String", ParChar),
  H("Authorization: Digest realm=\"r\",", "=1", "String", Token), H("Authorization: X", " realm=\"r\"", "GetScheme", Token), H("Warning: 301 h", " \"w\"", "GetAgent", Alnum \cup Range(Chars("-.")) ) }
  \cup {H(q[1], q[2], "String", {"\\\"", "\\\\", "\\a"}) : q \in {<<"From: \"", "\" <sip:a@b>">>, <<"Contact: <sip:a@b>;x=\"", "\";y=z">>, <<"WWW-Authenticate: Digest realm=\"", "\",nonce=\"n\"">>, <<"Authorization: Digest username=\"", "\"">>,
       <<"Warning: 301 h \"", "\"">>, <<"Content-Type: t/u;x=\"", "\"">>, <<"Reason: SIP;text=\"", "\"">>, <<"User-Agent: (", ")">>, <<"Retry-After: 5 (", ")">>}}
UriFields == {F("uri", "sip:", "@h", "GetUser", <<>>, User), F("uri", "sips:u:", "@h:5;x=y?z=w", "GetUserPassword", <<>>, Pass), F("uri", "sip:u@h;x=", ";y=z?a=b", "GetParameter", <<"x">>, ParChar), F("uri", "sip:h;", "=1", "String", <<>>, ParChar),
  F("uri", "sip:u@h?x=", "&y=z", "GetHeader", <<"x">>, HdrChar), F("uri", "sip:u@h;p?", "=1", "String", <<>>, HdrChar), F("uri", "sip:", ".org:5", "GetHost", <<>>, Letters \cup Digits), F("uri", "sip:u@x.", ".org", "GetHost", <<>>, Letters \cup Digits),
  F("address", "\"", "\" <sip:a@b>", "GetDisplayName", <<>>, Quoted \cup Upper2)}
LineFields == {Ends(F("statusline", "SIP/2.0 200 ", "", "GetReasonPhrase", <<>>, Text \cup Upper2), Blank), F("requestline", "", " sip:u@h SIP/2.0", "GetMethod", <<>>, Token), F("requestline", "INVITE sip:", "@h SIP/2.0", "String", <<>>, User)}
Whole(g, v) == g.pre \o v \o g.post
Rest(g) == IF g.kind = "element" THEN CRLF ELSE IF g.kind \in {"statusline", "requestline"} THEN CRLF ELSE ""
Told(g, v) == CASE g.getter = "String" -> Whole(g, v) \o Rest(g) [] g.pre = "Call-ID: x@" -> "x@" \o v [] g.pre = "sip:" /\ g.getter = "GetHost" -> v \o ".org" [] g.pre = "sip:u@x." -> "x." \o v \o ".org"
               [] g.pre = "X" \/ g.pre = "Authorization: X" -> "X" \o v [] g.pre = "In-Reply-To: " -> v \o "@h" [] g.pre = "Warning: 301 h" -> "h" \o v [] g.pre = "CSeq: 7 M" -> "M" \o v [] OTHER -> v
Scene(g, v) == <<Get(1, g.kind, Whole(g, v) \o (IF g.kind \in {"element", "statusline", "requestline"} THEN "\n" ELSE "")), Ask(1, "String", <<>>, Whole(g, v) \o Rest(g)), Ask(1, g.getter, g.args, Told(g, v))>>
                  \o (IF g.kind = "element" THEN <<Again(1, g.kind), Ask(1, g.getter, g.args, Told(g, v)), Ask(1, "String", <<>>, Whole(g, v) \o Rest(g))>> ELSE <<>>)
(* the same set on one that held something else *)
Settable(g) == What = "header" /\ SubSeq(g.getter, 1, 3) = "Get" /\ g.getter # "GetDisplayName" /\ (g.getter = "GetParameter" => Len(g.post) < 1 \/ SubSeq(g.post, 1, 1) # "\"")
Setting(g, v) == <<Get(1, g.kind, Whole(g, "zz") \o "\n"), S("call", <<1, "S" \o SubSeq(g.getter, 2, Len(g.getter)), g.args \o <<Told(g, v)>>>>, Seen("*")), Ask(1, g.getter, g.args, Told(g, v)), Ask(1, "String", <<>>, Whole(g, v) \o Rest(g)),
                   Again(1, g.kind), Ask(1, g.getter, g.args, Told(g, v))>>
(* names are found in either case, in the table of a message and in a list of parameters *)
NameFields == {F(k, k, "", "", <<>>, Token) : k \in {"request", "response"}} \cup {F("element", h, "", "", <<>>, Token) : h \in {"Contact: <sip:a@b>", "Content-Type: t/u", "From: <sip:a@b>", "Accept: t/u"}}
  \cup {F("uri", "sip:u@h", "", "", <<>>, ParChar \ Escape)}
Begins(k) == IF k = "request" THEN "OPTIONS sip:u@h SIP/2.0" \o CRLF ELSE "SIP/2.0 200 OK" \o CRLF
Named(g, v) ==
  IF g.kind \in {"request", "response"}
  THEN LET n == "X" \o v t == Begins(g.kind) x == n \o ": 1" \o CRLF e == "Content-Length: 0" \o CRLF \o CRLF IN
       <<Get(1, g.kind, t \o x \o e), Ask(1, "String", <<>>, t \o x \o e), Ask(1, "GetHeader", <<Lower(n)>>, x), Ask(1, "HasHeader", <<Upper(n)>>, TRUE), Ask(1, "HasHeader", <<n \o "a">>, FALSE),
         Ask(1, "RemoveHeader", <<Upper(n)>>, "*"), Ask(1, "String", <<>>, t \o e), Ask(1, "HasHeader", <<n>>, FALSE)>>
  ELSE LET e == IF g.kind = "element" THEN CRLF ELSE "" n == v IN
       <<Get(1, g.kind, g.pre \o ";first=2;" \o n \o "=1" \o (IF e = "" THEN "" ELSE "\n")), Ask(1, "GetParameter", <<Lower(n)>>, "1"), Ask(1, "GetParameter", <<Upper(n)>>, "1"), Ask(1, "HasParameter", <<Upper(n) \o "a">>, FALSE),
         Ask(1, "SetParameter", <<Upper(n), "3">>, "*"), Ask(1, "GetParameter", <<n>>, "3"), Ask(1, "RemoveParameter", <<Lower(n)>>, "*"), Ask(1, "HasParameter", <<n>>, FALSE), Ask(1, "String", <<>>, g.pre \o ";first=2" \o e)>>
Fields == CASE What = "header" -> HeaderFields [] What = "uri" -> UriFields [] What = "line" -> LineFields [] What = "table" -> {g \in NameFields : g.kind \in {"request", "response"}} [] What = "params" -> {g \in NameFields : g.kind \notin {"request", "response"}}
Init == f \in Fields /\ c = <<>> /\ done = 0
Next == \/ done = 0 /\ done' = 1 /\ c' \in {<<x>> : x \in f.class} \cup (IF Pairs THEN {<<x, y>> : x, y \in f.class} ELSE {}) /\ f' = f
        \/ done = 1 /\ done' = 2 /\ UNCHANGED <<f, c>> /\ \A v \in IF Len(c) = 1 THEN Placed(c[1], c[1] \notin f.free, Outer(f)) ELSE {Outer(f)[1] \o c[1] \o c[2] \o Outer(f)[2]} :
                                                              (IF What \in {"table", "params"} THEN Emit(Named(f, v)) ELSE Emit(Scene(f, v))) /\ (Settable(f) => Emit(Setting(f, v)))
Spec == Init /\ [][Next]_vars
=============================================================================
