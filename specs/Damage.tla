------------------------------- MODULE Damage -------------------------------
(* P05.  A well-formed text - a header, a message, an address, a URL, a host and    *)
(* port, a start line - under any sequence of damages: whatever becomes of it, its  *)
(* parsing answers.                                                                *)
EXTENDS WireTable
CONSTANTS Which, Edits, MaxOps, OneOf(_)
VARIABLES what, text, ops
vars == <<what, text, ops>>

HeaderText(k, i) == Wire[k].n \o ": " \o Concat(Wire[k].vals[i].w)
HeaderSet(kinds) == UNION {{<<kind, HeaderText(k, i) \o "\n">> : i \in 1..Wire[k].few} : <<kind, k>> \in kinds \X (1..Len(Wire))}
(* with the rarer values, but for the long ones *)
RichSet(kinds) == {w \in UNION {{<<kind, HeaderText(k, i) \o "\n">> : i \in 1..Len(Wire[k].vals)} : <<kind, k>> \in kinds \X (1..Len(Wire))} : Len(w[2]) < 120}
Urls == {"sip:bob:pw@[2001:db8::1]:5070;transport=tcp;lr?a=b&c=d", "sips:h.org", "sip:u@10.0.0.1;x=%20y", "sip:+1-2;p=q@h.org;user=phone", "tel:+1-201-555;phone-context=x.y;isub=1",
         "tel:*12#;phone-context=+1", "http://x.y/z?a"}
UrlSet(kinds) == kinds \X Urls
AddressSet(kinds) == kinds \X {"\"A \\\"B\\\", <C>\" <sip:u@h.org:5060;lr>;tag=1", "sip:u@h.org", "Bob Q <sips:h.org>", "<tel:+1-2>", "*"}
HostSet == {"hostport", "hostport2", "host"} \X {"h.example.org:5060", "192.0.2.1:1", "[2001:db8::9:1]:65535", "h", "[::1]"}
LineSet == ({"requestline", "siprequestline"} \X {"INVITE sip:u:p@h.org:5060;lr SIP/2.0\n", "X-1 tel:+12 SIP/2.0\n"})
   \cup ({"statusline", "sipstatusline"} \X {"SIP/2.0 200 OK\n", "SIP/2.0 699 A b\n"})
TelSet == {"telephone"} \X {"+1-201-555;phone-context=x.y;isub=1;postd=1p2w", "12*#;a=b"}
MessageText(first, last) == first \o "\r\nv: SIP/2.0/UDP h1;branch=z9hG4bK1,SIP/2.0/TCP [::1]:2\r\nf:<sip:a@x>;tag=1\r\nTo: \"B\"\r\n <sip:b@y>\r\nCSeq: 1 INVITE\r\ni: c@x\r\nl: 5\r\n\r\nhello" \o last
MessageSet == {"message", "messagebytes"} \X {MessageText("INVITE sip:u@h SIP/2.0", ""), MessageText("SIP/2.0 200 OK", "x"), "\r\nBYE sip:h SIP/2.0\n\n"}
Texts == CASE Which = "header" -> HeaderSet({"header"})
           [] Which = "sipheader" -> RichSet({"sipheader"})
           [] Which = "url" -> UrlSet({"uri", "sipurl", "url"}) \cup AddressSet({"address", "sipaddress"}) \cup HostSet \cup LineSet \cup TelSet
           [] Which = "message" -> MessageSet
           [] OTHER -> RichSet({"header", "sipheader"}) \cup UrlSet({"uri", "url", "sipurl"}) \cup AddressSet({"address"}) \cup HostSet \cup LineSet \cup TelSet \cup MessageSet

(* ---- what is put into a text *)
Evil == <<"\"", "<", ">", ";", ",", ":", "=", "@", "[", "]", "(", ")", "\\", "%", "/", "?", " ", "\t", "\r", "\n", "{00}", "{ff}", "{c3}{a9}", "-", "*", "0", "9999999999999999999999", "a">>
(* at most one of each meaning *)
Few == {1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 17, 20, 21, 27}
Init == what \in OneOf(Texts) /\ text = Chars(what[2]) /\ ops = 0
Become(t) == ops < MaxOps /\ ops' = ops + 1 /\ text' = t /\ UNCHANGED what
Cutting == \E n \in OneOf(0..Len(text)) : Become(SubSeq(text, 1, n))
Beheading == \E n \in OneOf(1..Len(text)) : Become(SubSeq(text, n + 1, Len(text)))
Deleting == \E i \in OneOf(1..Len(text)) : Become(RemoveAt(text, i))
Putting == \E i \in OneOf(0..Len(text)), c \in OneOf(1..Len(Evil)) : Become(SubSeq(text, 1, i) \o <<Evil[c]>> \o SubSeq(text, i + 1, Len(text)))
Replacing == \E i \in OneOf(1..Len(text)), c \in OneOf(Few) : Become([text EXCEPT ![i] = Evil[c]])
(* a part of it twice, or left out *)
Repeating == \E i \in OneOf(1..Len(text)), n \in OneOf(2..9) : i + n <= Len(text) /\ Become(SubSeq(text, 1, i + n) \o SubSeq(text, i, Len(text)))
Losing == \E i \in OneOf(0..Len(text)), n \in OneOf(2..9) : i + n <= Len(text) /\ Become(SubSeq(text, 1, i) \o SubSeq(text, i + n + 1, Len(text)))
(* a number out of proportion *)
Extreme == {"0", "-1", "00000000000000000000001", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "1e9", "65536"}
Digit(i) == i \in 1..Len(text) /\ text[i] \in Range(Chars("0123456789"))
RunEnd(i) == CHOOSE j \in i..Len(text) : (\A k \in i..j : Digit(k)) /\ ~Digit(j + 1)
Numbering == \E i \in OneOf({x \in 1..Len(text) : Digit(x) /\ ~Digit(x - 1)}), n \in OneOf(Extreme) : Become(SubSeq(text, 1, i - 1) \o <<n>> \o SubSeq(text, RunEnd(i) + 1, Len(text)))
Next == \/ "number" \in Edits /\ Numbering
        \/ "cut" \in Edits /\ (Cutting \/ Beheading \/ Deleting)
        \/ "put" \in Edits /\ Putting
        \/ "replace" \in Edits /\ Replacing
        \/ "part" \in Edits /\ (Repeating \/ Losing)
Spec == Init /\ [][Next]_vars
Every(s) == s
AnyOne(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
EmitStep == Emit(<<S("try", <<what[1], Concat(text')>>, [ret |-> "answered"])>>)
=============================================================================
