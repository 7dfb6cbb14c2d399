------------------------------ MODULE Required ------------------------------
(* P23.  What a message must hold: the check of its headers says so exactly, after   *)
(* any edits, and changes nothing; the defaults of a request, filled in, change      *)
(* nothing else; a request whose CSeq is for another method is not accepted.         *)
EXTENDS Common
CONSTANTS Kinds, MaxOps, Doing, OneOf(_)
VARIABLES kind, line, rows, hist, ops
vars == <<kind, line, rows, hist, ops>>

Names == {"Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Subject"}
Needed == {"CSeq", "To", "From", "Via"} \cup IF kind = "response" THEN {} ELSE {"Max-Forwards"}
(* rows: <<name, values>> in order, of the CSeq its method; line: <<>> or <<method, URI, parameters>> *)
Vals(n) == CASE n = "To" -> <<"<sip:c@y.org>">> [] n = "From" -> <<"\"A\" <sip:a@x.org>;tag=f">> [] n = "Via" -> <<"SIP/2.0/UDP h1.org", "SIP/2.0/TCP h2.org;branch=z9hG4bK2">>
    [] n = "Call-ID" -> <<"c1@x.org">> [] n = "Max-Forwards" -> <<"70">> [] n = "Subject" -> <<"x y">> [] OTHER -> <<"INVITE">>
Order == <<"Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Subject">>
Uris == {<<"sip:u@h.org", <<>>>>, <<"sip:u@h.org", <<"lr", "x=y">>>>, <<"sip:h.org", <<"transport=tcp">>>>, <<"sips:u@h.org:5061", <<"method=BYE">>>>, <<"tel:911", <<>>>>}
Methods == {"INVITE", "REGISTER", "OPTIONS", "X-1"}
Value(r) == IF r[1] = "CSeq" THEN "7 " \o r[2][1] ELSE Join(r[2], ",")
Row(r) == r[1] \o ": " \o Value(r) \o CRLF
UriText(l) == Join(<<l[2]>> \o l[3], ";")
First(l) == IF kind = "response" THEN "SIP/2.0 200 OK\r\n" ELSE IF l = <<>> THEN "" ELSE (IF l[1] = "" THEN "" ELSE l[1] \o " ") \o (IF l[2] = "" THEN "" ELSE UriText(l) \o " ") \o "SIP/2.0\r\n"
Text(l, t) == First(l) \o Concat(Map(t, Row)) \o "Content-Length: 0\r\n\r\n"
Has(t, n) == \E i \in 1..Len(t) : t[i][1] = n
Get(t, n) == t[CHOOSE i \in 1..Len(t) : t[i][1] = n][2]
Without(t, n) == SelectSeq(t, LAMBDA r : r[1] # n)
WithMethod(t, m) == Map(t, LAMBDA r : IF r[1] = "CSeq" THEN <<"CSeq", <<m>>>> ELSE r)
Show(l, t) == [str |-> Text(l, t), get |-> << <<"GetFirstLine", First(l)>> >>]
Wn(err, objs) == [err |-> err, ret |-> "*", objs |-> objs]
(* an encoded request line that has no method takes that of the CSeq *)
Settled(l, t) == IF l # <<>> /\ l[1] = "" /\ Has(t, "CSeq") THEN [l EXCEPT ![1] = Get(t, "CSeq")[1]] ELSE l

(* ---- what a message must hold *)
Agree(l, t) == IF kind = "response" \/ l = <<>> \/ ~Has(t, "CSeq") THEN TRUE ELSE l[1] = "" \/ EqFold(l[1], Get(t, "CSeq")[1])
Whole(l, t) == (\A n \in Needed : Has(t, n)) /\ Agree(l, t)
Checked(l, t) == S("call", <<1, "CheckHeaders", <<>>>>, Wn(~Whole(l, t), <<Show(l, t)>>))

Looking == S("look", <<1, <<"String", "GetFirstLine">>>>, Wn(FALSE, <<Show(line, rows)>>))
Given == {SelectSeq(Order, LAMBDA n : n \notin gone) : gone \in OneOf(SUBSET Names)}
Init == /\ kind \in Kinds /\ ops = 0
        /\ \E given \in Given : rows = IF kind = "bare" THEN <<>> ELSE Map(given, LAMBDA n : <<n, Vals(n)>>)
        /\ line = IF kind = "request" THEN <<"INVITE", "sip:u@h.org", <<>>>> ELSE <<>>
        /\ hist = (IF kind = "bare" THEN <<S("new", <<1, "request">>, Wn(FALSE, <<>>))>> ELSE <<S("parse", <<1, "message", Text(line, rows)>>, Wn(FALSE, <<>>))>>)
                  \o <<Looking, Checked(line, rows)>>
Do(l, t, op, a) == /\ ops < MaxOps /\ ops' = ops + 1 /\ rows' = t /\ line' = Settled(l, t) /\ UNCHANGED kind
                   /\ hist' = hist \o <<S(op, a, Wn(FALSE, <<Show(Settled(l, t), t)>>)), Checked(Settled(l, t), t)>>
Call(l, t, m, a) == Do(l, t, "call", <<1, m, a>>)
Put(t, n, v) == Append(Without(t, n), <<n, v>>)
Parts(l) == IF l = <<>> THEN <<"", "", <<>>>> ELSE l
Removing == \E n \in OneOf(Names) : Call(line, Without(rows, n), "RemoveHeader", <<n>>)
Setting ==
  \/ \E n \in OneOf(Names \ {"CSeq"}) : Call(line, Put(rows, n, Vals(n)), "SetHeader", <<[header |-> n \o ": " \o Value(<<n, Vals(n)>>)]>>)
  \/ \E m \in OneOf({"INVITE", "REGISTER", "ACK", "INVITEX", "INVIT", "XINVITE", "B"} \cup (IF kind = "request" THEN {"invite"} ELSE {})), o \in OneOf({"SetHeader", "SetCSeq"}) : Call(line, Put(rows, "CSeq", <<Upper(m)>>), o, <<[header |-> "CSeq: 7 " \o m]>>)
  (* the only way to have it twice is not to have it *)
  \/ \E n \in OneOf(Names \ {"CSeq", "Via"}) : Call(line, IF Has(rows, n) THEN rows ELSE Append(rows, <<n, Vals(n)>>), "AttachHeader2", <<[header |-> n \o ": " \o Value(<<n, Vals(n)>>)], FALSE>>)
Asking == kind # "response" /\
  \/ \E m \in OneOf(Methods) : Call([Parts(line) EXCEPT ![1] = m], WithMethod(rows, m), "SetMethod", <<m>>)
  \/ \E u \in OneOf(Uris) : Call([Parts(line) EXCEPT ![2] = u[1], ![3] = u[2]], rows, "SetRequestURI", <<[uri |-> Join(<<u[1]>> \o u[2], ";")]>>)
  \/ Call(<<"BYE", "sip:n@n.org", <<>>>>, rows, "SetRequestLine", <<[requestline |-> "BYE sip:n@n.org SIP/2.0"]>>)
(* ---- defaults, of a URI that has neither parameter *)
Plain(l) == l[3] \in {<<>>, <<"lr", "x=y">>, <<"method=BYE">>}
Default(l) == IF l # <<>> /\ l[1] \in {"INVITE", "REGISTER"} /\ l[2] # "" /\ l[2] # "tel:911" THEN [l EXCEPT ![3] = @ \o <<"user=ip", "transport=udp">>] ELSE l
Defaulting == kind # "response" /\
  \/ (Default(line) # line => Plain(line)) /\ Call(Default(line), rows, "SetDefaults", <<>>)
  \/ line # <<>> /\ Call(line, rows, "SetRequestLineDefaults", <<>>)
(* ---- sent and received: only with a CSeq of its method *)
Complete == kind = "response" \/ (line # <<>> /\ line[1] # "" /\ line[2] # "")
Sending == Complete /\ \E k \in OneOf({"message", "messagebytes"}) :
  IF Agree(line, rows) THEN Do(line, rows, "reparse", <<1, k>>)
  ELSE /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<kind, line, rows>>
       /\ hist' = Append(hist, S("outcome", <<k, Text(line, rows)>>, [ret |-> "error"]))
Next == \/ "remove" \in Doing /\ Removing
        \/ "set" \in Doing /\ Setting
        \/ "line" \in Doing /\ Asking
        \/ "defaults" \in Doing /\ Defaulting
        \/ "send" \in Doing /\ Sending
Spec == Init /\ [][Next]_vars
View == <<kind, line, {<<rows[i][1], IF rows[i][1] = "CSeq" THEN rows[i][2] ELSE <<>>>> : i \in 1..Len(rows)}, ops>>
OnceEach == \A i, j \in 1..Len(rows) : rows[i][1] = rows[j][1] => i = j
Every(s) == s
AnyOne(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
