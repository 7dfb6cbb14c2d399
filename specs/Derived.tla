------------------------------ MODULE Derived ------------------------------
(* P06.  Messages made from another message: what they carry, that making them      *)
(* leaves the original as it was, and that each keeps its own start line, CSeq,      *)
(* content (and, where it is given new ones, its own From, To and Via) afterwards.   *)
EXTENDS StatusCodes
CONSTANTS Sorts, Starts, MaxOps
VARIABLES orig, made, sort, hist, ops
vars == <<orig, made, sort, hist, ops>>

(* ---- rows: <<name, values>>; of From and To <<address, tag>>, of CSeq <<number, method>> *)
Optional == <<
  <<"Route", <<"<sip:r1.org;lr>", "<sip:r2.org>">>>>, <<"Record-Route", <<"<sip:q1.org;lr>", "<sip:q2.org;lr>">>>>, <<"Contact", <<"<sip:m@h.org>">>>>,
  <<"Timestamp", <<"54">>>>, <<"Require", <<"100rel">>>>, <<"Proxy-Require", <<"p1">>>>, <<"Proxy-Authorization", <<"Digest realm=\"a\"">>>>,
  <<"Authorization", <<"Digest realm=\"b\"">>>>, <<"Subject", <<"x y">>>>, <<"Expires", <<"60">>>>, <<"Supported", <<"s1", "s2">>>>, <<"X-Ext", <<"e1">>>>,
  <<"Server", <<"sv/1">>>>, <<"Warning", <<"307 isi.edu \"a\"">>>>, <<"WWW-Authenticate", <<"Digest realm=\"c\"">>>>, <<"Proxy-Authenticate", <<"Digest realm=\"d\"">>>>,
  <<"Unsupported", <<"u1">>>>, <<"Retry-After", <<"5">>>>, <<"Error-Info", <<"<sip:e1@h.org>">>>>, <<"Date", <<"Sat, 13 Nov 2010 23:29:00 GMT">>>>,
  <<"Content-Type", <<"application/sdp">>>>, <<"Allow", <<"INVITE", "ACK">>>>, <<"Priority", <<"urgent">>>>, <<"In-Reply-To", <<"c9@h">>>>, <<"Alert-Info", <<"<http://a.org/1>">>>>,
  <<"Reason", <<"SIP;cause=200">>>>, <<"Event", <<"presence;id=1">>>>, <<"Subscription-State", <<"active;expires=5">>>>, <<"Min-Expires", <<"9">>>>, <<"Organization", <<"o p">>>>,
  <<"User-Agent", <<"ua/2">>>>, <<"Accept", <<"text/plain", "a/b;q=0.5">>>>, <<"Accept-Encoding", <<"gzip">>>>, <<"Accept-Language", <<"da", "en">>>>, <<"Reply-To", <<"<sip:r@h.org>">>>>, <<"Call-Info", <<"<http://i.org>;purpose=icon">>>>,
  <<"RSeq", <<"3">>>>, <<"RAck", <<"3 7 INVITE">>>>, <<"Refer-To", <<"<sip:rt@h.org>">>>>, <<"MIME-Version", <<"1.0">>>>, <<"Allow-Events", <<"presence", "x">>>>, <<"Content-Disposition", <<"session">>>>,
  <<"Content-Encoding", <<"gzip">>>>, <<"Content-Language", <<"fr">>>>, <<"Authentication-Info", <<"nextnonce=\"n\"">>>>, <<"Y-Other", <<"1", "2">>>> >>
Via1 == "SIP/2.0/UDP h1.org:5070;branch=z9hG4bK1"
Via2 == "SIP/2.0/TCP h2.org;branch=z9hG4bK2"
Via3 == "SIP/2.0/TLS [::1]:5061;received=1.2.3.4;branch=b3;rport=9"
Via4 == "SIP/2.0/UDP h4"
Must(meth, vias, ttag) == << <<"Via", vias>>, <<"From", <<"\"A\" <sip:a@x.org>", "f1">>>>, <<"To", <<"<sip:c@y.org:5080>", ttag>>>>, <<"Call-ID", <<"c1@x.org">>>>,
                             <<"CSeq", <<7, meth>>>>, <<"Max-Forwards", <<"70">>>> >>
Request(meth, vias, ttag, extra, back, body) ==
  LET r == Must(meth, vias, ttag) \o Map(extra, LAMBDA i : Optional[i])
      s == SelectSeq(r, LAMBDA x : x[1] # "Via" \/ x[2] # <<>>)
  IN [line |-> <<meth, "sip:u@h.org;transport=tcp", "SIP/2.0">>, rows |-> IF back THEN Rev(s) ELSE s, body |-> body]
Response(code, meth, vias, ttag, extra, back, body) == [Request(meth, vias, ttag, extra, back, body) EXCEPT !.line = <<code, Phrase(code)>>]
All == [i \in 1..Len(Optional) |-> i]
(* no optional header, each alone, and all *)
Bundles == {<<>>, All} \cup {<<i>> : i \in 1..Len(Optional)}
RequestStarts(x) == {Request("INVITE", <<Via1, Via2>>, "", b, back, "v=0\r\n") : b \in x, back \in BOOLEAN}
  \cup {Request(m, v, "t2", b, back, "{00}{c3}{a9}") : m \in {"INVITE", "PRACK", "X-1"}, v \in {<<Via3, Via4, Via1>>, <<Via4, Via3>>}, b \in x \cap {<<>>, All}, back \in BOOLEAN}
  \cup {Request(m, v, t, b, FALSE, "") : m \in {"OPTIONS"}, v \in {<<>>, <<Via1>>}, t \in {"", "t1"}, b \in x \cap {<<>>, All}}
ResponseStarts(x) == {Response(200, "INVITE", <<Via1, Via2>>, "t1", b, back, "v=0\r\n") : b \in x, back \in BOOLEAN}
  \cup {Response(c, m, v, "t2", b, back, "{00}{c3}{a9}") : c \in {200, 401, 699}, m \in {"REGISTER", "X-1"}, v \in {<<Via3, Via4, Via1>>, <<Via4, Via3>>}, b \in x \cap {<<>>, All}, back \in BOOLEAN}
  \cup {Response(c, "INVITE", v, "", b, FALSE, "") : c \in {180, 487}, v \in {<<>>, <<"SIP/2.0/UDP h1.org">>}, b \in x \cap {<<>>, All}}

(* ---- encoding *)
Asks(m) == Len(m.line) = 3
Tagged(v) == v[1] \o (IF v[2] = "" THEN "" ELSE ";tag=" \o v[2])
Row(r) == LET n == r[1] IN
  IF n \in {"From", "To"} THEN <<n \o ": " \o Tagged(r[2])>>
  ELSE IF n = "CSeq" THEN <<"CSeq: " \o ToString(r[2][1]) \o " " \o r[2][2]>>
  ELSE IF n \in {"X-Ext", "Y-Other", "WWW-Authenticate", "Proxy-Authenticate"} THEN Map(r[2], LAMBDA v : n \o ": " \o v)
  ELSE <<n \o ": " \o Join(r[2], ",")>>
Start(m) == (IF Asks(m) THEN m.line[1] \o " " \o m.line[2] \o " " \o m.line[3] ELSE "SIP/2.0 " \o ToString(m.line[1]) \o " " \o m.line[2]) \o CRLF
Text(m) == Start(m) \o Concat(Map(Flat(Map(m.rows, Row)), LAMBDA l : l \o CRLF)) \o "Content-Length: " \o ToString(IF m.body = "{00}{c3}{a9}" THEN 3 ELSE Len(m.body)) \o "\r\n\r\n" \o m.body
Show(m) == [str |-> Text(m), get |-> << <<"EncodeAsBytes", Text(m)>>, <<"GetFirstLine", Start(m)>>, <<"GetContent", m.body>>,
   <<"GetHeaderNames", Map(m.rows, LAMBDA r : r[1]) \o <<"Content-Length">>>> >>]
Getters == <<"String", "EncodeAsBytes", "GetFirstLine", "GetContent", "GetHeaderNames">>
Wn(objs) == [err |-> FALSE, ret |-> "*", objs |-> objs]
Shown == IF made = <<>> THEN <<Show(orig)>> ELSE <<Show(orig), Show(made[1])>>

Has(m, n) == \E i \in 1..Len(m.rows) : m.rows[i][1] = n
At(m, n) == CHOOSE i \in 1..Len(m.rows) : m.rows[i][1] = n
Val(m, n) == m.rows[At(m, n)][2]
Keep(m, S1) == SelectSeq(m.rows, LAMBDA r : r[1] \in S1)
Drop1(m, S1) == SelectSeq(m.rows, LAMBDA r : r[1] \notin S1)
WithCseq(rows, meth) == Map(rows, LAMBDA r : IF r[1] = "CSeq" THEN <<"CSeq", <<r[2][1], meth>>>> ELSE r)

(* ---- what each way of making a message prescribes *)
Answer(o, code, phrase) == [line |-> <<code, IF phrase = "" THEN Phrase(code) ELSE phrase>>, body |-> "",
   rows |-> Keep(o, {"From", "To", "Via", "Call-ID", "Record-Route", "CSeq", "Max-Forwards", "Timestamp"})]
Cancel(o) == [line |-> [o.line EXCEPT ![1] = "CANCEL"], body |-> "",
   rows |-> WithCseq(Drop1(o, {"Require", "Proxy-Require", "Content-Type"}), "CANCEL")]
Ack(o, to) == [line |-> [o.line EXCEPT ![1] = "ACK"], body |-> "",
   rows |-> Map(WithCseq(Drop1(o, {"Route", "Proxy-Authorization", "Content-Type"}), "ACK"),
              LAMBDA r : IF r[1] = "Via" THEN <<"Via", <<r[2][1]>>>> ELSE IF r[1] = "To" /\ to # <<>> THEN <<"To", to>> ELSE r)]
Bare(via) == CASE via = Via1 -> "SIP/2.0/UDP h1.org:5070" [] via = Via3 -> "SIP/2.0/TLS [::1]:5061;received=1.2.3.4;rport=9" [] OTHER -> via
Branch(via) == CASE via = Via1 -> ";branch=z9hG4bK1" [] via = Via3 -> ";branch=b3" [] OTHER -> ""
Fresh(o, line, switch) == [line |-> line, body |-> "",
   rows |-> Map(WithCseq(Keep(o, {"Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards"}), line[1]),
              LAMBDA r : CASE r[1] = "Via" -> <<"Via", <<Bare(r[2][1])>>>>
                           [] r[1] = "From" -> <<IF switch THEN "To" ELSE "From", <<r[2][1], "">>>>
                           [] r[1] = "To" -> <<IF switch THEN "From" ELSE "To", <<r[2][1], "">>>>
                           [] OTHER -> r)]
Answers == {"Server", "Warning", "WWW-Authenticate", "Proxy-Authenticate", "Unsupported", "Retry-After", "Error-Info"}
GivenVia == "SIP/2.0/TLS me.org:5061"
FromAnswer(o, uri, seq, meth) ==
  LET branch == IF meth \in {"ACK", "CANCEL"} /\ Has(o, "Via") THEN Branch(Val(o, "Via")[1]) ELSE ""
  IN [line |-> <<meth, uri, "SIP/2.0">>, body |-> "",
      rows |-> << <<"Via", <<GivenVia \o branch>>>>, <<"CSeq", <<seq, meth>>>> >> \o Drop1(o, Answers \cup {"Via", "CSeq", "Content-Type", "Record-Route"})]

(* ---- behaviours *)
Init == /\ orig \in Starts /\ made = <<>> /\ sort = "none" /\ ops = 0
        /\ hist = <<S("parse", <<1, IF Asks(orig) THEN "request" ELSE "response", Text(orig)>>, Wn(<<>>)), S("look", <<1, Getters>>, Wn(<<Show(orig)>>))>>
Make(s, m, method, args) ==
  /\ made = <<>> /\ s \in Sorts /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED orig /\ made' = <<m>> /\ sort' = s
  /\ hist' = hist \o <<S("make", <<2, 1, method, args>>, Wn(<<Show(orig)>>)), S("look", <<2, Getters>>, Wn(<<Show(orig), Show(m)>>))>>
Making ==
  \/ Asks(orig) /\
     \/ \E c \in {100, 200, 421, 488, 699} : Make("response", Answer(orig, c, ""), "CreateResponse", <<c>>)
     \/ \E c \in {180, 604}, p \in {"", "Nice"} : Make("response", Answer(orig, c, p), "CreateResponse2", <<c, p>>)
     \/ Make("cancel", Cancel(orig), "CreateCancelRequest", <<>>)
     \/ Make("ack", Ack(orig, <<>>), "CreateAckRequest", <<[nil |-> TRUE]>>)
     \/ Make("ack", Ack(orig, <<"\"Z\" <sip:z@z.org>", "z9">>), "CreateAckRequest", <<[header |-> "To: \"Z\" <sip:z@z.org>;tag=z9"]>>)
     \/ \E sw \in BOOLEAN : Make("fresh", Fresh(orig, <<"BYE", orig.line[2], "SIP/2.0">>, sw), "CreateBYERequest", <<sw>>)
     \/ Make("fresh", Fresh(orig, <<"ACK", orig.line[2], "SIP/2.0">>, FALSE), "CreateACKRequest", <<>>)
     \/ \E sw \in BOOLEAN : Make("fresh", Fresh(orig, <<"INFO", "sip:w@w.org", "SIP/2.0">>, sw), "CreateSIPRequest", <<[requestline |-> "INFO sip:w@w.org SIP/2.0"], sw>>)
  \/ ~Asks(orig) /\ \E m \in {"ACK", "CANCEL", "BYE", "PRACK"} :
       Make("request", FromAnswer(orig, "sip:n@n.org:5070", 8, m), "CreateRequest",
            <<[uri |-> "sip:n@n.org:5070"], [element |-> "Via: " \o GivenVia], [header |-> "CSeq: 8 " \o m]>>)

(* ---- afterwards: changes of one of them, in what it does not share *)
After(id, m, steps) ==
  /\ made # <<>> /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED sort
  /\ IF id = 1 THEN orig' = m /\ UNCHANGED made ELSE made' = <<m>> /\ UNCHANGED orig
  /\ hist' = hist \o [i \in 1..Len(steps) |-> IF i < Len(steps) THEN steps[i] ELSE [steps[i] EXCEPT !.w = Wn(<<Show(orig'), Show(made'[1])>>)]]
Call(id, m, a) == <<S("call", <<id, m, a>>, 0)>>
On(id, path, m, a) == <<S("follow", <<20, id, path>>, [err |-> FALSE]), S("call", <<20, m, a>>, 0)>>
Edit(id) == LET m == IF id = 1 THEN orig ELSE made[1]
                tags == sort = "fresh"                                  \* From, To and Via are its own
                cseqs == sort # "response"                              \* so is the CSeq
            IN made # <<>> /\
   \/ Asks(m) /\ cseqs /\ \E x \in {"UPDATE"} : After(id, [m EXCEPT !.line[1] = x, !.rows = WithCseq(@, x)], Call(id, "SetMethod", <<x>>))
   \/ Asks(m) /\ After(id, [m EXCEPT !.line[2] = "sip:nn@nn.org"], Call(id, "SetRequestURI", <<[uri |-> "sip:nn@nn.org"]>>))
   \/ Asks(m) /\ m.line[2] = "sip:u@h.org;transport=tcp" /\ After(id, [m EXCEPT !.line[2] = "sip:u@h.org;transport=udp"], On(id, "GetRequestURI", "SetTransportParam", <<"udp">>))
   \/ ~Asks(m) /\ After(id, [m EXCEPT !.line[1] = 503], Call(id, "SetStatusCode", <<503>>))
   \/ ~Asks(m) /\ After(id, [m EXCEPT !.line[2] = "Other"], Call(id, "SetReasonPhrase", <<"Other">>))
   \/ After(id, [m EXCEPT !.body = "hello"], Call(id, "SetMessageContent", <<"hello">>))
   \/ After(id, [m EXCEPT !.body = ""], Call(id, "RemoveContent", <<>>))
   \/ \E n \in {"Via", "Call-ID", "From", "Record-Route"} : Has(m, n) /\ After(id, [m EXCEPT !.rows = Drop1(m, {n})], Call(id, "RemoveHeader", <<n>>))
   \/ After(id, [m EXCEPT !.rows = Append(Drop1(m, {"To"}), <<"To", <<"<sip:new@n.org>", "n1">>>>)], Call(id, "SetHeader", <<[header |-> "To: <sip:new@n.org>;tag=n1"]>>))
   \/ After(id, [m EXCEPT !.rows = Append(Drop1(m, {"CSeq"}), <<"CSeq", <<99, "INFO">>>>)], Call(id, "SetCSeq", <<[header |-> "CSeq: 99 INFO"]>>))
   \/ cseqs /\ Has(m, "CSeq") /\ After(id, [m EXCEPT !.rows[At(m, "CSeq")][2][1] = 42], On(id, "GetCSeq", "SetSequenceNumber", <<42>>))
   \/ tags /\ \E n \in {"From", "To"} : Has(m, n) /\ After(id, [m EXCEPT !.rows[At(m, n)][2][2] = "other"], Call(id, "Set" \o n \o "Tag", <<"other">>))
   \/ tags /\ Has(m, "From") /\ Val(m, "From")[1] = "\"A\" <sip:a@x.org>"
      /\ After(id, [m EXCEPT !.rows[At(m, "From")][2][1] = "\"A\" <sip:a@changed.org>"], On(id, "GetFrom.GetAddress.GetURI", "SetHostString", <<"changed.org">>))
   \/ tags /\ Has(m, "Via") /\ Val(m, "Via")[1] = "SIP/2.0/UDP h1.org:5070"
      /\ After(id, [m EXCEPT !.rows[At(m, "Via")][2][1] = "SIP/2.0/UDP h1.org:5099"], On(id, "GetTopmostVia", "SetPort", <<5099>>))
   \/ tags /\ Has(m, "Via") /\ Val(m, "Via")[1] = Via1
      /\ After(id, [m EXCEPT !.rows[At(m, "Via")][2][1] = "SIP/2.0/UDP h1.org:5099;branch=z9hG4bK1"], On(id, "GetTopmostVia", "SetPort", <<5099>>))

Next == Making \/ Edit(1) \/ Edit(2)
Spec == Init /\ [][Next]_vars
View == <<orig, made, sort, ops>>
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
(* in simulation a few headers drawn at random *)
AskStarts == RequestStarts(Bundles)
AnswerStarts == ResponseStarts(Bundles)
Draw == {LET n == RandomElement(0..6) IN [i \in 1..n |-> RandomElement(1..Len(Optional))] : k \in 1..40}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RandomStarts == RequestStarts({d \in Draw : Distinct(d)}) \cup ResponseStarts({d \in Draw : Distinct(d)})
=============================================================================
