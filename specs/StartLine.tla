----------------------------- MODULE StartLine -----------------------------
(* P09.  The start line of a message by itself and in a request or response: its   *)
(* parts under setters, encoding and parsing; status codes, finality and phrases;   *)
(* the method of the CSeq following that of the request.                            *)
EXTENDS StatusCodes
CONSTANTS Kinds, MaxOps, Doing, Rich
VARIABLES kind, line, cseq, hist, ops
vars == <<kind, line, cseq, hist, ops>>

(* line: <<>> when there is none, else <<method or code, URI or phrase, version>>; no URI is "" *)
Methods == <<"INVITE", "ACK", "PRACK", "X-1.a">> \o IF Rich THEN <<"A", "1", "invite", "SIP", "SIPX", "M-.!%*_+'~", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyz">> ELSE <<>>
Uris == <<"sip:u@h.org", "sips:a.b@[2001:db8::1]:5061;transport=tcp;lr", "sip:h.org:5070", "sip:+1-2:pw@h.org;x=%20y">>
  \o IF Rich THEN <<"sip:h", "tel:+1-201-555", "tel:911;phone-context=+1", "sip:u@10.1.2.3:5060;ttl=1;maddr=239.1.1.1", "sip:u@h.org;method=BYE", "sip:u@h.org?Subject=a&X-y=b%20c", "sip:u;a=b/?@h.org", "urn:service:sos", "http://a.org/x?y=z",
     "sip:-_.!~*'()&=+$,;?/@h.org:1", "sip:+1;ext=2@h.org;user=phone", "sip:u@h.org;p=[::1]">> ELSE <<>>
Versions == <<"SIP/2.0", "SIP/3.11">>
CodesSet == <<100, 183, 199, 200, 299, 404, 699, 700>> \o IF Rich THEN <<101, 180, 202, 300, 302, 399, 400, 401, 486, 499, 500, 513, 599, 600, 606>> ELSE <<>>
Phrases == (IF Rich THEN <<"x", "200", "a:b", "(c) \"q\"", "100% \\ {00}", "A\tB", "Content-Length: 3", "sip:u@h.org SIP/2.0", "-", "{ff}", "Long reason phrase of many words, even of more words, with 123 figures and a full stop at its end.">> ELSE <<>>) \o <<"OK", "Not found", "a  b; c: d", "{c3}{a9}t{c3}{a9}", "SIP/2.0 200 OK">>
Asks == kind \in {"requestline", "request"}
InMessage == kind \in {"request", "response"}
NoUri == "<none>"
Fresh == IF Asks THEN <<"", "", "SIP/2.0">> ELSE <<0, "", "SIP/2.0">>

(* a request line that has no method takes that of the CSeq when the request is encoded *)
Settled(l, c) == IF kind = "request" /\ l # <<>> /\ c # <<>> /\ l[1] = "" THEN [l EXCEPT ![1] = c[2]] ELSE l
Text(l) == IF l = <<>> THEN ""
  ELSE IF Asks THEN (IF l[1] = "" THEN "" ELSE l[1] \o " ") \o (IF l[2] = "" THEN "" ELSE l[2] \o " ") \o l[3] \o CRLF
  ELSE l[3] \o " " \o ToString(l[1]) \o " " \o l[2] \o CRLF
CseqLine(c) == "CSeq: " \o ToString(c[1]) \o " " \o Upper(c[2]) \o CRLF
Rest(c) == (IF c = <<>> THEN "" ELSE CseqLine(c)) \o "Content-Length: 0\r\n\r\n"
Whole(l, c) == IF InMessage THEN Text(l) \o Rest(c) ELSE Text(l)
At(l, i, none) == IF l = <<>> THEN none ELSE l[i]
Views(l, c) ==
  CASE kind = "requestline" -> << <<"GetMethod", l[1]>>, <<"GetUri", IF l[2] = "" THEN NoUri ELSE l[2]>>, <<"GetSipVersion", l[3]>>,
          <<"GetVersionMajor", IF l[3] = "SIP/2.0" THEN "2" ELSE "3">>, <<"GetVersionMinor", IF l[3] = "SIP/2.0" THEN "0" ELSE "11">> >>
    [] kind = "statusline" -> << <<"GetStatusCode", l[1]>>, <<"GetReasonPhrase", l[2]>>, <<"GetSipVersion", l[3]>>,
          <<"GetVersionMajor", IF l[3] = "SIP/2.0" THEN "2" ELSE "3">>, <<"GetVersionMinor", IF l[3] = "SIP/2.0" THEN "0" ELSE "11">> >>
    [] kind = "request" -> << <<"GetMethod", At(l, 1, "")>>, <<"GetRequestURI", IF At(l, 2, "") = "" THEN NoUri ELSE l[2]>>, <<"GetSIPVersion", At(l, 3, "")>>,
          <<"GetFirstLine", Text(l)>>, <<"EncodeAsBytes", Whole(l, c)>>, <<"GetCSeq", IF c = <<>> THEN NoUri ELSE CseqLine(c)>>,
          <<"GetCSeqNumber", IF c = <<>> THEN -1 ELSE c[1]>> >>
    [] kind = "response" -> << <<"GetStatusCode", At(l, 1, 0)>>, <<"GetReasonPhrase", At(l, 2, "")>>, <<"GetSIPVersion", At(l, 3, "")>>,
          <<"IsFinalResponse", Final(At(l, 1, 0))>>, <<"GetFirstLine", Text(l)>>, <<"EncodeAsBytes", Whole(l, c)>>,
          <<"GetCSeq", IF c = <<>> THEN NoUri ELSE CseqLine(c)>> >>
    [] OTHER -> <<>>
Show(l, c) == [str |-> Whole(l, c), get |-> Views(l, c)]
Wn(err, ret, objs) == [err |-> err, ret |-> ret, objs |-> objs]
Here(l, c) == IF kind = "codes" THEN <<>> ELSE <<Show(l, c)>>

Beginning(k) == IF k \in {"requestline", "statusline"} THEN Fresh ELSE <<>>
Init == /\ kind \in Kinds /\ line = Beginning(kind) /\ cseq = <<>> /\ ops = 0
        /\ hist = <<S("new", <<1, IF kind = "codes" THEN "response" ELSE kind>>, Wn(FALSE, "*", <<>>))>>
             \o (IF kind = "codes" THEN <<>> ELSE <<S("look", <<1, <<"String">> \o Map(Views(line, cseq), LAMBDA p : p[1])>>, Wn(FALSE, "*", Here(line, cseq)))>>)
Do(l, c, op, a, ret) == /\ ops < MaxOps /\ ops' = ops + 1 /\ line' = Settled(l, c) /\ cseq' = c /\ UNCHANGED kind
                        /\ hist' = Append(hist, S(op, a, Wn(FALSE, ret, Here(Settled(l, c), c))))
Call(l, c, m, a) == Do(l, c, "call", <<1, m, a>>, "*")
Some(l) == IF l = <<>> THEN Fresh ELSE l

(* ---- parts of a request line *)
Asking == Asks /\
  \/ \E m \in Range(Methods) : Call([Some(line) EXCEPT ![1] = m], IF cseq = <<>> THEN cseq ELSE [cseq EXCEPT ![2] = m], "SetMethod", <<m>>)
  \/ \E u \in Range(Uris) : Call([Some(line) EXCEPT ![2] = u], cseq, IF kind = "request" THEN "SetRequestURI" ELSE "SetUri", <<[uri |-> u]>>)
  \/ \E v \in Range(Versions) : Call([Some(line) EXCEPT ![3] = v], cseq, "SetSIPVersion", <<v>>)
(* ---- parts of a status line *)
Answering == kind \in {"statusline", "response"} /\
  \/ \E n \in Range(CodesSet) : Call([Some(line) EXCEPT ![1] = n], cseq, "SetStatusCode", <<n>>)
  \/ \E p \in Range(Phrases) \cup {""} : Call([Some(line) EXCEPT ![2] = p], cseq, "SetReasonPhrase", <<p>>)
  \/ \E v \in Range(Versions) : Call([Some(line) EXCEPT ![3] = v], cseq, IF kind = "response" THEN "SetSIPVersion" ELSE "SetSipVersion", <<v>>)
(* ---- the whole line, and the CSeq *)
Whole1 == InMessage /\
  \/ kind = "request" /\ \E m \in {"BYE", "X-1.a"}, u \in {Uris[1], Uris[2]} :
       Call(<<m, u, "SIP/2.0">>, cseq, "SetRequestLine", <<[requestline |-> m \o " " \o u \o " SIP/2.0"]>>)
  \/ kind = "response" /\ \E n \in {180, 604} : Call(<<n, "A b", "SIP/2.0">>, cseq, "SetStatusLine", <<[statusline |-> "SIP/2.0 " \o ToString(n) \o " A b"]>>)
  \/ \E n \in {1, 2147483647}, m \in {"INVITE", "ACK"} : Call(line, <<n, m>>, "SetCSeq", <<[header |-> "CSeq: " \o ToString(n) \o " " \o m]>>)
  \/ Call(line, <<>>, "RemoveHeader", <<"cseq">>)
(* ---- encoded and parsed, or parsed with other white space *)
Complete(l) == l # <<>> /\ l[3] = "SIP/2.0" /\ (Asks => l[1] # "" /\ l[2] # "")
Agree == kind = "request" /\ cseq # <<>> => Upper(line[1]) = Upper(cseq[2])
UpperCseq(c) == IF c = <<>> THEN c ELSE [c EXCEPT ![2] = Upper(@)]
Parsing == kind # "codes" /\ Complete(line) /\
  \/ Agree /\ \E t \in IF InMessage THEN {"message", "messagebytes"} ELSE {kind} : Do(line, UpperCseq(cseq), "reparse", <<1, t>>, "*")
  \/ kind = "requestline" /\ \E s \in {"  ", "\t"} : Do(line, cseq, "parse", <<1, kind, line[1] \o s \o line[2] \o s \o line[3] \o s \o "\n">>, "*")
  \/ kind = "statusline" /\ \E s \in {"  ", "\t"} : Do(line, cseq, "parse", <<1, kind, line[3] \o s \o ToString(line[1]) \o s \o line[2] \o s \o "\n">>, "*")
Copying == kind = "requestline" /\ Do(line, cseq, "clone", <<1, 1>>, "*")
(* ---- every status code there could be *)
Coding == kind = "codes" /\ \E n \in 0..1000 :
  \/ Do(line, cseq, "call", <<1, "GetReasonPhraseFromInt", <<n>>>>, Phrase(n))
  \/ Do(line, cseq, "call", <<1, "IsFinalResponseFromInt", <<n>>>>, Final(n))

Next == \/ "set" \in Doing /\ (Asking \/ Answering)
        \/ "whole" \in Doing /\ Whole1
        \/ "parse" \in Doing /\ (Parsing \/ Copying)
        \/ "codes" \in Doing /\ Coding
Spec == Init /\ [][Next]_vars
View == <<kind, line, cseq, ops>>
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
