------------------------------ MODULE Callers ------------------------------
(* P24.  Several callers, each at work on things of its own: in whatever order their calls  *)
(* come, each sees what it would see alone.  A caller runs a program; the steps of the callers  *)
(* are interleaved in every way, and after every step everything all of them hold is looked at.  *)
(* (The same programs, and those of the other specifications, are run by callers at the same time    *)
(* under the race detector: each caller's run must be one of its program alone.)             *)
EXTENDS Common
CONSTANTS NCallers, Programs
VARIABLES prog, pc, made, hist
vars == <<prog, pc, made, hist>>
Callers == 1..NCallers

(* what caller c writes differs from what the others write *)
N(c) == ToString(c)
Do(m, args, text) == [op |-> "call", m |-> m, a |-> args, t |-> text]
Make(kind, src, text) == [op |-> "parse", m |-> kind, a |-> <<src>>, t |-> text]
Again(kind, text) == [op |-> "reparse", m |-> kind, a |-> <<>>, t |-> text]
Req(c, lines, body) == "INVITE sip:u" \o N(c) \o "@h.org SIP/2.0" \o CRLF \o lines \o "Content-Length: " \o ToString(Len(body)) \o CRLF \o CRLF \o body
Res(c, code, reason, lines) == "SIP/2.0 " \o code \o " " \o reason \o CRLF \o lines \o "Content-Length: 0" \o CRLF \o CRLF
Via(c) == "Via: SIP/2.0/UDP h" \o N(c) \o ".org;branch=z9hG4bK" \o N(c) \o CRLF
Subject(x) == "Subject: " \o x \o CRLF
Con(x) == "Contact: <sip:" \o x \o "@h>" \o CRLF
Program(p, c) ==
  CASE p = "request" -> LET v == Via(c) s == Subject("s" \o N(c)) IN
      << Make("request", Req(c, v \o s, "b" \o N(c)), Req(c, v \o s, "b" \o N(c))), Do("SetHeader", <<[header |-> "Subject: t" \o N(c)]>>, Req(c, v \o Subject("t" \o N(c)), "b" \o N(c))),
         Do("RemoveHeader", <<"Via">>, Req(c, Subject("t" \o N(c)), "b" \o N(c))), Again("message", Req(c, Subject("t" \o N(c)), "b" \o N(c))) >>
    [] p = "response" -> LET v == Via(c) IN
      << Make("response", Res(c, "20" \o N(c), "r" \o N(c), v), Res(c, "20" \o N(c), "r" \o N(c), v)), Do("SetStatusCode", <<400 + c>>, "*"),
         Do("SetReasonPhrase", <<"p" \o N(c)>>, Res(c, "40" \o N(c), "p" \o N(c), v)), Again("message", Res(c, "40" \o N(c), "p" \o N(c), v)) >>
    [] p = "via" -> LET V(x) == "Via: SIP/2.0/TCP g" \o N(c) \o x \o CRLF IN
      << Make("element", "v:SIP/2.0/TCP g" \o N(c) \o ";x=" \o N(c) \o "\n", V(";x=" \o N(c))), Do("SetPort", <<5070 + c>>, V(":507" \o N(c) \o ";x=" \o N(c))), Do("SetBranch", <<"b" \o N(c)>>, V(":507" \o N(c) \o ";x=" \o N(c) \o ";branch=b" \o N(c))),
         Again("element", V(":507" \o N(c) \o ";x=" \o N(c) \o ";branch=b" \o N(c))) >>
    [] p = "uri" -> LET U(x) == "sip:a" \o N(c) \o "@h" \o x IN
      << Make("uri", U(";transport=t" \o N(c)), U(";transport=t" \o N(c))), Do("SetParameter", <<"y", N(c)>>, U(";transport=t" \o N(c) \o ";y=" \o N(c))), Do("RemoveParameter", <<"transport">>, U(";y=" \o N(c))), Again("uri", U(";y=" \o N(c))) >>
    [] p = "auth" -> LET A(x) == "Authorization: Digest realm=\"r" \o N(c) \o "\"" \o x \o CRLF IN
      << Make("element", "Authorization: Digest realm=\"r" \o N(c) \o "\"\n", A("")), Do("SetNonce", <<"n" \o N(c)>>, A(",nonce=\"n" \o N(c) \o "\"")), Do("SetNonceCount", <<c>>, A(",nonce=\"n" \o N(c) \o "\",nc=0000000" \o N(c))),
         Again("element", A(",nonce=\"n" \o N(c) \o "\",nc=0000000" \o N(c))) >>
    [] p = "address" -> LET A(n, x) == Q(n \o N(c)) \o " <sip:a" \o N(c) \o "@h" \o x \o ">" IN
      << Make("address", A("D", ""), A("D", "")), Do("SetDisplayName", <<"E" \o N(c)>>, A("E", "")), Again("address", A("E", "")), Do("SetDisplayName", <<"F" \o N(c)>>, A("F", "")) >>

State(c) == Program(prog[c], c)[pc[c]].t
Shown(order, now) == [i \in 1..Len(order) |-> [str |-> now[order[i]]]]
Texts == [c \in Callers |-> IF pc[c] = 0 THEN "" ELSE State(c)]
Steps(c, k) ==
  LET s == Program(prog[c], c)[k] now == [Texts EXCEPT ![c] = s.t] order == IF k = 1 THEN Append(made, c) ELSE made IN
  LET w == [err |-> FALSE, ret |-> "*", objs |-> Shown(order, now)] IN
  IF s.op = "parse" THEN << S("parse", <<c, s.m, s.a[1]>>, [err |-> FALSE, ret |-> "*", objs |-> Shown(made, Texts)]), S("look", <<c, <<"String">>>>, w) >>
  ELSE IF s.op = "reparse" THEN << S("reparse", <<c, s.m>>, w) >> ELSE << S("call", <<c, s.m, s.a>>, w) >>

Init == prog \in [Callers -> Programs] /\ pc = [c \in Callers |-> 0] /\ made = <<>> /\ hist = <<>>
Step(c) == /\ pc[c] < Len(Program(prog[c], c))
           /\ pc' = [pc EXCEPT ![c] = @ + 1]
           /\ made' = IF pc[c] = 0 THEN Append(made, c) ELSE made
           /\ hist' = hist \o Steps(c, pc[c] + 1)
           /\ UNCHANGED prog
Next == \E c \in Callers : Step(c)
Spec == Init /\ [][Next]_vars
(* a caller's own steps, whatever the others did in between, are those of its program *)
Alone(c) == [i \in 1..pc[c] |-> Program(prog[c], c)[i].t]
AsAlone == \A c \in Callers : LET own == SelectSeq(hist, LAMBDA s : s.a[1] = c /\ s.op # "parse") IN
             /\ Len(own) = pc[c]
             /\ \A i \in 1..pc[c] : LET o == own[i].w.objs at == CHOOSE j \in 1..Len(made) : made[j] = c IN o[at].str = Alone(c)[i]
Emitted == \/ \E c \in Callers : pc'[c] < Len(Program(prog[c], c))
           \/ Emit(hist')
=============================================================================
