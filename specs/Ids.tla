-------------------------------- MODULE Ids --------------------------------
(* P07 and P08.  Which messages have the same transaction or dialog identifier.    *)
(* The specification keeps what each message carries and derives from it the key    *)
(* of its transaction and, for either side, of its dialog; the identifiers the      *)
(* library computes must be equal exactly where the keys are.                       *)
EXTENDS Common
CONSTANTS What, NObj, MaxOps, Bases
VARIABLES msgs, shared, seen, hist, ops
vars == <<msgs, shared, seen, hist, ops>>

Branches == <<"z9hG4bKabc", "Z9HG4BKABC", "z9hG4bKabd", "abc", "z9hG4b", "z9hG4bK", "", "z9Hg4bKaBc", "z9hG4bKabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabc">>
Cookie(b) == Len(b) >= 7 /\ EqFold(SubSeq(b, 1, 7), "z9hG4bK")
SentBys == <<"h.org", "h.org:5060", "h.org:5070", "i.org", "[2001:db8::1]", "1.2.3.4:5070", "ionsh.org", "2h.org">>
WithPort(s) == IF s \in {"h.org", "i.org", "[2001:db8::1]", "ionsh.org", "2h.org"} THEN s \o ":5060" ELSE s
Addrs == <<"sip:a@x.org", "sip:b@x.org", "sip:a@y.org", "sip:a@x.org:5070", "sip:x.org", "tel:+1-23", "sip:a@x.orgf1", "sips:c@x.org", "sip:1@x.org">>
Tags == IF What = "tx" THEN <<"", "f1", "f2", "f1x", "f1c">> ELSE <<"", "f1", "f2", "F1", "f1x", "f1c">>
Cids == IF What = "tx" THEN <<"c1@x.org", "c2@x.org", "c1", "1@x.org", "c1@x.org1">> ELSE <<"c1@x.org", "c2@x.org", "c1", "C1@x.ORG", "1@x.org", "c1@x.orgf1">>
Seqs == <<1, 2, 12, 0, 2147483647>>
Meths == <<"OPTIONS", "INVITE", "ACK", "OPT">>
Others == <<"", "Subject: x", "Route: <sip:r@r.org;lr>", "Max-Forwards: 7", "Contact: <sip:m@h.org>">>
Lows == <<"", "SIP/2.0/TCP low.org;branch=z9hG4bKlow", "SIP/2.0/TCP h.org:5070;branch=abc">>
Uris == <<"sip:u@h.org", "sip:v@i.org:5070">>
Names == <<"", "\"Al\" ">>
Count == [br |-> Len(Branches), sb |-> Len(SentBys), fa |-> Len(Addrs), ta |-> Len(Addrs), ft |-> Len(Tags), tt |-> Len(Tags), cid |-> Len(Cids),
          seq |-> Len(Seqs), me |-> Len(Meths), oth |-> Len(Others), low |-> Len(Lows), ru |-> Len(Uris), dn |-> Len(Names), rq |-> 2]
(* what the identifiers are derived from comes in fewer combinations where it does not matter *)
Parts == IF What = "tx" THEN {"br", "sb", "fa", "ta", "ft", "tt", "cid", "seq", "me", "oth", "low", "ru", "dn", "rq"}
         ELSE {"fa", "ta", "ft", "tt", "cid", "dn", "me", "oth", "rq"}
Base == [br |-> 1, sb |-> 1, fa |-> 1, ta |-> 2, ft |-> 2, tt |-> 1, cid |-> 1, seq |-> 1, me |-> 1, oth |-> 1, low |-> 1, ru |-> 1, dn |-> 1, rq |-> 1]
TxBases == {Base, [Base EXCEPT !.br = 4], [Base EXCEPT !.br = 7, !.ft = 1, !.sb = 3]}
DialogBases == {Base, [Base EXCEPT !.tt = 3], [Base EXCEPT !.ft = 1, !.ta = 1]}

(* ---- the message *)
Tagged(t) == IF t = "" THEN "" ELSE ";tag=" \o t
Named(v, a) == Names[v.dn] \o "<" \o a \o ">"
Via(v) == "SIP/2.0/UDP " \o SentBys[v.sb] \o (IF Branches[v.br] = "" THEN "" ELSE ";branch=" \o Branches[v.br])
Text(v) == Concat(Map(SelectSeq(<<
    IF v.rq = 1 THEN Meths[v.me] \o " " \o Uris[v.ru] \o " SIP/2.0" ELSE "SIP/2.0 200 OK",
    "Via: " \o Via(v) \o (IF Lows[v.low] = "" THEN "" ELSE "," \o Lows[v.low]),
    "From: " \o Named(v, Addrs[v.fa]) \o Tagged(Tags[v.ft]), "To: " \o Named(v, Addrs[v.ta]) \o Tagged(Tags[v.tt]),
    "Call-ID: " \o Cids[v.cid], "CSeq: " \o ToString(Seqs[v.seq]) \o " " \o Meths[v.me], Others[v.oth],
    "Content-Length: 0">>, LAMBDA l : l # ""), LAMBDA l : l \o CRLF)) \o CRLF
(* ---- the keys *)
TxKey(v) == IF Cookie(Branches[v.br]) THEN <<"branch", Lower(Branches[v.br])>>
            ELSE <<"fields", Addrs[v.fa], Tags[v.ft], Addrs[v.ta], Cids[v.cid], Seqs[v.seq], Meths[v.me], WithPort(SentBys[v.sb])>>
End(v, f, tt) == IF f THEN <<Addrs[v.fa], Lower(Tags[v.ft])>> ELSE <<Addrs[v.ta], Lower(tt)>>
DialogKey(v, server, tt) == <<Lower(Cids[v.cid])>> \o End(v, ~server, tt) \o End(v, server, tt)
ExtraSeq == <<"f1", "f2">>
Questions(i) == IF What = "tx" THEN <<<<i, "GetTransactionId", <<>>>>>>
  ELSE <<<<i, "GetDialogId", <<FALSE>>>>, <<i, "GetDialogId", <<TRUE>>>>>> \o Flat(Map(ExtraSeq, LAMBDA t : <<<<i, "GetDialogId2", <<FALSE, t>>>>, <<i, "GetDialogId2", <<TRUE, t>>>>>>))
Keys(v) == IF What = "tx" THEN <<TxKey(v)>>
  ELSE <<DialogKey(v, FALSE, Tags[v.tt]), DialogKey(v, TRUE, Tags[v.tt])>> \o Flat(Map(ExtraSeq, LAMBDA t : <<DialogKey(v, FALSE, t), DialogKey(v, TRUE, t)>>))

(* ---- identifiers are told apart by where each was first met *)
Where(s, k) == CHOOSE i \in 1..Len(s) : s[i] = k
RECURSIVE Meet(_, _)
Meet(s, ks) == IF ks = <<>> THEN s ELSE Meet(IF InSeq(Head(ks), s) THEN s ELSE Append(s, Head(ks)), Tail(ks))
AllKeys(ms) == Flat(Map(ms, Keys))
Ask(ms, s) == S("class", <<Flat([i \in 1..Len(ms) |-> Questions(i)])>>, [ret |-> Map(AllKeys(ms), LAMBDA k : Where(s, k))])
Fine == [err |-> FALSE]

Init == /\ \E v \in Bases : msgs = <<v>>
        /\ shared = {} /\ ops = 0 /\ seen = Meet(<<>>, AllKeys(msgs))
        /\ hist = <<S("parse", <<1, IF msgs[1].rq = 1 THEN "request" ELSE "response", Text(msgs[1])>>, Fine), Ask(msgs, seen)>>
Do(ms, sh, steps) == /\ ops < MaxOps /\ ops' = ops + 1 /\ msgs' = ms /\ shared' = sh /\ seen' = Meet(seen, AllKeys(ms))
                     /\ hist' = hist \o steps \o <<Ask(ms, seen')>>
Room == Len(msgs) < NObj
Next1 == Len(msgs) + 1
(* another message, like one there is but for one part of it; or with the ends exchanged *)
Swapped(v) == [v EXCEPT !.fa = v.ta, !.ta = v.fa, !.ft = v.tt, !.tt = v.ft]
Parse(v, id) == S("parse", <<id, IF v.rq = 1 THEN "request" ELSE "response", Text(v)>>, Fine)
Another == Room /\ \E i \in 1..Len(msgs) :
   \/ \E p \in Parts : \E x \in 1..Count[p] : x # msgs[i][p] /\ LET v == [msgs[i] EXCEPT ![p] = x] IN Do(Append(msgs, v), shared, <<Parse(v, Next1)>>)
   \/ Do(Append(msgs, Swapped(msgs[i])), shared, <<Parse(Swapped(msgs[i]), Next1)>>)
   \/ Do(Append(msgs, msgs[i]), shared, <<Parse(msgs[i], Next1)>>)
Respond == Room /\ \E i \in 1..Len(msgs) : msgs[i].rq = 1 /\ \E code \in {100, 200, 487} :
   Do(Append(msgs, [msgs[i] EXCEPT !.rq = 2]), shared \cup {i, Next1}, <<S("make", <<Next1, i, "CreateResponse", <<code>>>>, Fine)>>)
Again == \E i \in 1..Len(msgs) : \E m \in {"message", "messagebytes"} : Do(msgs, shared \ {i}, <<S("reparse", <<i, m>>, Fine)>>)

(* ---- one part of a message changed by its setter *)
On(i, path, m, a) == <<S("follow", <<20, i, path>>, Fine), S("do", <<20, m, a>>, Fine)>>
At(i, m, a) == <<S("do", <<i, m, a>>, Fine)>>
Change(i, p, x) ==
  CASE p = "br" -> IF Branches[x] = "" THEN On(i, "GetTopmostVia", "RemoveParameter", <<"branch">>) ELSE On(i, "GetTopmostVia", "SetBranch", <<Branches[x]>>)
    [] p = "fa" -> On(i, "GetFrom", "SetAddress", <<[addr |-> Named(msgs[i], Addrs[x])]>>)
    [] p = "ta" -> On(i, "GetTo", "SetAddress", <<[addr |-> Named(msgs[i], Addrs[x])]>>)
    [] p = "ft" -> IF Tags[x] = "" THEN On(i, "GetFrom", "RemoveTag", <<>>) ELSE IF x = 2 THEN On(i, "GetFrom", "SetTag", <<Tags[x]>>) ELSE At(i, "SetFromTag", <<Tags[x]>>)
    [] p = "tt" -> IF Tags[x] = "" THEN On(i, "GetTo", "RemoveTag", <<>>) ELSE IF x = 2 THEN On(i, "GetTo", "SetTag", <<Tags[x]>>) ELSE At(i, "SetToTag", <<Tags[x]>>)
    [] p = "cid" -> IF x = 1 THEN On(i, "GetCallId", "SetCallId", <<Cids[x]>>) ELSE At(i, "SetCallIdFromString", <<Cids[x]>>)
    [] p = "seq" -> On(i, "GetCSeq", "SetSequenceNumber", <<Seqs[x]>>)
    [] p = "me" -> IF msgs[i].rq = 1 THEN At(i, "SetMethod", <<Meths[x]>>) ELSE On(i, "GetCSeq", "SetMethod", <<Meths[x]>>)
    [] p = "low" -> IF msgs[i].low = 1 THEN At(i, "AttachHeader", <<[header |-> "Via: " \o Lows[x]]>>) ELSE <<>>
    [] p = "oth" -> IF msgs[i].oth = 1 THEN At(i, "SetHeader", <<[header |-> Others[x]]>>) ELSE <<>>
    [] p = "sb" -> IF x = 3 THEN On(i, "GetTopmostVia", "SetPort", <<5070>>) ELSE IF x = 2 THEN On(i, "GetTopmostVia", "SetPort", <<5060>>) ELSE <<>>
    [] OTHER -> <<>>
Able(i, p, x) == Change(i, p, x) # <<>> /\ (p = "sb" => msgs[i].sb \in {1, 2, 3})
Edit == \E i \in 1..Len(msgs) \ shared : \E p \in Parts : \E x \in 1..Count[p] :
   x # msgs[i][p] /\ Able(i, p, x) /\ Do([msgs EXCEPT ![i][p] = x], shared, Change(i, p, x))

Next == Another \/ Respond \/ Again \/ Edit
Spec == Init /\ [][Next]_vars
View == <<msgs, shared, seen, ops>>
(* either side has the other's dialog key *)
Mirror == \A i \in 1..Len(msgs) : DialogKey(msgs[i], TRUE, Tags[msgs[i].tt]) = DialogKey(Swapped(msgs[i]), FALSE, Tags[msgs[i].ft])
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
=============================================================================
