------------------------------ MODULE IdChars -------------------------------
(* P07, P08.  Every character that may stand in what an identifier is derived from, at its   *)
(* beginning, inside and at its end: messages that differ there are told apart, and nothing   *)
(* else tells them apart.                                                                     *)
EXTENDS Common
CONSTANTS What
VARIABLES f, place, done
vars == <<f, place, done>>

Small == LowerSeq
Digits == Chars("0123456789")
Large == UpperSeq
Token == Digits \o Small \o Chars("-.!%*_+`'~")
Word == Token \o Chars("()<>:\\\"/[]?}") \o <<"{7b}">>
User == Digits \o Small \o Chars("-_.!~*'()&=+$,;?/")
Base == [branch |-> "z9hG4bKk", user |-> "u", host |-> "x.org", ftag |-> "f", ttag |-> "t", cid |-> "c", seq |-> "1", sentby |-> "h.org", uri |-> "r", subject |-> "s", name |-> "n"]
Old == [Base EXCEPT !.branch = "k"]
F(part, base, pre, class) == [part |-> part, base |-> base, pre |-> pre, class |-> class]
(* whole values, and which of them are the same *)
SentBys == <<"h.org", "h.org:5060", "h.org:5061", "h.org:506", "1.2.3.4", "1.2.3.4:5060", "1.2.3.4:5061", "1.2.3.5:5060", "[2001:db8::1]", "[2001:db8::1]:5060", "[2001:db8::1]:5061", "[2001:db8::2]", "[::1]:5060", "[::1]", "h-1:5060", "h-1", "h:5060", "h", "4.h.org", "2.3.4.5">>
NoPort == {"h.org", "1.2.3.4", "[2001:db8::1]", "[2001:db8::2]", "[::1]", "h-1", "h", "4.h.org", "2.3.4.5"}
Hosts == <<"x.org", "1.2.3.4", "[2001:db8::1]", "[2001:db8::2]", "[::1]", "x", "x-1", "1.2.3.5", "x.org:5070", "[::1]:5070", "1.2.3.4:5070", "x.org:507">>
Seqs == <<"0", "1", "2", "10", "11", "111", "65536", "65537", "2147483646", "2147483647">>
Cids == <<"1", "11", "1@h", "11@h", "1@1.2.3.4", "1@[::1]", "a@b", "ab", "b@a">>
Whole == {"sentbys", "hosts", "seqs", "cids"}
Part(g) == CASE g.part = "sentbys" -> "sentby" [] g.part = "hosts" -> "host" [] g.part = "seqs" -> "seq" [] g.part = "cids" -> "cid" [] OTHER -> g.part
WithPort(t) == IF t \in NoPort \/ SubSeq(t, Len(t), Len(t)) = "g" THEN t \o ":5060" ELSE t
TxFields == {F("branch", Base, "z9hG4bK", Token \o Large), F("user", Base, "", User), F("ftag", Base, "", Token), F("cid", Base, "", Word), F("subject", Old, "", Token),
             F("user", Old, "", User), F("host", Old, "", Digits \o Small), F("ftag", Old, "", Token), F("cid", Old, "", Word), F("sentby", Old, "", Digits \o Small), F("sentbys", Old, "", SentBys), F("sentbys", Base, "", SentBys), F("hosts", Old, "", Hosts), F("seqs", Old, "", Seqs), F("cids", Old, "", Cids), F("seqs", Base, "", Seqs),
             F("uri", Old, "", User),
             F("name", Old, "", Token \o Chars(" ()<>:@,;=/[]?}"))}
DialogFields == {F("hosts", Base, "", Hosts), F("cids", Base, "", Cids), F("seqs", Base, "", Seqs), F("sentbys", Base, "", SentBys),
                 F("ftag", Base, "", Token \o Large), F("ttag", Base, "", Token \o Large), F("cid", Base, "", Word \o Large), F("cid", Base, "x@", Word \o Large), F("user", Base, "", User \o Large), F("host", Base, "", Digits \o Small \o Large),
                 F("branch", Base, "", Token), F("subject", Base, "", Token), F("name", Base, "", Token \o Chars(" ()<>:@,;=/[]?}"))}
Places == {<<"", "">>, <<"", "a">>, <<"a", "">>, <<"a", "b">>, <<"aaaaaaa", "">>, <<"", "aaaaaaa">>}
Value(x) == IF f.part \in Whole THEN x ELSE f.pre \o place[1] \o x \o place[2] \o (IF f.part \in {"sentby", "host"} THEN ".org" ELSE "")
With(x) == [f.base EXCEPT ![Part(f)] = Value(x)]
Text(v) == Concat(Map(<<"OPTIONS sip:" \o v.uri \o "@h SIP/2.0", "Via: SIP/2.0/UDP " \o v.sentby \o ";branch=" \o v.branch, "From: \"" \o v.name \o "\" <sip:" \o v.user \o "@" \o v.host \o ">;tag=" \o v.ftag,
  "To: <sip:o@y.org>;tag=" \o v.ttag, "Call-ID: " \o v.cid, "CSeq: " \o v.seq \o " OPTIONS", "Subject: " \o v.subject, "Content-Length: 0">>, LAMBDA l : l \o CRLF)) \o CRLF
Cookie(b) == Len(b) >= 7 /\ SubSeq(b, 1, 7) = "z9hG4bK"
TxKey(v) == IF Cookie(v.branch) THEN <<Lower(v.branch)>> ELSE <<v.user, v.host, v.ftag, v.ttag, v.cid, v.seq, WithPort(v.sentby)>>
DialogKeys(v) == LET a == <<Lower(v.user), Lower(v.host), Lower(v.ftag)>> b == <<Lower(v.ttag)>> IN <<<<"c", Lower(v.cid), a, b>>, <<"s", Lower(v.cid), a, b>>>>
Keys(v) == IF What = "tx" THEN <<TxKey(v)>> ELSE DialogKeys(v)
Questions(i) == IF What = "tx" THEN <<<<i, "GetTransactionId", <<>>>>>> ELSE <<<<i, "GetDialogId", <<FALSE>>>>, <<i, "GetDialogId", <<TRUE>>>>>>

(* the values with nothing there, and with each of the characters *)
Xs == (IF place = <<"", "">> THEN <<>> ELSE <<"">>) \o f.class
Where(s, k) == CHOOSE i \in 1..Len(s) : s[i] = k
RECURSIVE Meet(_, _)
Meet(s, ks) == IF ks = <<>> THEN s ELSE Meet(IF InSeq(Head(ks), s) THEN s ELSE Append(s, Head(ks)), Tail(ks))
Scene == LET vs == Map(Xs, With) ks == Flat(Map(vs, Keys)) seen == Meet(<<>>, ks) IN
         [i \in 1..Len(vs) |-> S("parse", <<i, "request", Text(vs[i])>>, [err |-> FALSE])]
         \o <<S("class", <<Flat([i \in 1..Len(vs) |-> Questions(i)])>>, [ret |-> Map(ks, LAMBDA k : Where(seen, k))])>>
Init == f \in (IF What = "tx" THEN TxFields ELSE DialogFields) /\ place \in (IF f.part \in Whole THEN {<<"", "">>} ELSE Places) /\ done = 0
Next == done = 0 /\ done' = 1 /\ UNCHANGED <<f, place>> /\ Emit(Scene)
Spec == Init /\ [][Next]_vars
=============================================================================
