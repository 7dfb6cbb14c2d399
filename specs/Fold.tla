-------------------------------- MODULE Fold --------------------------------
(* P04.  A header folded where its only white space stands means what it means on one  *)
(* line.  P03.  A wild card among the Contact values is encoded as it was written.      *)
EXTENDS Common
CONSTANT What
VARIABLES line, white, done
vars == <<line, white, done>>

(* parts of a header line between which one white space must stand, and what it is encoded as *)
L(parts, canonical) == [parts |-> parts, c |-> canonical]
P(parts) == L(parts, Join(parts, " "))
Folded == <<
  P(<<"CSeq: 1", "INVITE">>), P(<<"RAck: 1", "2", "INVITE">>), P(<<"Timestamp: 54.25", "0.5">>), P(<<"Retry-After: 10", "(x)">>),
  P(<<"Via: SIP/2.0/UDP", "h2;branch=z9hG4bK1">>), P(<<"Warning: 307", "h.org", "\"x\"">>), P(<<"Date: Sat,", "13", "Nov", "2010", "23:29:00", "GMT">>),
  L(<<"From: Ed", "Q", "<sip:a@h.org>;tag=1">>, "From: \"Ed Q\" <sip:a@h.org>;tag=1"), L(<<"Authorization: Digest", "realm=\"x\"">>, "Authorization: Digest realm=\"x\""),
  P(<<"Subject: a", "b">>), P(<<"Organization: a", "b">>), P(<<"User-Agent: a/1", "b/2">>), P(<<"Server: a/1", "(x)">>), P(<<"X-Ext: a", "b">>),
  P(<<"From: \"Ed", "Q\" <sip:a@h.org>;tag=1">>), P(<<"Warning: 307 h.org \"a", "b\"">>) >>
Wild == << L(<<"Contact: *">>, "Contact: *") >>
Lines == IF What = "fold" THEN Folded ELSE Wild
Spaces == IF What = "fold" THEN <<" ", "\r\n ", "\n\t">> ELSE <<" ">>

Text == "INVITE sip:u@h.org SIP/2.0\r\n" \o Join(Lines[line].parts, Spaces[white]) \o CRLF \o "Content-Length: 0\r\n\r\n"
Canonical == "INVITE sip:u@h.org SIP/2.0\r\n" \o Lines[line].c \o CRLF \o "Content-Length: 0\r\n\r\n"
Init == line \in 1..Len(Lines) /\ white \in 1..Len(Spaces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<line, white>>
Spec == Init /\ [][Next]_vars
Seen(text) == [err |-> FALSE, ret |-> "*", objs |-> <<[str |-> text, get |-> <<>>]>>]
Parse(kind, text) == S("parse", <<1, kind, text>>, [err |-> FALSE, ret |-> "*", objs |-> <<>>])
Look(text) == S("look", <<1, <<"String">>>>, Seen(text))
(* in a message, and by itself *)
EmitStep == /\ Emit(<<Parse("request", Text), Look(Canonical)>>)
            /\ What = "fold" => Emit(<<Parse("sipheader", Join(Lines[line].parts, Spaces[white]) \o CRLF), Look(Lines[line].c \o CRLF)>>)
=============================================================================
