----------------------------- MODULE BodySweep ------------------------------
(* P02, P04.  Bodies of every byte at every end, and of every length: read, set in either    *)
(* form, encoded in either form; and whatever follows a body is no part of it.               *)
EXTENDS Common
CONSTANTS Lengths
VARIABLES b
Seen(ret) == [err |-> FALSE, ret |-> ret, objs |-> <<>>]
Ask(m, args, ret) == S("call", <<1, m, args>>, Seen(ret))
HexSeq == Chars("0123456789abcdef")
Printable == Range(Chars(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz|}~"))
Unseen == {"{" \o HexSeq[i] \o HexSeq[j] \o "}" : i \in {1, 2} \cup 9..16, j \in 1..16} \ {"{09}", "{0a}", "{0d}"}
AllBytes == Printable \cup Unseen \cup {"\t", "\n", "\r", "{7b}", "{7f}"}
Piece64 == "0123456789abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ,"
Plenty == Concat(Rep(Piece64, 80))
Placed == UNION {{<<x, 1>>, <<x \o x, 2>>, <<"a" \o x, 2>>, <<x \o "a", 2>>, <<"a" \o x \o "\r\n", 4>>, <<"\r\n" \o x \o "b", 4>>} : x \in AllBytes}
Many == 1..130 \cup {254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4000, 4096, 5000}
Few == {1, 2, 9, 10, 100}
Most == 1..1500
Sized == {<<SubSeq(Plenty, 1, k), k>> : k \in Lengths}
Head1 == "OPTIONS sip:u@h SIP/2.0" \o CRLF
Msg(v) == Head1 \o "Content-Length: " \o ToString(v[2]) \o CRLF \o CRLF \o v[1]
Told(v) == <<Ask("String", <<>>, Msg(v)), Ask("EncodeAsBytes", <<>>, Msg(v)), Ask("GetMessageContent", <<>>, v[1]), Ask("GetContent", <<>>, v[1])>>
Scene(v) == <<S("parse", <<1, "messagebytes", Msg(v)>>, Seen("*"))>> \o Told(v) \o <<S("parse", <<1, "message", Msg(v) \o "zz" \o CRLF>>, Seen("*"))>> \o Told(v)
         \o <<S("parse", <<1, "messagebytes", Msg(v) \o Msg(<<"x", 1>>)>>, Seen("*"))>> \o Told(v)
         \o <<S("parse", <<1, "message", Msg(<<"old", 3>>)>>, Seen("*")), Ask("SetMessageContent", <<v[1]>>, "*")>> \o Told(v) \o <<S("reparse", <<1, "messagebytes">>, Seen("*"))>> \o Told(v)
         \o <<S("parse", <<1, "message", Msg(<<"older", 5>>)>>, Seen("*")), Ask("SetMessageContentFromByte", <<[bytes |-> v[1]]>>, "*")>> \o Told(v) \o <<S("reparse", <<1, "message">>, Seen("*"))>> \o Told(v)
Init == b = <<>>
Next == b = <<>> /\ \E v \in Placed \cup Sized : b' = v /\ Emit(Scene(v))
Spec == Init /\ [][Next]_b
=============================================================================
