----------------------------- MODULE ScanSweep ------------------------------
(* P15.  Every byte, alone and in the places where it can matter, before every operation.    *)
EXTENDS Scanner
HexSeq == Chars("0123456789abcdef")
Printable == Range(Chars(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz|}~"))
Unseen == {"{" \o HexSeq[i] \o HexSeq[j] \o "}" : i \in {1, 2} \cup 9..16, j \in 1..16} \ {"{09}", "{0a}", "{0d}"}
Bytes == Printable \cup Unseen \cup {"\t", "\n", "\r", "{7b}", "{7f}"}
Inputs == UNION {{<<x>>, <<x, "a">>, <<"a", x, "7">>, <<"\"", x, "\"">>, <<"(", x, ")">>, <<"a", "=", x>>, <<x, x, ";">>, <<"\\", x, ";">>} : x \in Bytes}
SweepInit == inp = <<>> /\ at = 0 /\ saved = -1 /\ lost = FALSE /\ ops = -2 /\ hist = <<>>
Choose1 == ops = -2 /\ ops' = -1 /\ inp' \in Inputs /\ UNCHANGED <<at, saved, lost, hist>>
SweepNext == Choose1 \/ Begin \/ Run
SweepSpec == SweepInit /\ [][SweepNext]_vars
=============================================================================
