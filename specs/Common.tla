------------------------------- MODULE Common -------------------------------
(* Helpers shared by all specifications: words as byte sequences, text joining, *)
(* the emission of cases and behaviours that the Go driver replays.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

(* ---- emission: one JSON document per printed line, recognised by its "@@" *)
Emit(beh) == PrintT("@@" \o ToJson(beh))
(* one step of a behaviour: operation, arguments, prescribed observation *)
S(op, args, want) == [op |-> op, a |-> args, w |-> want]

(* ---- sequences *)
Rep(x, n) == [i \in 1..n |-> x]
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Filter(s, P(_)) == SelectSeq(s, P)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range(s) == {s[i] : i \in 1..Len(s)}
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* ---- text *)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Concat(Tail(ss))
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
CRLF == "\r\n"
Q(s) == "\"" \o s \o "\""
Opt(present, v) == IF present THEN <<v>> ELSE <<>>

(* ---- letter case *)
UpperSeq == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LowerSeq == Chars("abcdefghijklmnopqrstuvwxyz")
LowerOf == [c \in {UpperSeq[i] : i \in 1..26} |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
UpperOf == [c \in {LowerSeq[i] : i \in 1..26} |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
LowerC(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
UpperC(c) == IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c
Lower(s) == Concat([i \in 1..Len(s) |-> LowerC(SubSeq(s, i, i))])
Upper(s) == Concat([i \in 1..Len(s) |-> UpperC(SubSeq(s, i, i))])
EqFold(a, b) == Lower(a) = Lower(b)

(* concatenation of a sequence of 4-byte words, without recursion *)
FlatW(ws) == [i \in 1..(4 * Len(ws)) |-> ws[((i - 1) \div 4) + 1][((i - 1) % 4) + 1]]

(* ---- words of 16 and 32 bits as bytes, most significant first *)
B16(n) == <<n \div 256, n % 256>>
N16(b) == b[1] * 256 + b[2]
Zero4 == <<0, 0, 0, 0>>
Max4 == <<255, 255, 255, 255>>
=============================================================================
