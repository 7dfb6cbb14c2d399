-------------------------------- MODULE Rand48 --------------------------------
(* P21.  The drand48 generator: a 48-bit word (six bytes, most significant      *)
(* first) stepped by x -> (0x5DEECE66D x + 0xB) mod 2^48; every request makes    *)
(* exactly one step, whoever makes it.                                           *)
EXTENDS Common
Mult == <<0, 5, 222, 236, 230, 109>>          \* 0x0005DEECE66D
D(w, i) == w[6 - i]                            \* digit i, least significant is 0
(* column i of the product of two six-digit numbers, without carries *)
Col(w, i) == LET m(j) == D(Mult, j) * D(w, i - j)
             IN IF i = 0 THEN m(0) ELSE IF i = 1 THEN m(0) + m(1) ELSE IF i = 2 THEN m(0) + m(1) + m(2)
                ELSE IF i = 3 THEN m(0) + m(1) + m(2) + m(3) ELSE m(0) + m(1) + m(2) + m(3) + m(4) + (IF i = 5 THEN m(5) ELSE 0)
RECURSIVE Carry(_, _, _)
Carry(w, i, c) == IF i = 6 THEN <<>>
                  ELSE LET s == Col(w, i) + c IN Append(Carry(w, i + 1, s \div 256), s % 256)
Next48(w) == Carry(w, 0, 11)
Seed48(s) == s \o <<51, 14>>                   \* seed in the high 32 bits, 0x330E below
(* what a request of each kind returns, given the word after the step *)
Out(kind, w) == CASE kind = "r32" -> SubSeq(w, 1, 4)
                  [] kind = "r16" -> SubSeq(w, 1, 2)
                  [] kind = "r8"  -> SubSeq(w, 1, 1)
                  [] kind = "dbl" -> w          \* the word over 2^48
Kinds == {"r32", "r16", "r8", "dbl"}
=============================================================================
