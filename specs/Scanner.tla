------------------------------- MODULE Scanner --------------------------------
(* P15.  The scanner: an input, a cursor, and what a look-ahead saved.  The input *)
(* is a sequence of one-byte texts; `at' bytes of it are behind the cursor.       *)
EXTENDS Common
CONSTANTS Alphabet, MaxLen, MaxOps, Runs
VARIABLES inp, at, saved, lost, hist, ops
vars == <<inp, at, saved, lost, hist, ops>>

Letters == Range(UpperSeq) \cup Range(LowerSeq)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Punct == {"-", ".", "!", "%", "*", "_", "+", "`", "'", "~"}
TokCh == Letters \cup Digits \cup Punct
Blank == {" ", "\t"}
Kws == <<"AB", "SIP">>

N == Len(inp)
(* length of the longest stretch from position i whose bytes are all in set c *)
RECURSIVE Span(_, _)
Span(i, c) == IF i >= N THEN 0 ELSE IF inp[i + 1] \in c THEN 1 + Span(i + 1, c) ELSE 0
RECURSIVE Until(_, _)
Until(i, c) == IF i >= N THEN 0 ELSE IF inp[i + 1] \in c THEN 0 ELSE 1 + Until(i + 1, c)
RECURSIVE Piece(_, _)
Piece(i, j) == IF i > j THEN "" ELSE IF i = j THEN inp[i] ELSE LET m == (i + j) \div 2 IN Piece(i, m) \o Piece(m + 1, j)
Text(i, n) == Piece(i + 1, i + n)
Rest(i) == Piece(i + 1, N)
More(i) == i < N
StartsId(i) == i < N /\ inp[i + 1] \in TokCh
IdLen(i) == Span(i, TokCh)
KindOf(t) == IF Upper(t) = Kws[1] THEN "KW1" ELSE IF Upper(t) = Kws[2] THEN "KW2" ELSE "ID"
TokAt(i) == IF StartsId(i) THEN [t |-> <<Text(i, IdLen(i)), KindOf(Text(i, IdLen(i)))>>, n |-> IdLen(i)]
            ELSE [t |-> <<inp[i + 1], inp[i + 1]>>, n |-> 1]
RECURSIVE Toks(_, _)
Toks(i, k) == IF k = 0 THEN [ok |-> TRUE, ts |-> <<>>, e |-> i]
              ELSE IF i >= N THEN [ok |-> FALSE, ts |-> <<>>, e |-> i]
              ELSE LET h == TokAt(i) r == Toks(i + h.n, k - 1) IN [ok |-> r.ok, ts |-> <<h.t>> \o r.ts, e |-> r.e]
(* a stretch up to the first unescaped byte c: [ok, n]; n excludes c *)
RECURSIVE Esc(_, _)
Esc(i, c) == IF i >= N THEN [ok |-> FALSE, n |-> 0]
             ELSE IF inp[i + 1] = c THEN [ok |-> TRUE, n |-> 0]
             ELSE IF inp[i + 1] = "\\" THEN (IF i + 1 >= N THEN [ok |-> FALSE, n |-> 1]
                                            ELSE LET r == Esc(i + 2, c) IN [r EXCEPT !.n = @ + 2])
             ELSE LET r == Esc(i + 1, c) IN [r EXCEPT !.n = @ + 1]
(* the rest of a comment, from within `deep' comments in it, up to its own end *)
RECURSIVE Nested(_, _)
Nested(i, deep) == IF i >= N THEN [ok |-> FALSE, n |-> 0]
  ELSE IF inp[i + 1] = ")" /\ deep = 0 THEN [ok |-> TRUE, n |-> 0]
  ELSE IF inp[i + 1] = "\\" THEN (IF i + 1 >= N THEN [ok |-> FALSE, n |-> 1] ELSE LET r == Nested(i + 2, deep) IN [r EXCEPT !.n = @ + 2])
  ELSE LET r == Nested(i + 1, IF inp[i + 1] = "(" THEN deep + 1 ELSE IF inp[i + 1] = ")" THEN deep - 1 ELSE deep) IN [r EXCEPT !.n = @ + 1]
RECURSIVE Unesc(_, _)
Unesc(i, n) == IF n = 0 THEN "" ELSE IF inp[i + 1] = "\\" THEN inp[i + 2] \o Unesc(i + 2, n - 2) ELSE inp[i + 1] \o Unesc(i + 1, n - 1)
LineLen(i) == LET u == Until(i, {"\n"}) IN IF i + u < N THEN u + 1 ELSE u
RECURSIVE Lines(_)
Lines(i) == IF i >= N THEN <<>> ELSE <<Text(i, LineLen(i))>> \o Lines(i + LineLen(i))
DigitVal == [d \in Digits |-> CHOOSE k \in 0..9 : ToString(k) = d]
RECURSIVE NumVal(_, _, _)
NumVal(i, n, acc) == IF n = 0 THEN acc ELSE NumVal(i + 1, n - 1, acc * 10 + DigitVal[inp[i + 1]])

W(i, ret, err) == [ret |-> ret, err |-> err, ptr |-> i, rest |-> Rest(i), more |-> More(i)]
WLost == [ret |-> "*", err |-> TRUE, ptr |-> "*", rest |-> "*", more |-> "*"]
Step(op, a, i, ret) == /\ at' = i /\ saved' = -1 /\ lost' = FALSE /\ hist' = Append(hist, S(op, a, W(i, ret, FALSE)))
Fail(op, a) == /\ at' = at /\ saved' = -1 /\ lost' = FALSE /\ hist' = Append(hist, S(op, a, [W(at, "*", TRUE) EXCEPT !.ret = "*"]))
Lose(op, a) == /\ at' = at /\ saved' = -1 /\ lost' = TRUE /\ hist' = Append(hist, S(op, a, WLost))
Peek(op, a, e, ret) == /\ at' = at /\ saved' = e /\ lost' = FALSE /\ hist' = Append(hist, S(op, a, W(at, ret, FALSE)))
One(op, a, i) == IF i < N THEN Step(op, a, at, inp[i + 1]) ELSE Fail(op, a)

MatchChars == {";", "=", "a", " ", "\"", "{e9}", "7"}
Delims == {";", "\n", "\"", ":", "<"}
Scan ==
  \/ One("lookahead", <<>>, at)
  \/ \E k \in 0..3 : One("lookaheadk", <<k>>, at + k)
  \/ IF at < N THEN Step("next", <<>>, at + 1, inp[at + 1]) ELSE Fail("next", <<>>)
  \/ \E k \in 0..3 : at + k <= N /\ Step("consumek", <<k>>, at + k, "*")
  \/ saved >= 0 /\ Step("consume", <<>>, saved, "*")
  \/ Peek("peekid", <<>>, at + IdLen(at), Text(at, IdLen(at)))
  \/ \E o \in {"nextid", "ttoken"} : Step(o, <<>>, at + IdLen(at), Text(at, IdLen(at)))
  \/ LET t == Toks(at, 1) IN IF t.ok THEN Peek("peektok", <<>>, t.e, t.ts[1]) ELSE Fail("peektok", <<>>)
  \/ \E k \in 1..3 : LET t == Toks(at, k) IN IF t.ok THEN Peek("peektoks", <<k>>, t.e, t.ts) ELSE Fail("peektoks", <<k>>)
  \/ LET t == <<Text(at, IdLen(at)), "ID">> IN
       IF StartsId(at) THEN Step("match", <<"ID">>, at + IdLen(at), <<t, t>>) ELSE Fail("match", <<"ID">>)
  \/ \E k \in {"KW1", "KW2"} : LET t == <<Text(at, IdLen(at)), k>> IN
       IF StartsId(at) /\ KindOf(t[1]) = k THEN Step("match", <<k>>, at + IdLen(at), <<t, t>>) ELSE Fail("match", <<k>>)
  \/ \E k \in {"DIGIT", "ALPHA", "WS"} :
       LET set == IF k = "DIGIT" THEN Digits ELSE IF k = "ALPHA" THEN Letters ELSE Blank IN
       IF at < N /\ inp[at + 1] \in set THEN LET t == <<inp[at + 1], k>> IN Step("match", <<k>>, at + 1, <<t, t>>) ELSE Fail("match", <<k>>)
  \/ \E c \in MatchChars : IF at < N /\ inp[at + 1] = c THEN LET t == <<c, c>> IN Step("match", <<c>>, at + 1, <<t, t>>) ELSE Fail("match", <<c>>)
  \/ LET n == Span(at, TokCh \cup Blank) IN Step("ttokenspace", <<>>, at + n, Text(at, n))
  \/ Step("startsid", <<>>, at, StartsId(at))
  \/ Step("sporht", <<>>, at + Span(at, Blank), "*")
  \/ LET n == Span(at, Digits) IN n <= 9 /\ IF n > 0 THEN Step("number", <<>>, at + n, NumVal(at, n, 0)) ELSE Fail("number", <<>>)
  \/ IF at >= N THEN Fail("quoted", <<>>) ELSE IF inp[at + 1] # "\"" THEN Step("quoted", <<>>, at, "")
     ELSE LET r == Esc(at + 1, "\"") IN IF r.ok THEN Step("quoted", <<>>, at + r.n + 2, Text(at + 1, r.n)) ELSE Lose("quoted", <<>>)
  \/ IF at >= N THEN Fail("comment", <<>>) ELSE IF inp[at + 1] # "(" THEN Step("comment", <<>>, at, "")
     ELSE LET r == Nested(at + 1, 0) IN IF r.ok THEN Step("comment", <<>>, at + r.n + 2, Text(at + 1, r.n)) ELSE Lose("comment", <<>>)
  \/ LET n == Until(at, {";", "\n"}) IN Step("nosemi", <<>>, at + n, Text(at, n))
  \/ LET n == Until(at, {",", "\n"}) IN Step("nocomma", <<>>, at + n, Text(at, n))
  \/ \E k \in {0, 1, 3, 9} : LET n == IF at + k > N THEN N - at ELSE k IN Step("nchars", <<k>>, at, Text(at, n))
  \/ \E c \in Delims : LET r == Esc(at, c) IN IF r.ok THEN Step("getstring", <<c>>, at + r.n + 1, Unesc(at, r.n)) ELSE Fail("getstring", <<c>>)
  \/ \E c \in Delims : LET n == Until(at, {c}) IN IF at + n < N THEN Step("delim", <<c>>, at + n, Text(at, n)) ELSE Fail("delim", <<c>>)
  \/ \E o \in {"line", "nexttoken"} : Step(o, <<>>, at + LineLen(at), Text(at, LineLen(at)))
  \/ Step("peekline", <<>>, at, Text(at, LineLen(at)))
  \/ Step("lines", <<>>, N, Lines(at))
  \/ Step("mark", <<>>, at, at)
  \/ \E c \in {"=", ":"} :
       LET n == IdLen(at)
           b == at + n + Span(at + n, Blank)                     \* behind the name and blanks
           v == b + 1 + Span(b + 1, Blank)                       \* at the value
           r == Esc(v + 1, "\"")
       IN IF n = 0 THEN Fail("namevalue", <<c>>)
          ELSE IF b >= N \/ inp[b + 1] # c THEN Step("namevalue", <<c>>, b, <<Text(at, n), <<"">>, FALSE>>)
          ELSE IF v < N /\ inp[v + 1] = "\"" THEN (IF r.ok THEN Step("namevalue", <<c>>, v + r.n + 2, <<Text(at, n), <<Text(v + 1, r.n)>>, TRUE>>)
                                                  ELSE Lose("namevalue", <<c>>))
          ELSE IF v >= N \/ inp[v + 1] \in {";", ",", "\n"} \/ StartsId(v)
               THEN Step("namevalue", <<c>>, v + IdLen(v), <<Text(at, n), <<Text(v, IdLen(v))>>, FALSE>>)
          ELSE Lose("namevalue", <<c>>)
Rewind == \E k \in 0..N : Step("rewind", <<k>>, k, "*")

Init == inp = <<>> /\ at = 0 /\ saved = -1 /\ lost = FALSE /\ ops = -1 /\ hist = <<>>
Grow == /\ ops = -1 /\ Len(inp) < MaxLen /\ \E c \in Alphabet, k \in Runs : inp' = inp \o Rep(c, k)
        /\ UNCHANGED <<at, saved, lost, hist, ops>>
Begin == /\ ops = -1 /\ ops' = 0 /\ UNCHANGED <<inp, at, saved, lost>>
         /\ hist' = <<S("start", <<Concat(inp), Kws>>, [rest |-> Concat(inp), more |-> inp # <<>>, ptr |-> 0, buf |-> Concat(inp)])>>
Run == /\ ops >= 0 /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED inp
       /\ IF lost THEN Rewind ELSE (Scan \/ Rewind)
Next == Grow \/ Begin \/ Run
SimNext == IF ops = -1 /\ Len(inp) < MaxLen THEN Grow ELSE Begin \/ Run
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
View == <<inp, at, saved, lost, ops>>
(* the cursor stays within the input, and what is behind it plus the rest is the input *)
Whole == at <= N /\ Text(0, at) \o Rest(at) = Concat(inp)
(* a quick and a slow definition of the same stretch agree *)
SpanRight == IdLen(at) = 0 \/ \A i \in 1..IdLen(at) : inp[at + i] \in TokCh
EmitStep == ops' >= 1 => Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
Abc == {"a", "B", "7", "-", " ", "\t", "\n", ",", ";", "\"", "\\", "(", ")", "=", ":", "{e9}"}
Brackets == {"(", ")", "\\", "a"}
Small == {"a", "7", " ", ";", "\"", "\\", "=", "\n"}
Wide == Abc \cup {"b", "A", "s", "I", "P", "0", "9", "~", "[", "<", "{00}", "@"}
=============================================================================
