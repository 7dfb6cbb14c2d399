------------------------------ MODULE WireMsg ------------------------------
(* P03, P04, P05.  A message as it comes on the wire, growing line by line, and what *)
(* it means: however it is spelled it is parsed to the same message, whose encoding  *)
(* is canonical and is parsed to itself.  Lines that are not well formed fail the    *)
(* parsing, or are put before the exception listener and cost the message only them. *)
EXTENDS WireTable, BadTable
CONSTANTS Used, Rich, Names, Spaces, Ends, Starts, Frames, MaxOps, Bads, OneOf(_)
VARIABLES start, frame, lines, tab, ops
vars == <<start, frame, lines, tab, ops>>

(* ---- lines that are not well formed: those of the table, and lists of which a value is missing or not well formed *)
Lists == SelectSeq(Wire, LAMBDA h : h.list /\ ~h.rows)
BadValues(n) == LET own == SelectSeq(BadHeaders, LAMBDA b : Len(b) > Len(n) + 2 /\ SubSeq(b, 1, Len(n) + 2) = n \o ": ")
                IN Map(own, LAMBDA b : SubSeq(b, Len(n) + 3, Len(b)))
SpoiltLists == Flat(Map(Lists, LAMBDA h : LET g == h.vals[1].c IN
   << h.n \o ": " \o g \o ",", h.n \o ": ," \o g, h.n \o ": " \o g \o ",," \o g, h.n \o ": " \o g \o ";;x=y" >>
   \o Map(BadValues(h.n), LAMBDA b : h.n \o ": " \o g \o "," \o b)
   \o Map(BadValues(h.n), LAMBDA b : h.n \o ": " \o g \o ", " \o h.vals[2].c \o ", " \o b)))
BadLines == BadHeaders \o SpoiltLists

(* ---- what is put where white space may stand: it may fold the line, or be only blanks *)
Space == <<"", " ", "\t", "   ", "\r\n ", "\n\t", " \r\n \t", "\r\n \r\n  ">>
Blank == <<"", " ", "\t", "   ", "", "\t", " ", "  ">>
EndOf == <<"\r\n", "\n">>
(* a name as it is defined, in small letters, in capitals, in mixed ones, and compact *)
Mixed(n) == Upper(SubSeq(n, 1, 1)) \o Lower(SubSeq(n, 2, Len(n)))
Swapped(n) == Lower(SubSeq(n, 1, 1)) \o Upper(SubSeq(n, 2, Len(n)))
Spelled(n, short) == <<n, Lower(n), Upper(n), Swapped(n), IF short = "" THEN Mixed(n) ELSE short, IF short = "" THEN n ELSE Upper(short)>>
Forms == [k \in 1..Len(Wire) |-> Spelled(Wire[k].n, Wire[k].short)]
LengthForms == Spelled("Content-Length", "l")
(* a line: header, values, spelling of the name, white space, line end *)
(* or a line that is not well formed, with header number 0 *)
LineText(l) == IF l.k = 0 THEN BadLines[l.f] \o EndOf[l.e] ELSE LET s == Space[l.s] b == Blank[l.s]
  IN Forms[l.k][l.f] \o b \o ":" \o s \o Join(Map(l.v, LAMBDA i : Join(Wire[l.k].vals[i].w, s)), s \o "," \o s) \o b \o EndOf[l.e]

(* ---- start lines and what they are encoded as *)
StartLines == << <<"INVITE sip:bob:pw@[2001:db8::1]:5070;transport=tcp;lr?a=b SIP/2.0", TRUE>>, <<"SIP/2.0 200 OK", FALSE>>,
   <<"INVITE sips:h.org SIP/2.0", TRUE>>, <<"SIP/2.0 699 A b; c: {c3}{a9}, d", FALSE>>, <<"invite sip:+1-2;x=y@h.org;user=phone SIP/2.0", TRUE>>,
   <<"SIP/2.0 100 Trying: Via: x", FALSE>> >>
(* the start lines numbered from 101 on are not well formed *)
StartText(st) == IF st > 100 THEN BadStarts[st - 100] ELSE StartLines[st][1]
Asks(st) == IF st > 100 THEN SubSeq(BadStarts[st - 100] \o "       ", 1, 7) # "SIP/2.0" ELSE StartLines[st][2]
First(st) == IF st > 100 THEN "" ELSE StartLines[st][1] \o CRLF
(* ---- bodies: text and number of bytes *)
Bodies == << <<"", 0>>, <<"hello", 5>>, <<"\r\nVia: x\r\n\r\n", 12>>, <<"{00}{ff}\n \t", 5>>, <<"{c3}{a9}{e2}{82}{ac}", 5>>, <<" ", 1>>, <<"\n", 1>>,
   <<"INVITE sip:b@h.org SIP/2.0\r\nContent-Length: 3\r\n\r\nabc", 52>> >>
(* a frame: empty lines before, line end of start line and length, empty line, body, place, spelling and white space of the length, what follows *)
Lead == <<"", "\r\n", "\n", "\r\n\r\n", "\n\r\n">>
EmptyLine == <<"\r\n", "\n">>
Trail == <<"", "X", "\r\n\r\n", "SIP/2.0 100 Trying\r\nContent-Length: 0\r\n\r\n">>
LengthText(f, n) == LengthForms[f.f] \o Blank[f.s] \o ":" \o Space[f.s] \o n \o Blank[f.s] \o EndOf[f.e]
Frame(lead, e, z, b, place, f, s, t) == [lead |-> lead, e |-> e, z |-> z, body |-> b, place |-> place, f |-> f, s |-> s, t |-> t]
OneFrame == {Frame(1, 1, 1, 2, "last", 1, 2, 1)}
TwoFrames == {Frame(1, 1, 1, 1, "none", 1, 2, 1), Frame(1, 1, 1, 8, "first", 1, 2, 1)}
PlainFrames == {Frame(1, 1, 1, b, p, 1, 2, 1) : b \in 1..8, p \in {"first", "last"}} \cup {Frame(1, 1, 1, 1, "none", 1, 2, 1)}
AllFrames == {Frame(l, e, z, b, p, f, s, t) : l \in 1..5, e \in 1..2, z \in 1..2, b \in 1..8, p \in {"first", "middle", "last"}, f \in 1..6, s \in 1..8, t \in 1..4}
   \cup {Frame(l, e, z, 1, "none", 1, 1, 1) : l \in 1..5, e \in 1..2, z \in 1..2}
(* every part of a frame with every other, two by two *)
PairFrames == {x \in AllFrames : Cardinality({i \in 1..7 : <<x.lead, x.e, x.z, x.body, x.f, x.s, x.t>>[i] # 1}) <= 2}

HeadedAs(st, fr, ls, n) ==
  LET h == Len(ls) \div 2
      some(a, b) == Concat(Map(SubSeq(ls, a, b), LineText))
      len(p) == IF fr.place = p THEN LengthText(fr, n) ELSE ""
  IN Lead[fr.lead] \o StartText(st) \o EndOf[fr.e] \o len("first") \o some(1, h) \o len("middle") \o some(h + 1, Len(ls)) \o len("last")
     \o EmptyLine[fr.z]
Headed(st, fr, ls) == HeadedAs(st, fr, ls, ToString(Bodies[fr.body][2]))
Wired(st, fr, ls) == Headed(st, fr, ls) \o Bodies[fr.body][1] \o Trail[fr.t]

(* ---- the meaning: rows of header and values, in order *)
Has(t, k) == \E i \in 1..Len(t) : t[i][1] = k
At(t, k) == CHOOSE i \in 1..Len(t) : t[i][1] = k
Attach(t, k, vs) == IF Has(t, k) THEN [t EXCEPT ![At(t, k)] = <<k, @[2] \o vs>>] ELSE Append(t, <<k, vs>>)
(* a value is <<its number, how its header's name was spelled>>; a name the library does not know is kept as spelled *)
Known(k) == Wire[k].n \notin {"X-Ext", "P-Other"}
NameOf(k, f) == IF Known(k) THEN Wire[k].n ELSE Forms[k][f]
Line(k, v) == NameOf(k, v[2]) \o ": " \o Wire[k].vals[v[1]].c \o CRLF
Row(r) == IF Wire[r[1]].rows THEN Concat(Map(r[2], LAMBDA v : Line(r[1], v)))
          ELSE Wire[r[1]].n \o ": " \o Join(Map(r[2], LAMBDA v : Wire[r[1]].vals[v[1]].c), ",") \o CRLF
LengthLine(fr) == "Content-Length: " \o ToString(Bodies[fr.body][2]) \o CRLF
Canonical(st, fr, t) == First(st) \o Concat(Map(t, Row)) \o LengthLine(fr) \o CRLF \o Bodies[fr.body][1]
Views(st, fr, t) ==
  << <<"EncodeAsBytes", Canonical(st, fr, t)>>, <<"GetFirstLine", First(st)>>, <<"GetMessageContent", Bodies[fr.body][1]>>,
     <<"GetHeaderNames", Map(t, LAMBDA r : NameOf(r[1], r[2][1][2])) \o <<"Content-Length">> >>, <<"GetHeader|content-length", LengthLine(fr)>> >>
  \o Map(t, LAMBDA r : <<"GetHeaders|" \o Lower(Wire[r[1]].n), Map(r[2], LAMBDA v : Line(r[1], v))>>)
Show(st, fr, t) == [str |-> Canonical(st, fr, t), get |-> Views(st, fr, t)]
Wn(err, ret, o) == [err |-> err, ret |-> ret, objs |-> o]
Same == <<Show(start', frame', tab')>>
Kind(st) == IF Asks(st) THEN "request" ELSE "response"
Text == Wired(start', frame', lines')
(* what the listener is to hear of *)
Lost == Opt(start' > 100, StartText(start')) \o Map(SelectSeq(lines', LAMBDA l : l.k = 0), LAMBDA l : BadLines[l.f])
Watch == S("look", <<1, <<"String">> \o Map(Views(start', frame', tab'), LAMBDA p : p[1])>>, Wn(FALSE, "*", Same))
(* a line by itself, as a header *)
Alone == IF Len(lines') # 1 THEN <<>> ELSE <<
  S("parse", <<2, "sipheader", LineText(lines'[1])>>, Wn(FALSE, "*", "*")),
  S("look", <<2, <<"String">>>>, Wn(FALSE, "*", Same \o <<[str |-> Row(tab'[1]), get |-> <<>>]>>))>>
Behaviour ==
  IF Lost = <<>> THEN <<S("parse", <<1, Kind(start'), Text>>, Wn(FALSE, "*", <<>>)), Watch,
     S("reparse", <<1, "message">>, Wn(FALSE, "*", Same)), S("reparse", <<1, "messagebytes">>, Wn(FALSE, "*", Same))>> \o Alone
  ELSE <<S("outcome", <<"message", Text>>, [ret |-> "error"]), S("listen", <<1, Text, 0>>, Wn(FALSE, Lost, <<>>)), Watch>>
     \o (IF Len(lines') = 1 /\ lines'[1].k = 0 THEN <<S("outcome", <<"sipheader", LineText(lines'[1])>>, [ret |-> "error"])>> ELSE <<>>)
     \o [i \in 1..Len(Lost) |-> S("listen", <<2, Text, i>>, Wn(TRUE, SubSeq(Lost, 1, i), Same))]

Every(s) == s
AnyOne(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
Init == start \in OneOf(Starts) /\ frame \in OneOf(Frames) /\ lines = <<>> /\ tab = <<>> /\ ops = 0
Free == {k \in Used : Wire[k].list \/ ~Has(tab, k)}
Upto(k) == IF Rich THEN Len(Wire[k].vals) ELSE Wire[k].few
Several(k) == {<<1>>, <<2>>} \cup {<<i>> : i \in 3..Upto(k)}
              \cup (IF Wire[k].list /\ ~Wire[k].rows THEN {<<1, 2>>, <<2, 3, 1>>} \cup {<<i, 2>> : i \in 4..Upto(k)} \cup
                      (IF Rich THEN {<<1, 2, 3, 2, 1, 3, 3, 2, 1, 2, 3, 1, 1>>} \cup {<<2, i, 1>> : i \in Wire[k].few + 1..Upto(k)} ELSE {}) ELSE {})
Adding == /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<start, frame>>
       /\ \E k \in OneOf(Free) : \E v \in OneOf(Several(k) \cap {x \in Several(k) : \A i \in 1..Len(x) : x[i] <= Len(Wire[k].vals)}) :
          \E f \in OneOf(Names), s \in OneOf(Spaces), e \in OneOf(Ends) :
            /\ lines' = Append(lines, [k |-> k, v |-> v, f |-> f, s |-> s, e |-> e])
            /\ tab' = Attach(tab, k, Map(v, LAMBDA i : <<i, f>>))
Spoiling == /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<start, frame, tab>>
            /\ \E b \in OneOf(Bads), e \in OneOf(Ends) : lines' = Append(lines, [k |-> 0, v |-> <<>>, f |-> b, s |-> 1, e |-> e])
(* the frame alone, without any line *)
Closed == ops = 0 /\ MaxOps = 0 /\ ops' = 1 /\ UNCHANGED <<start, frame, lines, tab>>
Next == Adding \/ Spoiling \/ Closed
Spec == Init /\ [][Next]_vars

(* on the specification itself: no value is lost, and each stands in its row in order *)
Kept == \A k \in Used : LET own == Flat(Map(SelectSeq(lines, LAMBDA l : l.k = k), LAMBDA l : l.v))
                        IN own = (IF Has(tab, k) THEN Map(tab[At(tab, k)][2], LAMBDA v : v[1]) ELSE <<>>)
EmitStep == Emit(Behaviour)
(* every prefix: nothing but line ends is no message, one that ends before the body does is an error *)
Prefixes == LET lead == Len(Lead[frame'.lead])
                whole == Len(Headed(start', frame', lines')) + Bodies[frame'.body][2]
            IN <<<<"nothing", lead + 1>>, <<"error", whole - lead - 1>>, <<"result", Len(Trail[frame'.t]) + 1>>>>
(* a length greater than what there is *)
Excess(fr) == <<ToString(Bodies[fr.body][2] + Len(Trail[fr.t]) + 1), "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775700", "9223372036854775807", "9223372036854775808", "18446744073709551616">>
Exceeding(n) == <<"message", HeadedAs(start', frame', lines', n) \o Bodies[frame'.body][1] \o Trail[frame'.t]>>
EmitPrefixes ==
  /\ frame'.place # "none" => Emit(Map(Excess(frame'), LAMBDA n : S("outcome", Exceeding(n), [ret |-> "error"])))
  /\ Emit([i \in 1..2 |-> S("prefixes", <<<<"message", "messagebytes">>[i], Text>>, [ret |-> Prefixes])])
AllHeaders == 1..Len(Wire)
None == {}
AllBads == 1..Len(BadLines)
AnyStart == {1, 2} \cup {100 + i : i \in 1..Len(BadStarts)}
GoodStart == {1}
Short == {1, 28, 30, 50}
=============================================================================
