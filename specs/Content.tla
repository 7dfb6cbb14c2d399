------------------------------ MODULE Content ------------------------------
(* P02.  The body of a message, its Content-Type and Content-Length, and every     *)
(* rendering of the message, under any history of setting and removing content.    *)
EXTENDS Common
CONSTANTS Kinds, MaxOps, Doing, Used
VARIABLES kind, body, tab, hist, ops
vars == <<kind, body, tab, hist, ops>>

(* bodies: text and number of bytes; 0 is no body *)
Double(s, k) == LET RECURSIVE D(_, _) D(x, i) == IF i = 0 THEN x ELSE D(x \o x, i - 1) IN D(s, k)
Plenty == Double("0123456789abcdef\r\nX: y, 43.", 12)
Sized(k) == [t |-> SubSeq(Plenty, 1, k), n |-> k]
Long == Concat(Rep("0123456789abcdef", 80))
Bodies == <<
  [t |-> "hello", n |-> 5],
  [t |-> "", n |-> 0],
  [t |-> "v=0\r\no=- 1 1 IN IP4 h\r\n\r\nm=x\n", n |-> 29],
  [t |-> "{c3}{a9}t{c3}{a9} {e2}{82}{ac}", n |-> 9],
  [t |-> "{00}{ff}\r\n\r\n{00}", n |-> 7],
  [t |-> "\r\n", n |-> 2],
  [t |-> "INVITE sip:b@h.org SIP/2.0\r\nContent-Length: 3\r\n\r\nabc", n |-> 52],
  [t |-> Long, n |-> 1280],
  [t |-> " ", n |-> 1],
  (* more lengths and shapes, tried in fewer combinations *)
  Sized(9), Sized(10), Sized(99), Sized(100), Sized(999), Sized(1000), Sized(4095), Sized(4096), Sized(4097), Sized(70000),
  [t |-> "\n\n", n |-> 2], [t |-> "X: y\r\n\r\nbody", n |-> 12], [t |-> "x\r\n", n |-> 3], [t |-> "\t\n \r\n.", n |-> 6], [t |-> "%41%00\\\"%s%d", n |-> 12],
  [t |-> "Content-Length: 0\r\n\r\n", n |-> 21], [t |-> "{80}{81}{fe}{c0}{ff}", n |-> 5], [t |-> "{00}", n |-> 1], [t |-> "{ef}{bb}{bf}x", n |-> 4] >>
Few == 1..9
Every == 1..Len(Bodies)
Wide == Every \ {16, 17, 18, 19}
ASSUME \A b \in {1, 2, 3, 6, 7, 8, 9} \cup 10..25 : Len(Bodies[b].t) = Bodies[b].n
Text(b) == IF b = 0 THEN "" ELSE Bodies[b].t
Size(b) == IF b = 0 THEN 0 ELSE Bodies[b].n

(* the headers in their order: "L" Content-Length, "T" Content-Type with its value, "S" Subject *)
Has(t, x) == \E i \in 1..Len(t) : t[i][1] = x
Remove(t, x) == SelectSeq(t, LAMBDA r : r[1] # x)
Put(t, x, v) == Append(Remove(t, x), <<x, v>>)
WithLength(t) == IF Has(t, "L") THEN t ELSE Append(t, <<"L", "">>)
Value(t, x) == t[CHOOSE i \in 1..Len(t) : t[i][1] = x][2]
Row(r, b) == CASE r[1] = "L" -> "Content-Length: " \o ToString(Size(b)) \o CRLF
               [] r[1] = "T" -> "Content-Type: " \o r[2] \o CRLF
               [] r[1] = "S" -> "Subject: " \o r[2] \o CRLF
Start(k) == IF k = "request" THEN "OPTIONS sip:u@h.org SIP/2.0\r\n" ELSE IF k = "response" THEN "SIP/2.0 200 OK\r\n" ELSE ""
Rows(t, b, x) == Concat(Map(SelectSeq(t, LAMBDA r : (r[1] = "L") = x), LAMBDA r : Row(r, b)))
Whole(k, t, b) == Start(k) \o Rows(t, b, FALSE) \o Rows(t, b, TRUE) \o CRLF \o Text(b)
Head1(k) == IF k = "bare" THEN <<>> ELSE <<Start(k)>>

Views(k, t, b) == <<
  <<"EncodeAsBytes", Whole(k, t, b)>>, <<"GetMessageContent", Text(b)>>, <<"GetContent", Text(b)>>, <<"HasContent", Text(b) # "">>,
  <<"GetContentLength", IF Has(t, "L") THEN Row(<<"L", "">>, b) ELSE "<none>">>,
  <<"GetHeader|content-LENGTH", IF Has(t, "L") THEN Row(<<"L", "">>, b) ELSE "<none>">>,
  <<"GetContentTypeHeader", IF Has(t, "T") THEN Row(<<"T", Value(t, "T")>>, b) ELSE "<none>">>,
  <<"GetMessageAsEncodedStrings", Head1(k) \o Map(t, LAMBDA r : Row(r, b))>> >>
Show(k, t, b) == [str |-> Whole(k, t, b), get |-> Views(k, t, b)]
Getters == <<"String">> \o Map(Views("bare", <<>>, 0), LAMBDA p : p[1])
Wn(err, objs) == [err |-> err, ret |-> "*", objs |-> objs]
Fresh == <<<<"L", "">>>>

Begin(k) == <<S("new", <<1, IF k = "bare" THEN "request" ELSE k>>, Wn(FALSE, <<>>))>>
  \o (IF k = "request" THEN <<S("call", <<1, "SetRequestLine", <<[requestline |-> "OPTIONS sip:u@h.org SIP/2.0"]>>>>, Wn(FALSE, <<>>))>>
      ELSE IF k = "response" THEN <<S("call", <<1, "SetStatusLine", <<[statusline |-> "SIP/2.0 200 OK"]>>>>, Wn(FALSE, <<>>))>> ELSE <<>>)
  \o <<S("look", <<1, Getters>>, Wn(FALSE, <<Show(k, Fresh, 0)>>))>>
Init == kind \in Kinds /\ body = 0 /\ tab = Fresh /\ ops = 0 /\ hist = <<>>
Do(t, b, op, a) == /\ ops < MaxOps /\ ops' = ops + 1 /\ tab' = t /\ body' = b /\ UNCHANGED kind
                   /\ hist' = Append(hist, <<op, a, t, b>>)
Call(t, b, m, a) == Do(t, b, "call", <<1, m, a>>)

As(b, bytes) == IF bytes THEN [bytes |-> Bodies[b].t] ELSE [text |-> Bodies[b].t]
Setting == \E b \in Used :
   \/ Call(WithLength(tab), b, "SetMessageContent", <<Bodies[b].t>>)
   \/ Call(WithLength(tab), b, "SetMessageContentFromByte", <<As(b, TRUE)>>)
   \/ Call(WithLength(Put(tab, "T", "text/plain")), b, "SetMessageContentFromString", <<"text", "plain", Bodies[b].t>>)
   \/ Call(WithLength(Put(tab, "T", "application/x-1")), b, "SetMessageContent3", <<"application", "x-1", As(b, TRUE)>>)
   \/ \E bytes \in BOOLEAN : Call(WithLength(Put(tab, "T", "application/sdp;a=b")), b, "SetContent", <<As(b, bytes), [header |-> "Content-Type: application/sdp;a=b"]>>)
Removing == Call(WithLength(tab), 0, "RemoveContent", <<>>)
(* edits of headers around it *)
Around ==
   \/ Call(Put(tab, "S", "x y"), body, "SetHeader", <<[header |-> "Subject: x y"]>>)
   \/ Call(Put(tab, "T", "text/html"), body, "SetHeader", <<[header |-> "Content-Type: text/html"]>>)
   \/ Call(Remove(tab, "T"), body, "RemoveHeader", <<"content-type">>)
   \/ Text(body) = "" /\ Call(Remove(tab, "L"), body, "RemoveHeader", <<"Content-Length">>)
(* encoded and parsed: what is there stays there *)
Parsed(t) == Fresh \o Remove(t, "L")
Again == kind # "bare" /\ Has(tab, "L") /\ \E m \in {"message", "messagebytes"} : Do(Parsed(tab), body, "reparse", <<1, m>>)

Next == \/ "set" \in Doing /\ Setting
        \/ "remove" \in Doing /\ Removing
        \/ "around" \in Doing /\ Around
        \/ "parse" \in Doing /\ Again
Spec == Init /\ [][Next]_vars
View == <<kind, body, tab, ops>>
OneLength == Len(SelectSeq(tab, LAMBDA r : r[1] = "L")) <= 1 /\ (Text(body) # "" => Has(tab, "L"))
Looked(e) == S(e[1], e[2], Wn(FALSE, <<Show(kind, e[3], e[4])>>))
Blind(e) == IF e[1] = "call" THEN S("do", e[2], [err |-> FALSE]) ELSE S(e[1], e[2], Wn(FALSE, "*"))
EmitStep == Emit(Begin(kind) \o [i \in 1..Len(hist') |-> IF i = Len(hist') THEN Looked(hist'[i]) ELSE Blind(hist'[i])])
EmitLast == ops' = MaxOps => Emit(Begin(kind) \o Map(hist', Looked))
=============================================================================
