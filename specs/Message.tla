------------------------------ MODULE Message ------------------------------
(* P01.  The headers of a message under any edits: one ordered table keyed by the  *)
(* name whatever its letter case, of which every view of the message tells alike.  *)
EXTENDS MessageTable
CONSTANTS Used, Kind, MaxOps, Doing, OneOf(_)
VARIABLES tab, loose, hist, ops
vars == <<tab, loose, hist, ops>>

(* tab: the rows <<header number, values>> in order; Content-Length is row number 0 *)
Length == <<0, <<"0">>>>
NameOf(k) == IF k = 0 THEN "Content-Length" ELSE Headers[k].n
Has(t, k) == \E i \in 1..Len(t) : t[i][1] = k
At(t, k) == CHOOSE i \in 1..Len(t) : t[i][1] = k
Vals(t, k) == IF Has(t, k) THEN t[At(t, k)][2] ELSE <<>>
Line(k, v) == NameOf(k) \o ": " \o v
Lines(k, vs) == IF k # 0 /\ Headers[k].list /\ ~Headers[k].rows THEN <<Line(k, Join(vs, ","))>> ELSE Map(vs, LAMBDA v : Line(k, v))

(* ---- editing the table *)
Attach(t, k, vs, top) ==
  IF vs = <<>> THEN t
  ELSE IF ~Has(t, k) THEN Append(t, <<k, vs>>)
  ELSE IF ~Headers[k].list THEN t
  ELSE [t EXCEPT ![At(t, k)] = <<k, IF top THEN vs \o @[2] ELSE @[2] \o vs>>]
Remove(t, k) == SelectSeq(t, LAMBDA r : r[1] # k)
Put(t, k, vs) == IF vs = <<>> THEN t ELSE Append(Remove(t, k), <<k, vs>>)
Less(t, k, top) == LET vs == Vals(t, k) IN
  IF Len(vs) <= 1 THEN Remove(t, k)
  ELSE [t EXCEPT ![At(t, k)] = <<k, IF top THEN Tail(vs) ELSE SubSeq(vs, 1, Len(vs) - 1)>>]

(* ---- every view *)
Mixed(n) == Upper(SubSeq(n, 1, 1)) \o Lower(SubSeq(n, 2, Len(n)))
None == "<none>"
Start == IF Kind = "request" THEN "INVITE sip:u@h.org SIP/2.0\r\n" ELSE "SIP/2.0 200 OK\r\n"
WithoutLength(t) == SelectSeq(t, LAMBDA r : r[1] # 0)
Ordered(t) == WithoutLength(t) \o SelectSeq(t, LAMBDA r : r[1] = 0)
Text(t) == Start \o Concat(Map(Flat(Map(Ordered(t), LAMBDA r : Lines(r[1], r[2]))), LAMBDA l : l \o CRLF)) \o CRLF
Strings(t) == <<Start>> \o Flat(Map(t, LAMBDA r : Map(r[2], LAMBDA v : Line(r[1], v) \o CRLF)))
First(t, k) == IF Has(t, k) THEN Line(k, Vals(t, k)[1]) \o CRLF ELSE None
RECURSIVE Merge(_)
Merge(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) @@ Merge(Tail(fs))
(* a view is <<how it is asked for, what it answers>> *)
ByName(t, k) ==
  LET n == NameOf(k)
      each == Map(Vals(t, k), LAMBDA v : Line(k, v) \o CRLF)
      first == First(t, k)
      all == IF each = <<>> THEN None ELSE each
  IN <<<<"HasHeader|" \o Upper(n), Has(t, k)>>, <<"HasHeader|" \o n, Has(t, k)>>, <<"GetHeaders|" \o Lower(n), each>>, <<"GetHeaders|" \o n, each>>,
       <<"GetHeaderList|" \o Mixed(n), all>>, <<"GetHeader|" \o Upper(n), first>>, <<"GetHeader|" \o Mixed(n), first>>>>
     \o (IF k # 0 /\ Headers[k].get # "" THEN <<<<Headers[k].get, first>>>> ELSE <<>>)
     \o (IF k # 0 /\ Headers[k].all # "" THEN <<<<Headers[k].all, all>>>> ELSE <<>>)
Special(t, k) ==
  CASE k = No("From") -> LET g == IF Has(t, k) THEN TagIn(Vals(t, k)[1]) ELSE "" IN <<<<"GetFromTag", g>>, <<"HasFromTag", g # "">>>>
    [] k = No("To") -> LET g == IF Has(t, k) THEN TagIn(Vals(t, k)[1]) ELSE "" IN <<<<"GetToTag", g>>, <<"HasToTag", g # "">>>>
    [] k = No("CSeq") -> <<<<"GetCSeqNumber", IF Has(t, k) THEN SeqNo(Vals(t, k)[1]) ELSE -1>>>>
    [] k = No("Call-ID") -> <<<<"GetCallIdentifier", IF Has(t, k) THEN Vals(t, k)[1] ELSE "">>>>
    [] OTHER -> <<>>
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o SeqOf(s \ {x})
Watched == <<0>> \o SeqOf(Used)
Views(t, u) == Flat(Map(Watched, LAMBDA k : ByName(t, k) \o Special(t, k))) \o
  << <<"GetHeaderNames", Map(Ordered(t), LAMBDA r : NameOf(r[1]))>>, <<"GetMessageAsEncodedStrings", Strings(t)>>,
     <<"GetContentLength", IF Has(t, 0) THEN "Content-Length: 0\r\n" ELSE None>>,
     <<"HasHeader|X-Never", FALSE>>, <<"GetHeader|x-never", None>>, <<"GetHeaders|X-NEVER", <<>>>>, <<"GetHeaderList|X-Never", None>>,
     <<"GetUnrecognizedHeaders", u>> >>
Show(t, u) == [str |-> Text(t), get |-> Views(t, u)]
Wn(err, objs) == [err |-> err, ret |-> "*", objs |-> objs]

Getters == <<"String">> \o Map(Views(<<Length>>, <<>>), LAMBDA p : p[1])

Begin == <<S("new", <<1, Kind>>, Wn(FALSE, <<>>)),
           IF Kind = "request" THEN S("call", <<1, "SetRequestLine", <<[requestline |-> "INVITE sip:u@h.org SIP/2.0"]>>>>, Wn(FALSE, <<>>))
           ELSE S("call", <<1, "SetStatusLine", <<[statusline |-> "SIP/2.0 200 OK"]>>>>, Wn(FALSE, <<>>)),
           S("look", <<1, Getters>>, Wn(FALSE, <<Show(<<Length>>, <<>>)>>))>>
(* the history keeps what was done and what the table became *)
Init == tab = <<Length>> /\ loose = <<>> /\ ops = 0 /\ hist = <<>>
Do(t, u, m, a) == /\ ops < MaxOps /\ ops' = ops + 1 /\ tab' = t /\ loose' = u
                  /\ hist' = Append(hist, <<m, a, t, u>>)
Edit(t, m, a) == Do(t, loose, m, a)
Cased(n) == {n, Upper(n), Mixed(n)}
Parts(k) == IF Headers[k].list THEN {<<1>>, <<2>>, <<2, 3>>} ELSE {<<1>>, <<2>>}
Given(k, p) == Map(p, LAMBDA i : Headers[k].vals[i])
(* a list is given on one line, an authentication or extension value alone *)
Able(k, p) == Len(p) = 1 \/ ~Headers[k].rows
AsList(k, p) == [header |-> Line(k, Join(Given(k, p), ","))]
AsValue(k, p) == [element |-> Line(k, Given(k, p)[1])]

Attaching == \E k \in OneOf(Used) : \E p \in Parts(k) : Able(k, p) /\
   \/ Edit(Attach(tab, k, Given(k, p), FALSE), "AttachHeader", <<AsList(k, p)>>)
   \/ Len(p) = 1 /\ Headers[k].list /\ Edit(Attach(tab, k, Given(k, p), FALSE), "AttachHeader", <<AsValue(k, p)>>)
   \/ Edit(Attach(tab, k, Given(k, p), FALSE), "AttachHeader2", <<AsList(k, p), FALSE>>)
   \/ Edit(Attach(tab, k, Given(k, p), TRUE), "AttachHeader3", <<AsList(k, p), FALSE, TRUE>>)
(* a Via added by itself goes on top, any other header last *)
Adding == \E k \in OneOf(Used) : \E p \in Parts(k) : Able(k, p) /\
   \/ Len(p) = 1 /\ Edit(Attach(tab, k, Given(k, p), k = No("Via")), "AddHeader", <<AsValue(k, p)>>)
   \/ k # No("Via") /\ Edit(Attach(tab, k, Given(k, p), FALSE), "AddHeader", <<AsList(k, p)>>)
   \/ \E j \in OneOf(Used) : j # k /\ Edit(Attach(Attach(tab, k, Given(k, p), FALSE), j, Given(j, <<1>>), FALSE), "SetHeaders",
        <<[headers |-> <<Line(k, Join(Given(k, p), ",")), Line(j, Given(j, <<1>>)[1])>>]>>)
Setting == \E k \in OneOf(Used) : \E p \in Parts(k) : Able(k, p) /\
   \/ Edit(Put(tab, k, Given(k, p)), "SetHeader", <<AsList(k, p)>>)
   \/ Len(p) = 1 /\ Headers[k].list /\ Edit(Put(tab, k, Given(k, p)), "SetHeader", <<AsValue(k, p)>>)
   \/ Edit(Put(tab, k, Given(k, p)), "AttachHeader3", <<AsList(k, p), TRUE, FALSE>>)
   \/ Headers[k].set # "" /\ (Headers[k].all # "" \/ Len(p) = 1)
      /\ Edit(Put(tab, k, Given(k, p)), Headers[k].set, <<IF Headers[k].list /\ Headers[k].all = "" THEN AsValue(k, p) ELSE AsList(k, p)>>)
Removing == \E k \in OneOf(Used) : \E n \in Cased(Headers[k].n) :
   \/ Edit(Remove(tab, k), "RemoveHeader", <<n>>)
   \/ \E top \in BOOLEAN : Edit(Less(tab, k, top), "RemoveHeader2", <<n, top>>)
Lengthless == Edit(Remove(tab, 0), "RemoveHeader", <<"content-length">>)
(* a value changed where it stands *)
Inside ==
   \/ \E k \in OneOf(Used \cap {No("From"), No("To")}) : \E g \in 1..Len(Tags) :
        Edit(IF Has(tab, k) THEN [tab EXCEPT ![At(tab, k)] = <<k, <<Retag(@[2][1], g)>>>>] ELSE tab,
             IF k = No("From") THEN "SetFromTag" ELSE "SetToTag", <<Tags[g]>>)
   \/ No("Call-ID") \in Used /\ \E v \in {"c1@x.org", "c2"} :
        Edit(IF Has(tab, No("Call-ID")) THEN [tab EXCEPT ![At(tab, No("Call-ID"))] = <<No("Call-ID"), <<v>>>>] ELSE Append(tab, <<No("Call-ID"), <<v>>>>),
             "SetCallIdFromString", <<v>>)
(* what must change nothing *)
Idle ==
   \/ \E k \in OneOf(Used) : Headers[k].list /\ ~Headers[k].rows /\ \E m \in {"AttachHeader", "SetHeader", "AddHeader"} : Edit(tab, m, <<[emptylist |-> Headers[k].n]>>)
   \/ Edit(tab, "RemoveHeader", <<"X-Never">>) \/ Edit(tab, "RemoveHeader2", <<"X-Never", TRUE>>)
   \/ Len(loose) < 2 /\ Do(tab, Append(loose, "garbled"), "AddUnparsed", <<"garbled">>)

Next == \/ "attach" \in Doing /\ Attaching
        \/ "add" \in Doing /\ Adding
        \/ "set" \in Doing /\ Setting
        \/ "remove" \in Doing /\ (Removing \/ Lengthless)
        \/ "inside" \in Doing /\ Inside
        \/ "idle" \in Doing /\ Idle
Spec == Init /\ [][Next]_vars
View == <<tab, loose, ops>>

(* on the specification itself: one row for a name, never an empty one, singles single *)
OneTable == /\ \A i, j \in 1..Len(tab) : tab[i][1] = tab[j][1] => i = j
            /\ \A i \in 1..Len(tab) : tab[i][2] # <<>> /\ (tab[i][1] # 0 => (Headers[tab[i][1]].list \/ Len(tab[i][2]) = 1))
Looked(e) == S("call", <<1, e[1], e[2]>>, Wn(FALSE, <<Show(e[3], e[4])>>))
Blind(e) == S("do", <<1, e[1], e[2]>>, [err |-> FALSE])
(* exhaustively every header, in simulation one drawn at random *)
Every(s) == s
AnyOne(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
EmitStep == Emit(Begin \o [i \in 1..Len(hist') |-> IF i = Len(hist') THEN Looked(hist'[i]) ELSE Blind(hist'[i])])
EmitLast == ops' = MaxOps => Emit(Begin \o Map(hist', Looked))
=============================================================================
