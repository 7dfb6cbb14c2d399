----------------------------- MODULE HeaderList -----------------------------
(* P10, P12, P16.  Headers of one name in lists: every value keeps its own fields, *)
(* parameters and position, whatever happens to the others; lists are joined,      *)
(* copied, encoded as one line (or one line for each) and parsed back.             *)
EXTENDS Header
(* objs: the values, the second half being what copies are made of; lists: two      *)
(* lists, as sequences of the numbers of the values they hold                       *)
CONSTANTS Joining, OneOf(_)
VARIABLE lists
lvars == <<kind, objs, hist, ops, lists>>
NV == NObj \div 2
ListId(l) == 100 + l

(* the values differ from the start *)
Start2(k, id) == LET s == Start(k) pick(f, d) == IF d = 0 THEN 0 ELSE 1 + ((id - 1) % f.few) IN
  [own |-> [i \in 1..Len(s.own) |-> IF Table[k][i].own THEN pick(Table[k][i], s.own[i]) ELSE 0],
   pars |-> Flat([i \in 1..Len(Table[k]) |-> IF ~Table[k][i].own /\ Table[k][i].man
                THEN <<[n |-> Table[k][i].par, v |-> <<Table[k][i].vals[pick(Table[k][i], 1)].t>>, q |-> Table[k][i].q]>> ELSE <<>>])]
Build2(k, id) == LET s == Start2(k, id) IN <<S("new", <<id, k>>, Wn(FALSE, <<>>))>> \o Flat([i \in 1..Len(Table[k]) |->
   LET f == Table[k][i] v == 1 + ((id - 1) % f.few) IN
   IF f.man \/ f.ini = 1 THEN <<S("call", <<id, f.set, f.vals[v].a>>, Wn(FALSE, <<>>))>> ELSE <<>>])

(* ---- what is observed: the values in use, then the lists *)
Rows(k) == k \in {"WWW-Authenticate", "Proxy-Authenticate"}
OneLine(k, o) == TextLine(k, o, "") \o CRLF
BodyOf(k, o, s) == Body(k, OwnTexts(k, o), o.pars, s)
Bodies(k, os, l, s) == Join(Map(l, LAMBDA i : BodyOf(k, os[i], s)), s \o "," \o s)
ListText(k, os, l) == IF Rows(k) /\ l # <<>> THEN Concat(Map(l, LAMBDA i : OneLine(k, os[i]))) ELSE Name(k) \o ":" \o (IF l = <<>> THEN "" ELSE " ") \o Bodies(k, os, l, "") \o CRLF
ListGetters(k) == <<"String", "EncodeBody", "Len", "GetHeadersAsEncodedStrings", "GetName">>
  \o (IF k \in {"Allow", "Allow-Events"} THEN <<"GetMethods">> ELSE IF k = "Contact" THEN <<"GetContacts">> ELSE <<>>)
ShowList(k, os, l) == [str |-> ListText(k, os, l),
   get |-> << <<"EncodeBody", Bodies(k, os, l, "")>>, <<"Len", Len(l)>>, <<"GetName", Name(k)>>,
              <<"GetHeadersAsEncodedStrings", Map(l, LAMBDA i : OneLine(k, os[i]))>> >>
     \o (IF k \in {"Allow", "Allow-Events"} THEN << <<"GetMethods", Map(l, LAMBDA i : Table[k][1].vals[os[i].own[1]].g[1])>> >>
         ELSE IF k = "Contact" THEN << <<"GetContacts", Map(l, LAMBDA i : OneLine(k, os[i]))>> >> ELSE <<>>)]
LShow(os, ls) == [i \in 1..NObj |-> ShowObj(kind, os[i])] \o [l \in 1..2 |-> ShowList(kind, os, ls[l])]

LInit == /\ kind \in Kinds /\ ops = 0 /\ objs = [i \in 1..NObj |-> Start2(kind, i)] /\ lists = <<<<1, 2>>, <<>>>>
         /\ hist = Flat([i \in 1..NObj |-> Build2(kind, i)]) \o [l \in 1..2 |-> S("new", <<ListId(l), "list:" \o kind>>, Wn(FALSE, <<>>))]
              \o [i \in 1..2 |-> S("push", <<ListId(1), i>>, Wn(FALSE, <<>>))]
              \o [i \in 1..NObj |-> S("look", <<i, Getters(kind)>>, Wn(FALSE, "*"))]
              \o [l \in 1..2 |-> S("look", <<ListId(l), ListGetters(kind)>>, IF l = 1 THEN Wn(FALSE, "*") ELSE Wn(FALSE, LShow(objs, lists)))]
(* several calls of which only the last is looked at *)
LStep(os, ls, calls, err) ==
  /\ ops < MaxOps /\ ops' = ops + 1 /\ objs' = os /\ lists' = ls /\ UNCHANGED kind
  /\ hist' = hist \o [i \in 1..Len(calls) |-> S(calls[i][1], calls[i][2], Wn(err, IF i = Len(calls) THEN LShow(os, ls) ELSE "*"))]
Fetch(l, ids) == [p \in 1..Len(ids) |-> <<"elem", <<ids[p], ListId(l), p>>>>]
Used == Range(lists[1]) \cup Range(lists[2])

Edits == \E id \in OneOf(Used), i \in OneOf(NF) : F[i].set # "" /\ \E v \in OneOf(Choice(F[i])) :
   LStep([objs EXCEPT ![id] = With(@, i, v)], lists, <<<<"call", <<id, F[i].set, F[i].vals[v].a>>>>>>, FALSE)
ParEdits == kind \in ParKinds /\ \E id \in OneOf(Used) :
   LET o == objs[id] IN
   \/ Has(o.pars, "x") /\ LStep([objs EXCEPT ![id] = [o EXCEPT !.pars = DelPar(@, "x")]], lists, <<<<"call", <<id, "RemoveParameter", <<"x">>>>>>>>, FALSE)
   \/ \E v \in {"1", "2"} : LStep([objs EXCEPT ![id] = [o EXCEPT !.pars = SetPar(@, "x", <<v>>, FALSE)]], lists, <<<<"call", <<id, "SetParameter", <<"x", v>>>>>>>>, FALSE)
Refused == \E id \in OneOf(Used), i \in OneOf(NF) : \E b \in OneOf(1..Len(F[i].bads)) : LStep(objs, lists, <<<<"call", <<id, F[i].set, F[i].bads[b]>>>>>>, TRUE)
(* ---- the lists themselves *)
Pushing == \E l \in OneOf(1..2), id \in OneOf((1..NV) \ Used) : TRUE /\
   \/ LStep(objs, [lists EXCEPT ![l] = Append(@, id)], <<<<"push", <<ListId(l), id>>>>>>, FALSE)
   \/ kind = "Contact" /\ LStep(objs, [lists EXCEPT ![l] = Append(@, id)], <<<<"call", <<ListId(l), "AddContact", <<[obj |-> id]>>>>>>>>, FALSE)
Concatenating == \E l \in OneOf(1..2), top \in OneOf(BOOLEAN) :
   LET m == 3 - l IN Len(lists[l]) + Len(lists[m]) <= 6 /\
   LStep(objs, [lists EXCEPT ![l] = IF top THEN lists[m] \o @ ELSE @ \o lists[m]],
         <<<<"call", <<ListId(l), "Concatenate", <<[obj |-> ListId(m)], top>>>>>>>>, FALSE)
Every(s) == s
AnyOne(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
Distinct(l) == Cardinality(Range(l)) = Len(l)
(* what follows a bare URI is part of it *)
BareRoute(o) == kind = "Route" /\ o.own[1] = 3 /\ o.pars # <<>>
Reparsing == \E l \in OneOf(1..2) : lists[l] # <<>> /\ Distinct(lists[l]) /\ Range(lists[l]) \cap Range(lists[3 - l]) = {} /\ ~Rows(kind)
   /\ (\A i \in Range(lists[l]) : Encodable(kind, objs[i]) /\ ~BareRoute(objs[i]))
   /\ LET os == [i \in 1..NObj |-> IF InSeq(i, lists[l]) THEN Again(kind, objs[i]) ELSE objs[i]] IN
      \/ LStep(os, lists, <<<<"reparse", <<ListId(l), "header">>>>>> \o Fetch(l, lists[l]), FALSE)
      \/ \E s \in OneOf(Spaces) : LStep(os, lists,
            <<<<"parse", <<ListId(l), "header", Name(kind) \o s \o ":" \o (IF s = "" THEN " " ELSE s) \o Bodies(kind, objs, lists[l], s) \o s \o "\n">>>>>> \o Fetch(l, lists[l]), FALSE)
(* a copy of a list holds copies; the second half of the values are what they are *)
Copied == kind \in CloneKinds /\ \E l \in OneOf(1..2) : lists[l] # <<>> /\ Distinct(lists[l]) /\ Range(lists[l]) \subseteq 1..NV
   /\ LET new == Map(lists[l], LAMBDA i : i + NV)
          os == [i \in 1..NObj |-> IF InSeq(i, new) THEN objs[i - NV] ELSE objs[i]] IN
      LStep(os, [lists EXCEPT ![3 - l] = new], <<<<"clone", <<ListId(3 - l), ListId(l)>>>>>> \o Fetch(3 - l, new), FALSE)
(* methods, or event types, given as texts *)
Texted == kind \in {"Allow", "Allow-Events"} /\ \E l \in OneOf(1..2) :
   LET vs == Table[kind][1].vals text(v) == vs[v].t IN
   \/ \E ids \in {<<>>, <<3>>, <<4, 3>>} : (\A i \in Range(ids) : ~InSeq(i, lists[3 - l])) /\
        LStep([i \in 1..NObj |-> IF InSeq(i, ids) THEN Start2(kind, i) ELSE objs[i]], [lists EXCEPT ![l] = ids],
           <<<<"call", <<ListId(l), "SetMethods", <<[strings |-> Map(ids, LAMBDA i : text(Start2(kind, i).own[1]))]>>>>>>>> \o Fetch(l, ids), FALSE)
   \/ LStep(objs, lists, <<<<"call", <<ListId(l), "SetMethods", <<[strings |-> <<text(1), "">>]>>>>>>>>, TRUE)

LNext == \/ "set" \in Doing /\ (Edits \/ ParEdits)
         \/ "bad" \in Doing /\ Refused
         \/ "list" \in Doing /\ (Pushing \/ Texted \/ (Joining /\ Concatenating))
         \/ "parse" \in Doing /\ Reparsing
         \/ "clone" \in Doing /\ Copied
LSpec == LInit /\ [][LNext]_lvars
LView == <<kind, objs, lists, ops>>
ParListKinds == ListKinds \cap ParKinds
(* on the specification itself: a copied list has nothing of the list it is copied from *)
Apart == ~Joining => (Range(lists[1]) \cap Range(lists[2]) = {})
=============================================================================
