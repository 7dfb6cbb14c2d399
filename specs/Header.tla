------------------------------- MODULE Header -------------------------------
(* P10, P11, P12, P16.  A header under its setters: what is set is what is read,   *)
(* encoded and parsed back; a refused call changes nothing; its parameters are an  *)
(* ordered map; a copy and its original are independent.                           *)
EXTENDS HeaderTable
CONSTANTS Kinds, NObj, MaxOps, Doing, Spaces, Wild
VARIABLES kind, objs, hist, ops
vars == <<kind, objs, hist, ops>>

F == Table[kind]
NF == 1..Len(F)
Is(p, n) == EqFold(p.n, n)
Has(ps, n) == \E i \in 1..Len(ps) : Is(ps[i], n)
At(ps, n) == CHOOSE i \in 1..Len(ps) : Is(ps[i], n)
(* setting keeps the place, the name as first given, and the quotes *)
SetPar(ps, n, v, q) == IF Has(ps, n) THEN [ps EXCEPT ![At(ps, n)] = [@ EXCEPT !.v = v, !.q = @ \/ q]] ELSE Append(ps, [n |-> n, v |-> v, q |-> q])
DelPar(ps, n) == SelectSeq(ps, LAMBDA p : ~Is(p, n))

Texts(k, o) == LET fs == Table[k] IN [i \in 1..Len(fs) |-> IF fs[i].own /\ o.own[i] # 0 THEN fs[i].vals[o.own[i]].t ELSE ""]
OwnOnly(k, o) == SelectSeq([i \in 1..Len(Table[k]) |-> <<i, Texts(k, o)[i]>>], LAMBDA x : Table[k][x[1]].own)
OwnTexts(k, o) == Map(OwnOnly(k, o), LAMBDA x : x[2])
TextLine(k, o, s) == Line(k, OwnTexts(k, o), o.pars, s)

(* ---- what is observed *)
RECURSIVE Merge(_)
Merge(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) @@ Merge(Tail(fs))
Pairs(ns, vs) == [n \in {ns[i] : i \in 1..Len(ns)} |-> vs[CHOOSE i \in 1..Len(ns) : ns[i] = n]]
FieldVal(k, o, i) ==
  LET f == Table[k][i] IN
  IF f.own THEN IF o.own[i] = 0 THEN f.no ELSE f.vals[o.own[i]].g
  ELSE IF ~Has(o.pars, f.par) THEN f.no
  ELSE LET p == o.pars[At(o.pars, f.par)]
           hits == {v \in 1..Len(f.vals) : p.v # <<>> /\ f.vals[v].t = p.v[1]}
       IN IF hits # {} THEN f.vals[CHOOSE v \in hits : TRUE].g ELSE Rep("*", Len(f.get))
Present(k, o, i) == LET f == Table[k][i] IN IF f.own THEN o.own[i] # 0 ELSE Has(o.pars, f.par)
FieldShow(k, o, i) == LET f == Table[k][i]
  IN Pairs(f.get \o Opt(f.has # "", f.has), FieldVal(k, o, i) \o Opt(f.has # "", Present(k, o, i)))
Observed == <<"x", "y">>
ParShow(o) == Pairs(<<"GetParameterNames", "HasParameters">>, <<[i \in 1..Len(o.pars) |-> o.pars[i].n], o.pars # <<>>>>)
  @@ Merge([i \in 1..Len(Observed) |-> LET n == Observed[i] IN
       ("GetParameter|" \o n) :> (IF Has(o.pars, n) /\ o.pars[At(o.pars, n)].v # <<>> THEN o.pars[At(o.pars, n)].v[1] ELSE "")
         @@ ("HasParameter|" \o Upper(n)) :> Has(o.pars, n)])
(* what follows from several fields together *)
Extra(k, o) == LET t == Texts(k, o) IN
  CASE k = "Via" -> [GetSentProtocol |-> Upper(t[9]) \o "/" \o t[10] \o "/" \o t[1], GetSentBy |-> t[2] \o (IF t[3] = "" THEN "" ELSE ":" \o t[3]), GetViaParms |-> [i \in 1..Len(o.pars) |-> ParText(o.pars[i], "")]]
    [] k \in {"Accept", "Content-Type"} -> [GetMediaRange |-> t[1] \o "/" \o t[2]]
    [] k = "Call-ID" -> [GetCallIdentifer |-> t[1]]
    [] k = "Contact" -> [GetContactParms |-> [i \in 1..Len(o.pars) |-> ParText(o.pars[i], "")]]
    [] k \in ParKinds \ {"Via", "Contact", "Authentication-Info"} -> [GetParameters |-> [i \in 1..Len(o.pars) |-> ParText(o.pars[i], "")]]
    [] OTHER -> [GetName |-> Name(k)]
ExtraGetters(k) ==
  CASE k = "Via" -> <<"GetSentProtocol", "GetSentBy", "GetViaParms">> [] k \in {"Accept", "Content-Type"} -> <<"GetMediaRange">> [] k = "Call-ID" -> <<"GetCallIdentifer">>
    [] k = "Contact" -> <<"GetContactParms">> [] k \in ParKinds \ {"Via", "Contact", "Authentication-Info"} -> <<"GetParameters">> [] OTHER -> <<"GetName">>
Getters(k) == <<"String">> \o ExtraGetters(k) \o Flat([i \in 1..Len(Table[k]) |-> Table[k][i].get \o Opt(Table[k][i].has # "", Table[k][i].has)])
  \o (IF k \in ParKinds THEN <<"GetParameterNames", "HasParameters">> \o Flat([i \in 1..Len(Observed) |-> <<"GetParameter|" \o Observed[i], "HasParameter|" \o Upper(Observed[i])>>]) ELSE <<>>)
ShowObj(k, o) == [str |-> TextLine(k, o, "") \o CRLF,
  get |-> Merge([i \in 1..Len(Table[k]) |-> FieldShow(k, o, i)]) @@ (IF k \in ParKinds THEN ParShow(o) ELSE <<>>) @@ Extra(k, o)]
Show(os) == [i \in 1..NObj |-> ShowObj(kind, os[i])]

(* ---- the beginning: each object with what it cannot be encoded without *)
Start(k) == [own |-> [i \in 1..Len(Table[k]) |-> IF Table[k][i].own /\ Table[k][i].man THEN 1 ELSE Table[k][i].ini],
             pars |-> Flat([i \in 1..Len(Table[k]) |-> IF ~Table[k][i].own /\ Table[k][i].man
                          THEN <<[n |-> Table[k][i].par, v |-> <<Table[k][i].vals[1].t>>, q |-> Table[k][i].q]>> ELSE <<>>])]
Wn(err, os) == [err |-> err, ret |-> "*", objs |-> os]
Build(k, id) == <<S("new", <<id, k>>, Wn(FALSE, <<>>))>> \o Flat([i \in 1..Len(Table[k]) |->
   IF Table[k][i].man THEN <<S("call", <<id, Table[k][i].set, Table[k][i].vals[1].a>>, Wn(FALSE, <<>>))>> ELSE <<>>])
Init == /\ kind \in Kinds /\ ops = 0 /\ objs = [i \in 1..NObj |-> Start(kind)]
        /\ hist = Flat([i \in 1..NObj |-> Build(kind, i)])
             \o [i \in 1..NObj |-> S("look", <<i, Getters(kind)>>, Wn(FALSE, [j \in 1..i |-> ShowObj(kind, Start(kind))]))]
Step(os, op, a, err) == /\ ops < MaxOps /\ ops' = ops + 1 /\ objs' = os /\ UNCHANGED kind
                        /\ hist' = Append(hist, S(op, a, Wn(err, Show(os))))
Call(id, o, m, a, err) == Step([objs EXCEPT ![id] = o], "call", <<id, m, a>>, err)

(* ---- setting, replacing and removing fields *)
With(o, i, v) == LET f == F[i] IN
  IF f.own THEN [o EXCEPT !.own[i] = v] ELSE [o EXCEPT !.pars = SetPar(@, f.par, <<f.vals[v].t>>, f.q)]
Without(o, i) == LET f == F[i] IN IF f.own THEN [o EXCEPT !.own[i] = 0] ELSE [o EXCEPT !.pars = DelPar(@, f.par)]
(* the rarer values, always or never, or at the start only *)
Choice(f) == 1..(IF Wild = "always" \/ (Wild = "first" /\ ops = 0) THEN Len(f.vals) ELSE f.few)
Setting == \E id \in 1..NObj, i \in NF : F[i].set # "" /\ \E v \in Choice(F[i]) :
   \/ Call(id, With(objs[id], i, v), F[i].set, F[i].vals[v].a, FALSE)
   \/ \E m \in Range(F[i].alt) : Call(id, With(objs[id], i, v), m, F[i].vals[v].a, FALSE)
Removing == \E id \in 1..NObj, i \in NF : F[i].rem # "" /\ Call(id, Without(objs[id], i), F[i].rem, F[i].rema, FALSE)
Moving == \E id \in 1..NObj, i \in NF : \E mv \in Range(F[i].moves) :
   objs[id].own[i] = mv.from /\ Call(id, [objs[id] EXCEPT !.own[i] = mv.to], mv.m, mv.a, mv.err)
(* ---- values out of range or missing *)
Refusing == \E id \in 1..NObj, i \in NF : \E b \in 1..Len(F[i].bads) : Call(id, objs[id], F[i].set, F[i].bads[b], TRUE)
(* ---- parameters by name *)
Named == {"x", "y", "X"}
Pars == kind \in ParKinds /\ \E id \in 1..NObj :
   LET o == objs[id] IN
   \/ \E n \in Named, v \in {"1", ""} :
        ~(kind = "Via" /\ n = "X" /\ ~Has(o.pars, n)) /\ (kind = "Authentication-Info" => o.pars # <<>>)
        /\ Call(id, [o EXCEPT !.pars = SetPar(@, n, <<v>>, FALSE)], "SetParameter", <<n, v>>, FALSE)
   \/ \E n \in {"x", "y"} : Call(id, [o EXCEPT !.pars = SetPar(@, n, <<"a, b;c">>, TRUE)], "SetQuotedParameter", <<n, "a, b;c">>, FALSE)
   \/ \E i \in NF : ~F[i].own /\ \E v \in Choice(F[i]) : ~AutoQ(kind, F[i].par) /\ ~F[i].q
        /\ (kind = "Via" => Has(o.pars, F[i].par))
        /\ Call(id, [o EXCEPT !.pars = SetPar(@, Upper(F[i].par), <<F[i].vals[v].t>>, FALSE)], "SetParameter", <<Upper(F[i].par), F[i].vals[v].t>>, FALSE)
   \/ \E i \in NF : ~F[i].own /\ AutoQ(kind, F[i].par) /\ \E n \in {F[i].par} \cup (IF F[i].par = "uri" THEN {} ELSE {Upper(F[i].par)}), v \in {F[i].vals[1].t} :   (* SetURI spells its name anew *)
        Call(id, [o EXCEPT !.pars = SetPar(@, n, <<v>>, TRUE)], "SetParameter", <<n, v>>, FALSE)
   \/ \E i \in NF : ~F[i].own /\ Has(o.pars, F[i].par) /\ Call(id, [o EXCEPT !.pars = DelPar(@, F[i].par)], "RemoveParameter", <<Upper(F[i].par)>>, FALSE)
   \/ \E n \in Named : Call(id, [o EXCEPT !.pars = DelPar(@, n)], "RemoveParameter", <<n>>, FALSE)
   \/ o.pars # <<>> /\ Call(id, [o EXCEPT !.pars = <<>>], "RemoveParameters", <<>>, FALSE)
(* ---- encoded and parsed back, or parsed from the standard syntax with white space *)
Encodable(k, o) == (k = "Via" => Texts(k, o)[9] = "SIP" /\ Texts(k, o)[10] = "2.0") /\ (k \in AuthKinds \cup {"Authentication-Info"} => o.pars # <<>>)
Again(k, o) == [o EXCEPT !.own = [i \in 1..Len(@) |-> IF @[i] = 0 THEN 0
                    ELSE LET r == Table[k][i].vals[@[i]].re IN IF r = 0 THEN @[i] ELSE r]]
Parsing == \E id \in 1..NObj : Encodable(kind, objs[id]) /\
   \/ Step([objs EXCEPT ![id] = Again(kind, @)], "reparse", <<id, "element">>, FALSE)
   \/ \E s \in Spaces : Step([objs EXCEPT ![id] = Again(kind, @)], "parse", <<id, "element", TextLine(kind, objs[id], s) \o "\n">>, FALSE)
(* what a header is made of, reached through its getters *)
Within(k) == IF k # "Via" THEN {} ELSE {<<"GetSentProtocol", "SetTransport", 1>>, <<"GetSentProtocol", "SetProtocolName", 9>>, <<"GetSentProtocol", "SetProtocolVersion", 10>>, <<"GetSentBy", "SetPort", 3>>}
Inside(id, path, m, a, o) == LET os == [objs EXCEPT ![id] = o] IN
   /\ ops < MaxOps /\ ops' = ops + 1 /\ objs' = os /\ UNCHANGED kind
   /\ hist' = hist \o <<S("follow", <<9, id, path>>, Wn(FALSE, Show(objs))), S("call", <<9, m, a>>, Wn(FALSE, Show(os)))>>
ParsPath == CASE kind = "Via" -> "GetViaParms" [] kind = "Contact" -> "GetContactParms" [] OTHER -> "GetParameters"
Reaching == \E id \in 1..NObj : LET o == objs[id] IN
   \/ \E w \in Within(kind) : \E v \in 1..Len(F[w[3]].vals) : Inside(id, w[1], w[2], F[w[3]].vals[v].a, With(o, w[3], v))
   \/ (kind = "Via" /\ Inside(id, "GetSentBy", "RemovePort", <<>>, Without(o, 3)))
   \/ (kind = "Via" /\ \E v \in 1..Len(F[2].vals) : Inside(id, "GetSentBy", "SetHost", <<[host |-> F[2].vals[v].t]>>, With(o, 2, v)))
   \/ (kind \in ParKinds \ {"Authentication-Info"} /\ \E n \in {"x", "X"} :
        \/ Inside(id, ParsPath, "Delete", <<n>>, [o EXCEPT !.pars = DelPar(@, n)])
        \/ (~Has(o.pars, n) /\ n = "x" /\ Inside(id, ParsPath, "AddNameAndValue", <<n, "w">>, [o EXCEPT !.pars = Append(@, [n |-> n, v |-> <<"w">>, q |-> FALSE])]))
        \/ (Has(o.pars, n) /\ n = "x" /\ Inside(id, ParsPath \o ".GetNameValue|" \o n, "SetValue", <<"z">>, [o EXCEPT !.pars = SetPar(@, n, <<"z">>, FALSE)])))
Copying == \E i, j \in 1..NObj : i # j /\ Step([objs EXCEPT ![j] = objs[i]], "clone", <<j, i>>, FALSE)

Next == \/ "set" \in Doing /\ (Setting \/ Removing \/ Moving)
        \/ "bad" \in Doing /\ Refusing
        \/ "par" \in Doing /\ Pars
        \/ "parse" \in Doing /\ Parsing
        \/ "inside" \in Doing /\ Reaching
        \/ "clone" \in Doing /\ Copying
Spec == Init /\ [][Next]_vars
View == <<kind, objs, ops>>

(* setting a field and reading it, on the specification itself *)
SetIsRead == \A id \in 1..NObj, i \in NF : \A v \in 1..Len(F[i].vals) : FieldVal(kind, With(objs[id], i, v), i) = F[i].vals[v].g
OnlyItself == \A id \in 1..NObj, i, j \in NF : i # j => \A v \in 1..Len(F[i].vals) : FieldVal(kind, With(objs[id], i, v), j) = FieldVal(kind, objs[id], j)
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
NoSpaces == {""}
SomeSpaces == {"", " ", "\t "}
=============================================================================
