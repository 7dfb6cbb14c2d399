------------------------------ MODULE ParamList -------------------------------
(* P12, P16.  Parameter lists: an ordered list of name/value pairs looked up by   *)
(* name regardless of letter case.  A value is <<>> (none) or <<text>>.           *)
EXTENDS Common
CONSTANTS NLists, Names, Looked, Vals, Seps, MaxOps
VARIABLES lists, hist, ops
vars == <<lists, hist, ops>>

EqN(a, b) == EqFold(a, b)
Is(e, n) == EqN(e.n, n)
Has(l, n) == \E i \in 1..Len(l.items) : Is(l.items[i], n)
First(l, n) == CHOOSE i \in 1..Len(l.items) : Is(l.items[i], n) /\ \A j \in 1..(i - 1) : ~Is(l.items[j], n)
Pair(n, v, q) == [n |-> n, v |-> v, q |-> q, s |-> "="]
PairText(e) == LET t == IF e.v = <<>> THEN "" ELSE IF e.q THEN Q(e.v[1]) ELSE e.v[1]
               IN IF e.v = <<>> THEN e.n ELSE IF e.n = "" THEN t ELSE e.n \o e.s \o t
ListText(l) == Join([i \in 1..Len(l.items) |-> PairText(l.items[i])], l.sep)

Add(l, e) == [l EXCEPT !.items = Append(@, e)]
Set(l, e) == IF Has(l, e.n) THEN [l EXCEPT !.items[First(l, e.n)] = e] ELSE Add(l, e)
Del(l, n) == [l EXCEPT !.items = SelectSeq(@, LAMBDA e : ~Is(e, n))]
Join2(l, k, top) == [l EXCEPT !.items = IF top THEN k.items \o @ ELSE @ \o k.items]
On(l, n, f, x) == [l EXCEPT !.items[First(l, n)] = [@ EXCEPT ![f] = x]]

ShowOne(l, n) == IF Has(l, n)
   THEN LET e == l.items[First(l, n)] IN
        [has |-> TRUE, val |-> e.v, par |-> IF e.v = <<>> THEN "" ELSE e.v[1], q |-> e.q, nv |-> PairText(e)]
   ELSE [has |-> FALSE, val |-> <<>>, par |-> "", q |-> FALSE, nv |-> ""]
ShowList(l) == [str |-> ListText(l), len |-> Len(l.items), names |-> [i \in 1..Len(l.items) |-> l.items[i].n],
                by |-> [i \in 1..Len(Looked) |-> ShowOne(l, Looked[i])]]
Show(ls) == [i \in 1..NLists |-> ShowList(ls[i])]

Init == /\ lists = [i \in 1..NLists |-> [sep |-> ";", items |-> <<>>]] /\ ops = 0
        /\ hist = <<S("start", <<NLists, Looked>>, [ret |-> "*", lists |-> Show(lists)])>>
Do(op, a, ls, ret) == /\ ops < MaxOps /\ ops' = ops + 1 /\ lists' = ls
                      /\ hist' = Append(hist, S(op, a, [ret |-> ret, lists |-> Show(ls)]))
Put(i, l) == [lists EXCEPT ![i] = l]
LIDs == 1..NLists
Next ==
  \/ \E i \in LIDs, n \in Names, v \in Vals : Do("add", <<i, n, v>>, Put(i, Add(lists[i], Pair(n, v, FALSE))), "*")
  \/ \E i \in LIDs, n \in Names, v \in Vals : Do("set", <<i, n, v>>, Put(i, Set(lists[i], Pair(n, v, FALSE))), "*")
  \/ \E i \in LIDs, n \in Names : Do("addnv", <<i, n, <<"q">>, TRUE>>, Put(i, Add(lists[i], Pair(n, <<"q">>, TRUE))), "*")
  \/ \E i \in LIDs, n \in Names, q \in BOOLEAN : Do("setnv", <<i, n, <<"w">>, q>>, Put(i, Set(lists[i], Pair(n, <<"w">>, q))), "*")
  \/ \E i \in LIDs, n \in Names : Do("delete", <<i, n>>, Put(i, Del(lists[i], n)), Has(lists[i], n))
  \/ \E i \in LIDs : lists[i].items # <<>> /\ Do("clear", <<i>>, Put(i, [lists[i] EXCEPT !.items = <<>>]), "*")
  \/ \E i \in LIDs, n \in Names, v \in Vals : Has(lists[i], n) /\ Do("setvalue", <<i, n, v>>, Put(i, On(lists[i], n, "v", v)), "*")
  \/ \E i \in LIDs, n, k \in Names : Has(lists[i], n) /\ Do("rename", <<i, n, k>>, Put(i, On(lists[i], n, "n", k)), "*")
  \/ \E i \in LIDs, n \in Names : Has(lists[i], n) /\ Do("quote", <<i, n>>, Put(i, On(lists[i], n, "q", TRUE)), "*")
  \/ \E i \in LIDs, n \in Names, s \in Seps : Has(lists[i], n) /\ Do("nvsep", <<i, n, s>>, Put(i, On(lists[i], n, "s", s)), "*")
  \/ \E i \in LIDs, s \in Seps : Do("sep", <<i, s>>, Put(i, [lists[i] EXCEPT !.sep = s]), "*")
  \/ \E i, j \in LIDs, t \in BOOLEAN : lists[j].items # <<>> /\ Len(lists[i].items) < 5
        /\ Do("concat", <<i, j, t>>, Put(i, Join2(lists[i], lists[j], t)), "*")
  \/ \E i \in LIDs, t \in BOOLEAN : Do("concatnil", <<i, t>>, lists, "*")
  \/ \E i \in LIDs : Do("addnil", <<i>>, lists, "*")
  \/ \E i, j \in LIDs : i # j /\ Do("clone", <<i, j>>, [lists EXCEPT ![j] = lists[i]], "*")
  \/ \E i, j \in LIDs, n \in Names : Has(lists[i], n)
        /\ Do("nvclone", <<i, n, j>>, Put(j, Add(lists[j], lists[i].items[First(lists[i], n)])), "*")
Spec == Init /\ [][Next]_vars
View == <<lists, ops>>

(* what the operations promise, checked on the specification itself *)
SetKeepsPlace == \A i \in LIDs, n \in Names : Has(lists[i], n) =>
   LET l2 == Set(lists[i], Pair(n, <<"w">>, FALSE)) IN First(l2, n) = First(lists[i], n) /\ Len(l2.items) = Len(lists[i].items)
DeleteDrops == \A i \in LIDs, n \in Names : ~Has(Del(lists[i], n), n)
EmitStep == Emit(hist')
EmitLast == ops' = MaxOps => Emit(hist')
LookedDef == <<"a", "A", "b", "c">>
ValsDef == {<<>>, <<"">>, <<"x">>}
ValsSim == {<<>>, <<"">>, <<"x">>, <<"y z">>}
=============================================================================
