------------------------------ MODULE RandTrace -------------------------------
(* P21, several callers: is the recorded run of the real generator a run of the  *)
(* one shared word?  Trace.threads[t] is what caller t asked for and got, in its  *)
(* own order; TLC looks for an order of all calls in which each result is the     *)
(* one the specification gives.                                                   *)
EXTENDS Rand48
VARIABLES word, pos
vars == <<word, pos>>
Trace == JsonDeserialize("trace.json")
Threads == 1..Len(Trace.threads)
Total == LET RECURSIVE Sum(_)
             Sum(i) == IF i = 0 THEN 0 ELSE Len(Trace.threads[i]) + Sum(i - 1)
         IN Sum(Len(Trace.threads))
Init == word = Seed48(Trace.seed) /\ pos = [t \in Threads |-> 0]
Ask(t) == /\ pos[t] < Len(Trace.threads[t])
          /\ LET e == Trace.threads[t][pos[t] + 1]
                 w == IF e.k = "seed" THEN Seed48(e.v) ELSE Next48(word)
             IN /\ IF e.k = "seed" THEN TRUE ELSE e.v = Out(e.k, w)
                /\ word' = w
          /\ pos' = [pos EXCEPT ![t] = @ + 1]
Next == \E t \in Threads : Ask(t)
Spec == Init /\ [][Next]_vars
(* the whole trace is explained when some behaviour consumes every event *)
Accepted == TLCGet("stats").diameter - 1 = Total
=============================================================================
