----------------------------- MODULE RtcpSweep ------------------------------
(* P18.  All first bytes, padding counts, source counts, reason lengths and packet lengths.  *)
EXTENDS Rtcp
Base(c, len) == Hdr(0, c, 203) \o [i \in 1..len |-> (i * 11) % 256]
Bodies == {0, 1, 3, 4, 7, 8, 9, 12, 13, 16, 20, 27, 40, 124, 125, 128, 130}
Swept ==
  {[Base(0, l) EXCEPT ![1] = v] : v \in 0..255, l \in Bodies} \cup {[Base(c, l) EXCEPT ![1] = 160 + c, ![l + 4] = p] : c \in {0, 1, 2, 31}, l \in {4, 8, 16, 28, 132}, p \in 0..255}
  \cup {Hdr(0, c, 203) \o FlatW([i \in 1..c |-> Word(i)]) \o <<n>> \o [i \in 1..m |-> 96 + (i % 30)] : c \in {0, 1, 3}, n \in 0..255, m \in {0, 1, 2, 3, 7, 100}}
  \cup {Hdr(0, c, 203) \o FlatW([i \in 1..c |-> Word(i)]) \o <<n>> \o [i \in 1..n |-> 65 + (i % 150)] : c \in {0, 2, 31}, n \in 0..255}
  \cup {Hdr(1, c, 203) \o FlatW([i \in 1..c |-> Word(i)]) \o <<n>> \o [i \in 1..7 |-> 65] \o <<0, 0, 0, 4>> : c \in {1, 2}, n \in 0..255}
SweepNext == edits = 0 /\ edits' = 1 /\ b' \in Swept
SweepSpec == Init /\ [][SweepNext]_vars
=============================================================================
