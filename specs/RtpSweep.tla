------------------------------ MODULE RtpSweep ------------------------------
(* P17.  All payload types, sequence numbers, single bytes of the words, numbers of sources  *)
(* and extension words; all first and second bytes, padding counts and lengths on the wire.  *)
EXTENDS RtpPacket
CONSTANTS Stride
VARIABLES n
One(i, v) == [j \in 1..4 |-> IF j = i THEN v ELSE 0]
Built ==
  {[Base EXCEPT !.pt = v, !.m = m, !.pl = Payload(3)] : v \in 0..255, m \in BOOLEAN} \cup {[Base EXCEPT !.seq = v] : v \in {q \in 0..65535 : q % Stride = 0 \/ q < 300 \/ q > 65300}}
  \cup {[Base EXCEPT !.ts = One(i, v), !.ssrc = One(5 - i, 255 - v), !.m = (v > 127)] : i \in 1..4, v \in 0..255}
  \cup {[Base EXCEPT !.csrc = [i \in 1..c |-> WordNo(i * 9)], !.ext = x, !.xid = IF x THEN 255 * c ELSE 0, !.xw = IF x THEN [i \in 1..e |-> WordNo(e + i)] ELSE <<>>, !.pl = Payload(p)] : c \in 0..16, x \in {FALSE}, e \in {0}, p \in 0..9}
  \cup {[Base EXCEPT !.csrc = [i \in 1..c |-> WordNo(i * 9)], !.ext = TRUE, !.xid = 255 * c + e, !.xw = [i \in 1..e |-> WordNo((e + i) % 200)], !.pl = Payload(p)] : c \in {0, 1, 14, 15}, e \in 0..40, p \in {0, 1, 4}}
  \cup {[Base EXCEPT !.pl = Payload(p)] : p \in 0..600}
Long == Encode([Base EXCEPT !.csrc = [i \in 1..3 |-> WordNo(i)], !.pl = Payload(70)])
Short == Encode([Base EXCEPT !.pl = <<>>])
WithX == Encode([Base EXCEPT !.ext = TRUE, !.xid = 7, !.xw = <<W3, W2>>, !.pl = Payload(30)])
Wired == {[b EXCEPT ![1] = v, ![2] = t] : b \in {Long, Short, WithX}, v \in 0..255, t \in {0, 72, 73, 96, 200, 201, 224, 255}} \cup {[b EXCEPT ![1] = v, ![2] = t] : b \in {Long, WithX}, v \in {128, 144, 131, 147, 160, 176}, t \in 0..255}
  \cup {[b EXCEPT ![1] = 128 + 32 + v, ![Len(b)] = p] : b \in {Long, WithX}, v \in {0, 3, 16}, p \in 0..255} \cup {Take([b EXCEPT ![1] = v], k) : b \in {Long, WithX}, v \in {128, 131, 143, 144, 147, 160}, k \in 0..60}
  \cup {[b EXCEPT ![15] = h, ![16] = l] : b \in {WithX}, h \in {0, 1, 255}, l \in 0..255}
SweepInit == Init /\ n = 0
SweepNext == n = 0 /\ n' = 1 /\ UNCHANGED edits /\ IF Mode = "build" THEN f' \in Built /\ UNCHANGED <<raw, rtp>> ELSE raw' \in Wired /\ UNCHANGED <<f, rtp>>
SweepSpec == SweepInit /\ [][SweepNext]_<<f, raw, rtp, edits, n>>
=============================================================================
