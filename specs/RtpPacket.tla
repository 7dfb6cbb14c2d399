------------------------------ MODULE RtpPacket ------------------------------
(* P17.  RFC 3550 RTP packets: the fields of a packet, its bytes, and what a   *)
(* receiver must make of any bytes.  Two state machines share the definitions: *)
(*   build : the fields are edited one by one; every state is built, its bytes  *)
(*           are compared with Encode and parsed back;                          *)
(*   wire  : the bytes of a packet are damaged (bits, bytes, truncation,        *)
(*           padding); every state is received and compared with Decode.        *)
EXTENDS Common
CONSTANTS MaxEdits, MaxCsrc, Lens, Mode
VARIABLES f, raw, rtp, edits
vars == <<f, raw, rtp, edits>>

W1 == <<1, 2, 3, 4>>
W2 == <<240, 225, 210, 195>>
W3 == <<127, 128, 0, 255>>
Words == {Zero4, Max4, W1, W2}
WordNo(i) == <<i, 16 + i, 255 - i, (i * 37) % 256>>
PTs == {0, 1, 8, 63, 64, 71, 72, 73, 74, 96, 127, 128, 200, 255}
Seqs == {0, 1, 127, 128, 255, 256, 32768, 65535}
Base == [pt |-> 96, m |-> FALSE, seq |-> 258, ts |-> W1, ssrc |-> W2, csrc |-> <<>>,
         ext |-> FALSE, xid |-> 0, xw |-> <<>>, pl |-> <<>>]

(* -------- meaning *)
Buildable(p) == p.pt <= 127 /\ p.pt \notin {72, 73} /\ Len(p.csrc) <= 15
Bit(b) == IF b THEN 1 ELSE 0
Byte0(ver, pad, ext, cc) == ver * 64 + pad * 32 + ext * 16 + cc
Encode(p) ==
  <<Byte0(2, 0, Bit(p.ext), Len(p.csrc)), Bit(p.m) * 128 + p.pt>> \o B16(p.seq) \o p.ts \o p.ssrc
  \o FlatW(p.csrc)
  \o (IF p.ext THEN B16(p.xid) \o B16(Len(p.xw)) \o FlatW(p.xw) ELSE <<>>)
  \o p.pl
Cut(b, n) == [i \in 1..n |-> SubSeq(b, 4 * i - 3, 4 * i)]
Bad == [ok |-> FALSE]
Decode(b) ==
  IF Len(b) < 12 THEN Bad ELSE
  LET ver == b[1] \div 64
      pad == (b[1] \div 32) % 2 = 1
      ext == (b[1] \div 16) % 2 = 1
      cc  == b[1] % 16
      m   == b[2] >= 128
      pt  == b[2] % 128
      o1  == 12 + 4 * cc
  IN IF ver # 2 \/ (m /\ pt \in {72, 73}) \/ Len(b) < o1 THEN Bad ELSE
  IF ext /\ Len(b) < o1 + 4 THEN Bad ELSE
  LET xl == IF ext THEN b[o1 + 3] * 256 + b[o1 + 4] ELSE 0
      o2 == IF ext THEN o1 + 4 + 4 * xl ELSE o1
  IN IF Len(b) < o2 THEN Bad ELSE
  LET np == IF pad THEN b[Len(b)] ELSE 0
  IN IF pad /\ (np = 0 \/ np > Len(b) - o2) THEN Bad ELSE
  [ok |-> TRUE,
   p |-> [pt |-> pt, m |-> m, seq |-> b[3] * 256 + b[4], ts |-> SubSeq(b, 5, 8), ssrc |-> SubSeq(b, 9, 12),
          csrc |-> Cut(SubSeq(b, 13, o1), cc), ext |-> ext,
          xid |-> IF ext THEN b[o1 + 1] * 256 + b[o1 + 2] ELSE 0,
          xw |-> Cut(SubSeq(b, o1 + 5, o2), xl), pl |-> SubSeq(b, o2 + 1, Len(b) - np)]]

(* the receiver refuses anything that did not come in on the RTP port *)
Receive(b, isrtp) == IF isrtp THEN Decode(b) ELSE Bad

(* -------- build machine *)
Payload(n) == [i \in 1..n |-> (i * 7 + 200) % 256]
BuildEdit ==
  \/ \E v \in PTs : f' = [f EXCEPT !.pt = v]
  \/ f' = [f EXCEPT !.m = ~@]
  \/ \E v \in Seqs : f' = [f EXCEPT !.seq = v]
  \/ \E v \in Words : f' = [f EXCEPT !.ts = v]
  \/ \E v \in Words : f' = [f EXCEPT !.ssrc = v]
  \/ \E n \in 1..MaxCsrc : f' = [f EXCEPT !.csrc = [i \in 1..n |-> WordNo(i)]]
  \/ \E n \in Lens : \E id \in {0, 1, 48879, 65535} :
        f' = [f EXCEPT !.ext = TRUE, !.xid = id, !.xw = [i \in 1..n |-> WordNo(64 + (i % 64))]]
  \/ f' = [f EXCEPT !.ext = FALSE, !.xid = 0, !.xw = <<>>]
  \/ \E n \in Lens : f' = [f EXCEPT !.pl = Payload(n)]

(* -------- wire machine *)
Seeds == {Encode(Base),
          Encode([Base EXCEPT !.pl = Payload(5)]),
          Encode([Base EXCEPT !.csrc = <<W1, W3>>, !.pl = Payload(3)]),
          Encode([Base EXCEPT !.m = TRUE, !.ext = TRUE, !.xid = 4660, !.xw = <<W3, W2>>, !.pl = Payload(4)]),
          Encode([Base EXCEPT !.csrc = [i \in 1..15 |-> WordNo(i)], !.ext = TRUE, !.pl = Payload(9)]),
          Encode([Base EXCEPT !.csrc = [i \in 1..9 |-> WordNo(i)], !.pl = Payload(2)])}
(* the padding bit set and n padding bytes appended, the last one saying `count' *)
Padded(b, n, count) == [ b EXCEPT ![1] = IF (@ \div 32) % 2 = 1 THEN @ ELSE @ + 32 ]
                       \o (IF n = 0 THEN <<>> ELSE Append(Rep(0, n - 1), count))
WireEdit ==
  \/ \E k \in 0..(Len(raw) - 1) : raw' = Take(raw, k)
  \/ Len(raw) >= 1 /\ \E v \in {0, 2, 15, 16, 32, 48, 64, 128, 129, 130, 135, 136, 143, 144, 146, 152, 159, 160, 161, 168, 176, 178, 191, 192, 255} :
        raw' = [raw EXCEPT ![1] = v]
  \/ Len(raw) >= 2 /\ \E v \in {0, 72, 73, 200, 201, 202, 127, 255} : raw' = [raw EXCEPT ![2] = v]
  \/ Len(raw) >= 16 /\ \E i \in 13..(IF Len(raw) < 40 THEN Len(raw) ELSE 40) : \E v \in {0, 1, 2, 3, 4, 255} : raw' = [raw EXCEPT ![i] = v]
  \/ Len(raw) > 16 /\ \E v \in {0, 1, 2, 4, 5, 8, 9, 255} : raw' = [raw EXCEPT ![Len(raw)] = v]
  \/ Len(raw) >= 1 /\ Len(raw) < 90 /\ \E n \in 0..5 : \E c \in {0, n, n + 1, n + 4, n + 9, 255} : raw' = Padded(raw, n, c)

Init == /\ f = Base /\ rtp = TRUE /\ edits = 0
        /\ raw \in IF Mode = "wire" THEN Seeds ELSE {<<>>}
Next == /\ edits < MaxEdits /\ edits' = edits + 1
        /\ IF Mode = "build" THEN BuildEdit /\ UNCHANGED <<raw, rtp>>
           ELSE \/ WireEdit /\ UNCHANGED <<f, rtp>>
                \/ rtp' = FALSE /\ UNCHANGED <<f, raw>>
Spec == Init /\ [][Next]_vars
View == <<f, raw, rtp>>

(* -------- properties of the specification itself *)
RoundTrip == Buildable(f) => Decode(Encode(f)) = [ok |-> TRUE, p |-> f]
Sound == LET d == Decode(raw) IN d.ok /\ (raw[1] \div 32) % 2 = 0 => Encode(d.p) = raw
PaddingNeverPayload == LET d == Decode(raw) IN d.ok /\ (raw[1] \div 32) % 2 = 1
                          => Len(d.p.pl) <= Len(raw) - 12 - raw[Len(raw)]

(* -------- the cases for the implementation *)
Fields(p) == [pt |-> p.pt, m |-> p.m, seq |-> p.seq, ts |-> p.ts, ssrc |-> p.ssrc, csrc |-> p.csrc,
              ext |-> p.ext, xid |-> p.xid, xlen |-> Len(p.xw), xw |-> p.xw, pl |-> p.pl, beyond |-> Zero4]
WantRecv(b, r) == LET d == Receive(b, r) IN
                  IF d.ok THEN [ok |-> TRUE, p |-> Fields(d.p), packet |-> b] ELSE [ok |-> FALSE]
HeaderWant(b) == IF Len(b) >= 12 /\ Len(b) >= 12 + 4 * (b[1] % 16)
                 THEN <<SubSeq(b, 1, 12 + 4 * (b[1] % 16))>> ELSE <<>>
ExtWant(b) == IF Len(b) >= 4 /\ Len(b) >= 4 + 4 * (b[3] * 256 + b[4])
              THEN <<SubSeq(b, 1, 4 + 4 * (b[3] * 256 + b[4]))>> ELSE <<>>
Case ==
  IF Mode = "build"
  THEN <<S("build", <<f.pt, f.pl, f.seq, f.ts, f.ssrc, f.m, f.csrc, f.ext, f.xid, f.xw>>,
           IF Buildable(f) THEN [ok |-> TRUE, packet |-> Encode(f), p |-> Fields(f)] ELSE [ok |-> FALSE])>>
       \o (IF Buildable(f) THEN <<S("recv", <<Encode(f), TRUE>>, WantRecv(Encode(f), TRUE))>> ELSE <<>>)
  ELSE <<S("recv", <<raw, rtp>>, WantRecv(raw, rtp)),
         S("header", <<raw>>, HeaderWant(raw)),
         S("extension", <<Drop(raw, 12)>>, ExtWant(Drop(raw, 12)))>>
EmitCase == Emit(Case)
=============================================================================
