------------------------------ MODULE RtpMany -------------------------------
(* P17.  One packet after another: built or read into the same object, from the same         *)
(* buffers, each is what it is alone, and those before it stay what they are.                *)
EXTENDS RtpPacket
VARIABLES hist, turn
ManyInit == Init /\ hist = Case /\ turn = 0
ManyNext == IF turn = 0 THEN Next /\ turn' = 1 /\ UNCHANGED hist
            ELSE turn' = 0 /\ hist' = hist \o Case /\ (edits = MaxEdits => Emit(hist')) /\ UNCHANGED <<f, raw, rtp, edits>>
ManySpec == ManyInit /\ [][ManyNext]_<<f, raw, rtp, edits, hist, turn>>
=============================================================================
