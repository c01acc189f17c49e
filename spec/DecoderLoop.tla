----------------------------- MODULE DecoderLoop -----------------------------
(* How read_specific_frame of the Decoder trait goes about it: it reads frame after frame until it *)
(* has the one it was asked for, or there are no more.  It refines the single step of Decoder.tla, *)
(* and ends after at most one call more than there are frames, whatever it is asked for.         *)
EXTENDS Integers, Sequences

CONSTANTS MaxFrames, MaxK,
          Stubborn          (* the loop goes on at the end of the video, as it once did *)

VARIABLES total, pos,       (* as seen by the user *)
          cur,              (* frames the decoder has delivered *)
          k, no, calls, pc, result

vars == <<total, pos, cur, k, no, calls, pc, result>>
Enforced == {"C21"}
D == INSTANCE Decoder

Init ==
    /\ total \in 0..MaxFrames
    /\ pos = 0 /\ cur = 0 /\ k = 0 /\ no = 0 /\ calls = 0
    /\ pc = "idle" /\ result = 0

Call ==
    /\ pc = "idle"
    /\ k' \in 0..MaxK
    /\ no' = 0 /\ calls' = 0 /\ pc' = "loop" /\ result' = 0
    /\ UNCHANGED <<total, pos, cur>>

(* One round of the loop: a call of read_video_frame *)
Round ==
    /\ pc = "loop"
    /\ calls' = calls + 1
    /\ cur' = IF cur < total THEN cur + 1 ELSE cur
    /\ IF cur = total /\ ~Stubborn THEN pc' = "return" /\ result' = 0 /\ UNCHANGED no
       ELSE IF no = k THEN pc' = "return" /\ result' = (IF cur < total THEN cur + 1 ELSE 0) /\ UNCHANGED no
       ELSE no' = no + 1 /\ UNCHANGED <<pc, result>>
    /\ UNCHANGED <<total, pos, k>>

Return ==
    /\ pc = "return"
    /\ pos' = cur
    /\ pc' = "idle"
    /\ UNCHANGED <<total, cur, k, no, calls, result>>

Next == Call \/ Round \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Round \/ Return)

(* Seen from outside it is the step of Decoder.tla, *)
Implements == [][Return => (D!Specific(k) /\ (result # 0 <=> D!SpecificDelivers(k))
                            /\ (result # 0 => result = pos + k + 1))]_vars
(* it ends, *)
Ends == (pc = "loop") ~> (pc = "idle")
(* and soon: *)
Soon == pc # "idle" => calls <= total - pos + 1
=============================================================================
