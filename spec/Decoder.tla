------------------------------- MODULE Decoder -------------------------------
(* What a decoder does: it delivers its frames one after another, and then nothing.  Reading a     *)
(* specific frame counts from the next one.                                                      *)
EXTENDS Integers, Sequences

CONSTANT Enforced
VARIABLES total,   (* frames of the video, constant *)
          pos      (* frames consumed *)

dvars == <<total, pos>>

Rule(p, condition) == (p \in Enforced => condition) = TRUE

DInit == pos = 0

(* The next frame is delivered, if there is one. *)
Read == /\ pos' = IF pos < total THEN pos + 1 ELSE pos
        /\ UNCHANGED total
ReadDelivers == pos < total

(* The k-th frame from here is delivered, if there is one, and all up to it are consumed. *)
Specific(k) == /\ pos' = IF pos + k + 1 <= total THEN pos + k + 1 ELSE total
               /\ UNCHANGED total
SpecificDelivers(k) == pos + k + 1 <= total
=============================================================================
