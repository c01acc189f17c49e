----------------------------- MODULE CountTrace -----------------------------
(* Checks what read_specific_frame of the trait made of a decoder which counts, against           *)
(* Decoder.tla: which frame was delivered, and how many were taken from the decoder for it.      *)
EXTENDS Decoder, TLC, Json, IOUtils

VARIABLES tid, i

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
Far == 1000000000

TInit ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ total = T.scn.n
    /\ DInit

Event ==
    /\ i <= Len(T.ev)
    /\ i' = i + 1
    /\ LET e == T.ev[i]
           o == T.scn.ops[i]
           k == IF o.k < 0 THEN Far ELSE o.k
           delivers == IF o.op = "read" THEN ReadDelivers ELSE SpecificDelivers(k)
       IN /\ IF o.op = "read" THEN Read ELSE Specific(k)
          /\ Rule("C21", e.kind = IF delivers THEN "some" ELSE "none")
          /\ delivers => Rule("C21", e.number = pos')
          /\ Rule("C21", e.delivered = pos')

TNext == Event /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<dvars, tid, i>>

Progress == TLCSet(tid, i)
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces :
        TLCGet(j) = Len(Traces[j].scn.ops) + 1 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
