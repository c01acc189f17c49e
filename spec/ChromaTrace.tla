----------------------------- MODULE ChromaTrace -----------------------------
(* Checks recorded calls of convert_chroma_data against Chroma.tla.  The state is the visible part *)
(* of the plane which is written to.                                                             *)
EXTENDS Chroma, Json, IOUtils

CONSTANT Enforced

VARIABLES tid, i, plane

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
Rule(p, condition) == (p \in Enforced => condition) = TRUE

(* The samples of the source: rows of `stride` bytes, the lower byte of a sample first *)
Sample(e, x, y) ==
    LET k == (y - 1) * e.stride + (x - 1) * e.bw + 1 IN
    IF e.bw = 2 THEN e.bytes[k] + 256 * e.bytes[k + 1] ELSE e.bytes[k]
Source(e, w, h) == IF w = 0 THEN <<>> ELSE [y \in 1..h |-> [x \in 1..w |-> Sample(e, x, y)]]

TInit ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ plane = <<>>

Convert(e) ==
    /\ Rule("C19", e.kind = "ok")
    /\ plane' = e.out
    /\ Rule("C19", e.out = Converted(TLCEval(Source(e, T.scn.w, T.scn.h)), e.position, e.depth))

TNext ==
    /\ i <= Len(T.ev)
    /\ i' = i + 1
    /\ Convert(T.ev[i])
    /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<plane, tid, i>>

Progress == TLCSet(tid, i)
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces :
        TLCGet(j) = Len(Traces[j].ev) + 1 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
