----------------------------- MODULE FrameTrace -----------------------------
(* Checks recorded sessions (the JSON file named by the environment variable TRACES) against      *)
(* FrameSession.tla, and the scores of those which come with their samples against the           *)
(* definitions of the metrics.                                                                   *)
EXTENDS FrameSession, Json, IOUtils
LOCAL INSTANCE Psnr
LOCAL INSTANCE Ssim
LOCAL INSTANCE PsnrHvs
Ci == INSTANCE Ciede

VARIABLES tid, i, whole

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]

-----------------------------------------------------------------------------
(* The definitions: the scores of the samples A and B *)
SsimDefined(r, A, B, f, Of(_, _, _)) ==
    LET s == Tab(3, LAMBDA p : Of(A[p], B[p], f.depth))
        e == SimilarityOfFrames(<<s>>, f.cs)
    IN /\ NearLinear(r[1], e.y)
       /\ NearLinear(r[2], e.u)
       /\ NearLinear(r[3], e.v)
       /\ NearLinear(r[4], e.avg)

HvsDefined(r, A, B, f) ==
    LET s == Tab(3, LAMBDA p : HvsPlane(A[p], B[p], p, f.depth))
        e == HvsOfFrames(<<s>>, f.cs)
        Rel(db, lin) == \/ FIsInf(db) /\ FLt(0, db) /\ FLt(lin, FLit("1e-15"))
                        \/ ~FIsInf(db) /\ Near(Linear(db), lin, FLit("1e-7"), FLit("1e-15"))
    IN /\ Rel(r[1], e.y)
       /\ Rel(r[2], e.u)
       /\ Rel(r[3], e.v)
       /\ Rel(r[4], e.avg)

PsnrDefined(r, A, B, f) ==
    LET e == PsnrOfFrames(<<PsnrPlanes(A, B)>>, f.depth)
    IN /\ NearScore(r[1], e.y)
       /\ NearScore(r[2], e.u)
       /\ NearScore(r[3], e.v)
       /\ NearScore(r[4], e.avg)

(* Single precision: the mean difference lies within a small margin of the interval *)
CiedeDefined(r, A, B, f) ==
    LET d == Ci!MeanDeltaE(A, B, f.depth, f.cs)
        low == FSub(FMul(d[1], FLit("0.9998")), FLit("0.0002"))
        high == FAdd(FMul(d[2], FLit("1.0002")), FLit("0.0002"))
    IN IF FEq(r[1], 100) THEN FLe(low, FPow(10, FLit("-2.75")))
       ELSE FLe(low, Mean(r[1])) /\ FLe(Mean(r[1]), high)

Defined(m, r, A, B, f) ==
    CASE m = "psnr" -> Rule("C09", PsnrDefined(r, A, B, f))
      [] m = "ssim" -> Rule("C10", SsimDefined(r, A, B, f, SsimPlane))
      [] m = "msssim" -> Rule("C11", SsimDefined(r, A, B, f, MsssimPlane))
      [] m = "psnrhvs" -> Rule("C12", HvsDefined(r, A, B, f))
      [] m \in {"ciede", "ciede_nosimd"} -> Rule("C13", CiedeDefined(r, A, B, f))

-----------------------------------------------------------------------------
TInit ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ fmt = [w |-> T.scn.w, h |-> T.scn.h, depth |-> T.scn.depth, cs |-> T.scn.cs]
    /\ content = T.ev[1].content   (* as the first operation, which is a measurement or the writing of a plane, left it *)
    /\ whole = T.ev[1].whole
    /\ place = <<0, 0, 1>>
    /\ Init

(* The measurement of contents which are supported gives a score; C07 is about the others *)
Results(e) ==
    \A k \in DOMAIN e.results :
        /\ e.results[k].kind = "ok"
        /\ k = 1 /\ e.samples # <<>> => Defined(e.m, e.results[1].score, e.samples[1], e.samples[2], fmt)

RECURSIVE AllRelated(_, _, _)
AllRelated(m, e, k) ==
    IF k > Len(e.results) THEN TRUE
    ELSE /\ \A j \in 1..(k - 1) : Rule("C25", Same(m, e.results[k].score, e.results[j].score))
         /\ AllRelated(m, e, k + 1)

Event ==
    /\ i <= Len(T.ev)
    /\ i' = i + 1
    /\ LET e == T.ev[i] IN
       /\ whole' = e.whole
       /\ CASE e.op = "fill" -> Fill(e.f, e.p, e.content[e.f][e.p]) /\ content' = e.content
            [] e.op = "scribble" -> Scribble(e.f, e.seed) /\ e.content = content
            [] e.op = "relayout" -> Relayout(e.seed) /\ e.content = content
            [] e.op = "swap" -> Swap /\ content' = e.content
            [] e.op = "measure" ->
                /\ Rule("C25", e.whole = whole /\ e.content = content)
                /\ IF Supported(e.m, fmt)
                   THEN /\ Results(e)
                        /\ Measure(e.m, e.via, e.results[1].score)
                        /\ AllRelated(e.m, e, 1)
                   ELSE Unmeasurable(e.m, e.results[1].kind)
            [] e.op = "mismatch" ->
                /\ Rule("C06", e.whole = whole)
                /\ Mismatch(e.m, e.results[1].kind)

TNext == Event /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<svars, tid, i, whole>>

Progress == TLCSet(tid, i)
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces :
        TLCGet(j) = Len(Traces[j].ev) + 1 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
