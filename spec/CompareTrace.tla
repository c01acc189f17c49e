---------------------------- MODULE CompareTrace ----------------------------
(* Checks recorded comparisons (the JSON file named by the environment variable TRACES) against    *)
(* Compare.tla and, for those which yield a score, against the aggregation of the metrics.        *)
EXTENDS Compare, Sequences, TLC, Json, IOUtils, Score
LOCAL INSTANCE Psnr
LOCAL INSTANCE Ssim
LOCAL INSTANCE PsnrHvs
LOCAL INSTANCE Planes

VARIABLES tid, i

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
Range(s) == {s[j] : j \in DOMAIN s}

Scn(t) == [n |-> t.scn.n, limit |-> t.scn.limit, fail |-> Range(t.scn.fail),
           differ |-> t.scn.differ # "no", t |-> t.scn.t]
AnyScenario == [n : Nat \X Nat, limit : Int, fail : SUBSET Nat, differ : BOOLEAN, t : Nat]

-----------------------------------------------------------------------------
(* The expected score of a comparison, from the contents of uniform frames (PSNR and APSNR) or     *)
(* from the scores of the single pairs.                                                          *)
PlaneSamples(s, f, p) ==
    LET g == IF s.grow[1] > 0 /\ f >= s.grow[1] THEN 1 ELSE 0     (* the frames may become larger *)
        w == s.w + g * s.grow[2]
        h == s.h + g * s.grow[3]
    IN IF p = 1 THEN w * h ELSE ChromaWidth(s.cs, w) * ChromaHeight(s.cs, h)

Errors(t) ==
    LET s == t.scn
        n == Len(t.vals[1]) IN
    [f \in 1..n |-> [p \in 1..3 |->
        LET d == t.vals[1][f][p] - t.vals[2][f][p]
            k == PlaneSamples(s, f, p)
        IN [se |-> FMul(k, FMul(d, d)), n |-> k]]]

(* Errors of the planes behind the PSNR scores of the pairs *)
ErrorsBehind(t) ==
    LET s == t.scn
        n == Len(t.pf)
        max == FInt(MaxOf(s.depth)) IN
    [f \in 1..n |-> [p \in 1..3 |->
        LET k == PlaneSamples(s, f, p)
            db == t.pf[f].score[p]
        IN [se |-> IF FEq(db, 100) THEN FInt(0) ELSE FMul(k, FMul(FMul(max, max), Linear(db))), n |-> k]]]

AllEqual(recorded, expected, Eq(_, _)) ==
    /\ Eq(recorded[1], expected.y)
    /\ Eq(recorded[2], expected.u)
    /\ Eq(recorded[3], expected.v)
    /\ Eq(recorded[4], expected.avg)

(* The decibels of an aggregate of linear quantities: the mean for each plane *)
MeanLinear(t) ==
    LET n == Len(t.pf)
        M(p) == FDiv(FSum([f \in 1..n |-> IF FIsInf(t.pf[f].score[p]) THEN FInt(0) ELSE Linear(t.pf[f].score[p])]), n)
    IN [y |-> M(1), u |-> M(2), v |-> M(3), avg |-> M(4)]

FromPairs(t) ==
    LET s == t.scn
        score == t.out.score
        (* PSNR recovered from decibels has lost some of its precision *)
        Close(a, b) == a = b \/ Near(a, b, FLit("1e-8"), FLit("1e-8")) IN
    CASE s.m = "psnr" -> AllEqual(score, PsnrOfFrames(ErrorsBehind(t), s.depth), Close)
      [] s.m = "apsnr" -> AllEqual(score, ApsnrOfFrames(ErrorsBehind(t), s.depth), Close)
      [] s.m \in {"ssim", "msssim", "psnrhvs"} -> AllEqual(score, MeanLinear(t), NearLinear)
      [] OTHER -> NearScore(score[1], FDiv(FSum([f \in 1..Len(t.pf) |-> t.pf[f].score[1]]), Len(t.pf)))

FromContents(t) ==
    LET s == t.scn
        score == t.out.score IN
    CASE s.m = "psnr" -> AllEqual(score, PsnrOfFrames(Errors(t), s.depth), NearScore)
      [] s.m = "apsnr" -> AllEqual(score, ApsnrOfFrames(Errors(t), s.depth), NearScore)
      [] OTHER -> TRUE

Aggregated(t) ==
    /\ t.vals # <<>> => FromContents(t)
    /\ (t.pf # <<>> /\ \A f \in DOMAIN t.pf : t.pf[f].kind = "ok") => FromPairs(t)

-----------------------------------------------------------------------------
TInit ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ scn = Scn(T)
    /\ Init

(* As many pairs as the frames in memory allow have been measured by now *)
Measured(live) ==
    LET total == Delivered(1) + Delivered(2)
        m == (total - live) \div 2
    IN Min2(m, Min2(Delivered(1), Delivered(2)))

Event ==
    /\ i <= Len(T.ev)
    /\ i' = i + 1
    /\ LET e == T.ev[i] IN
       /\ Rule("C04", e.kib <= MaxMemory(scn.t, T.scn.pair))
       /\ CASE e.ev = "read" -> Read(e.d) /\ (e.some <=> reads'[e.d] <= scn.n[e.d])
           [] e.ev = "rounds" -> Rounds(e.k, e.count) /\ \A d \in {1, 2} : reads'[d] <= scn.n[d]
           [] e.ev = "cb" -> IF e.k = -1 THEN NotifyEnd ELSE Notify(e.k)
           [] e.ev = "panic" -> Panic
           [] e.ev = "return" ->
              /\ Return(CASE T.out.kind = "err" -> IF T.out.class = "mismatch" THEN "mismatch" ELSE "error"
                          [] OTHER -> T.out.kind)
              /\ Rule("C04", e.live = 0 /\ e.kib <= 256)
              /\ T.out.kind = "ok" /\ Sound => (Enforced \cap {"C02", "C03", "C08"} # {} => Aggregated(T))

(* Frames were released: a step of its own which is not recorded *)
Released ==
    /\ i <= Len(T.ev)
    /\ T.ev[i].ev = "read"
    /\ LET m == Measured(T.ev[i].live - 1) IN
       /\ m > measured
       /\ Measure(m)
    /\ UNCHANGED i

TNext == /\ \/ Released
            \/ Event /\ ~ENABLED Released
         /\ UNCHANGED tid

TSpec == TInit /\ [][TNext]_<<cvars, tid, i>>

(* How far each trace was accepted *)
Progress == TLCSet(tid, i)
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces :
        TLCGet(j) = Len(Traces[j].ev) + 1 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
