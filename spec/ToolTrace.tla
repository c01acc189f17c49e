------------------------------ MODULE ToolTrace ------------------------------
(* Checks what a run of the tool left behind against Tool.tla: one of the behaviours of the        *)
(* specification has to end like it.                                                            *)
EXTENDS Tool, F64, TLC, Json, IOUtils

CONSTANT Enforced
VARIABLES tid

Rule(p, condition) == (p \in Enforced => condition) = TRUE

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]

Set(s) == {s[i] : i \in DOMAIN s}
RunOf(t) == [usage |-> t.run.usage, wanted |-> Set(t.run.wanted), broken |-> Set(t.run.broken), lost |-> Set(t.run.lost),
             metric |-> t.run.metric, n |-> t.run.n,
             measurable |-> [i \in 1..t.run.n |-> IF i \in DOMAIN t.lib THEN {m \in Metrics : t.lib[i][m] # <<>>} ELSE {}]]

TInit == tid \in DOMAIN Traces /\ run = RunOf(Traces[tid]) /\ Init
TNext == Work /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<vars, tid>>

(* ------------------------------------------------------------------ scores in reports *)
Close(a, b, tolerance) == FEq(a, b) \/ FLe(FAbs(FSub(a, b)), tolerance)
Rounding(a) == FAdd(FLit("1e-9"), FMul(FLit("1e-9"), FAbs(a)))

(* JSON knows no infinity: there is nothing (here NaN) in its place *)
InJson(v, lib) == IF FIsInf(lib) THEN FIsNaN(v) ELSE Close(v, lib, Rounding(lib))
InText(v, lib) == Close(v, lib, FLit("0.0000501"))
InTable(v, lib) == Close(v, lib, Rounding(lib))

Average(s) == s[Len(s)]
NegativeZero == <<-2147483647 - 1, 0>>

(* The score v which report d has of metric m in a row, given the score of the library.           *)
ScoreIs(d, v, lib) ==
    CASE d = "json" -> Len(v) = Len(lib) /\ \A j \in DOMAIN lib : InJson(v[j], lib[j])
      [] d \in {"text", "stdout"} -> Len(v) = Len(lib) /\ \A j \in DOMAIN lib : InText(v[j], lib[j])
      [] OTHER -> Len(v) = 1 /\ InTable(v[1], Average(lib))

NoScore(d, v) == IF d \in {"csv", "md"} THEN v = <<NegativeZero>> ELSE v = <<>>

(* The scores of all reports are the same, not just close to those of the library *)
Reports == {d \in Dests : T.reports[d].state = "entries"}
SameIn(d1, d2, i, m) ==
    LET a == T.reports[d1].entries[i].scores[m]
        b == T.reports[d2].entries[i].scores[m] IN
    CASE {d1, d2} = {"csv", "md"} -> a = b
      [] {d1, d2} = {"text", "stdout"} -> a = b
      [] d1 = "json" /\ d2 \in {"csv", "md"} -> FIsNaN(Average(a)) \/ Average(a) = b[1]
      [] OTHER -> TRUE

RowIs(d, i) ==
    LET e == T.reports[d].entries[i] IN
    /\ Rule("C23", e.named)
    /\ \A m \in Metrics :
        IF m \in rows[i]
        THEN /\ Rule("C23", ScoreIs(d, e.scores[m], T.lib[i][m]))
             /\ Rule("C23", \A d2 \in Reports : SameIn(d, d2, i, m))
        ELSE IF m \in Selected(run) THEN Rule("C24", NoScore(d, e.scores[m]))
        ELSE Rule("C23", NoScore(d, e.scores[m]))

ReportIs(d) ==
    LET r == T.reports[d] IN
    IF d \in DOMAIN filled
    THEN /\ Rule("C23", r.state = "entries") /\ Rule("C24", r.state = "entries")
         /\ Rule("C23", r.base)
         /\ Rule("C23", Len(r.entries) = Len(rows)) /\ Rule("C24", Len(r.entries) = Len(rows))
         /\ \A i \in DOMAIN rows : i \in DOMAIN r.entries => RowIs(d, i)
    ELSE IF d \notin run.wanted THEN Rule("C24", r.state = IF d = "stdout" THEN "empty" ELSE "absent")
    ELSE TRUE       (* the tool failed before the report was complete *)

(* How it ended *)
Outcome ==
    /\ Rule("C24", T.status = phase)
    /\ Rule("C24", T.bystanders)      (* inputs and other files are as before *)
    /\ T.status # "error" \/ phase = "error"
    /\ phase = "ok" => \A d \in Dests : ReportIs(d)
    /\ phase = "error" => \A d \in Dests \ run.wanted : ReportIs(d)

Accepted == Ended => (Outcome => TLCSet(tid, 2))
Progress == (IF phase = "start" /\ created = {} THEN TLCSet(tid, 1) ELSE TRUE) /\ Accepted
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces : TLCGet(j) = 2 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
