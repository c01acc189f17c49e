-------------------------------- MODULE Tool --------------------------------
(* The command line tool.  It is started with a base file, further files, maybe one metric, and     *)
(* the reports that are wanted; it compares the base with each file, in order, and then writes     *)
(* the reports, all of them from the same results.                                              *)
EXTENDS Integers, Sequences

Metrics == {"psnr", "apsnr", "psnrhvs", "ssim", "msssim", "ciede"}
Exports == {"text", "json", "csv", "md"}
Dests == Exports \cup {"stdout"}

(* A run: `usage` whether the command line makes sense, `wanted` the reports asked for (standard    *)
(* output unless --quiet), `broken` those which cannot be written, `lost` the files which cannot    *)
(* be opened (0 is the base), `metric` the chosen one or "all", `n` the number of files, and       *)
(* `measurable` what a comparison can be made of.                                               *)
VARIABLES run, 
          phase,     (* "start", "compare", "report", "ok", "error" *)
          created,   (* the export files which exist *)
          rows,      (* comparisons made: for each the metrics which have a score *)
          filled     (* the reports which are complete, and how many rows they have *)

vars == <<run, phase, created, rows, filled>>

Selected(r) == IF r.metric = "all" THEN Metrics ELSE {r.metric}
Scored(r, i) == Selected(r) \cap r.measurable[i]

Init ==
    /\ phase = "start"
    /\ created = {}
    /\ rows = <<>>
    /\ filled = [d \in {} |-> 0]

Fail == phase' = "error" /\ UNCHANGED <<run, created, rows, filled>>

BadUsage == phase = "start" /\ ~run.usage /\ Fail

(* An export file is made before its report is written, some time *)
Create(d) ==
    /\ phase \in {"start", "compare", "report"}
    /\ run.usage
    /\ d \in (run.wanted \cap Exports) \ created
    /\ created' = created \cup {d}
    /\ UNCHANGED <<run, phase, rows, filled>>

CannotWrite(d) ==
    /\ phase \in {"start", "compare", "report"}
    /\ run.usage
    /\ d \in run.wanted \cap run.broken
    /\ Fail

Begin ==
    /\ phase = "start" /\ run.usage
    /\ phase' = "compare"
    /\ UNCHANGED <<run, created, rows, filled>>

Compare ==
    /\ phase = "compare"
    /\ Len(rows) < run.n
    /\ {0, Len(rows) + 1} \cap run.lost = {}
    /\ rows' = Append(rows, Scored(run, Len(rows) + 1))
    /\ UNCHANGED <<run, phase, created, filled>>

CannotOpen ==
    /\ phase = "compare"
    /\ Len(rows) < run.n
    /\ {0, Len(rows) + 1} \cap run.lost # {}
    /\ Fail

Compared ==
    /\ phase = "compare"
    /\ Len(rows) = run.n
    /\ phase' = "report"
    /\ UNCHANGED <<run, created, rows, filled>>

Fill(d) ==
    /\ phase = "report"
    /\ d \in (run.wanted \ run.broken) \ DOMAIN filled
    /\ d \in Exports => d \in created
    /\ filled' = [x \in DOMAIN filled \cup {d} |-> Len(rows)]
    /\ UNCHANGED <<run, phase, created, rows>>

Succeed ==
    /\ phase = "report"
    /\ DOMAIN filled = run.wanted
    /\ phase' = "ok"
    /\ UNCHANGED <<run, created, rows, filled>>

Work == \/ BadUsage \/ Begin \/ Compare \/ CannotOpen \/ Compared \/ Succeed
        \/ \E d \in Dests : Create(d) \/ CannotWrite(d) \/ Fill(d)

Done == phase \in {"ok", "error"} /\ UNCHANGED vars
Next == Work \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

(* ------------------------------------------------------------------ what follows *)
Ended == phase \in {"ok", "error"}

(* Success means that nothing is missing: every report that was asked for, with every comparison,  *)
SuccessIsComplete ==
    phase = "ok" => /\ DOMAIN filled = run.wanted
                    /\ \A d \in run.wanted : filled[d] = run.n
                    /\ run.wanted \cap Exports = created
                    /\ Len(rows) = run.n
(* failures show, *)
FailuresShow == phase = "ok" => run.usage /\ run.wanted \cap run.broken = {} /\ run.lost = {}
NoFalseAlarm == phase = "error" => ~run.usage \/ run.wanted \cap run.broken # {} \/ run.lost # {}
(* nothing is written which was not asked for, *)
NothingElse == created \subseteq run.wanted /\ DOMAIN filled \subseteq run.wanted
(* no score is made up, *)
NoInvention == \A i \in DOMAIN rows : rows[i] \subseteq run.measurable[i] /\ rows[i] \subseteq Selected(run)
(* and the tool ends. *)
Ends == <>Ended
=============================================================================
