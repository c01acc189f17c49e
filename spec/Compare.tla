------------------------------- MODULE Compare -------------------------------
(* What a user may observe of the comparison of two videos, whatever threads carry it out: the    *)
(* reads from the two decoders, the calls of the progress callback, how many decoded frames are   *)
(* in memory, and the result.  Pipeline.tla shows that the algorithm of av-metrics is one of the  *)
(* allowed implementations; CompareTrace.tla checks recorded comparisons against this module.     *)
(*                                                                                              *)
(* A scenario is a record                                                                        *)
(*   n      <<length of the first clip, length of the second clip>>                              *)
(*   limit  the frame limit; NoLimit, or another negative number for a limit beyond all clips    *)
(*   fail   the set of the pairs which cannot be measured                                        *)
(*   differ the two streams announce different formats                                           *)
(*   t      the number of threads of the pool                                                    *)
(*                                                                                              *)
(* Every condition carries the name of the property it belongs to, and `Enforced` are the         *)
(* properties under consideration: with all of them this is the specification of a comparison.   *)
EXTENDS Integers, FiniteSets

CONSTANTS Scenarios, Enforced

VARIABLES
  scn,       (* the scenario, constant *)
  reads,     (* reads[d]: calls answered by decoder d *)
  cbs,       (* pairs announced to the progress callback: it was called with 1, ..., cbs *)
  ended,     (* the callback was told about the end *)
  astray,    (* the callback was called otherwise *)
  measured,  (* pairs whose measurement has finished *)
  panicked,  (* a decoder or the callback panicked *)
  out        (* "running", or how the comparison ended *)

cvars == <<scn, reads, cbs, ended, astray, measured, panicked, out>>

Rule(p, condition) == (p \in Enforced => condition) = TRUE   (* a value: TLC would branch on disjunctions *)

NoLimit == -1
Min2(a, b) == IF a < b THEN a ELSE b

Within(s, k) == s.limit < 0 \/ k <= s.limit

(* The pairs that are compared are 1..Pairs(s) *)
Pairs(s) ==
    LET m == Min2(s.n[1], s.n[2]) IN IF s.limit < 0 THEN m ELSE Min2(m, s.limit)

(* Whether a failure of the metric is met *)
Failing(s) == \E i \in s.fail : i <= Pairs(s)

(* Whether nothing keeps the comparison from a score *)
Sound == ~scn.differ /\ ~panicked /\ ~Failing(scn) /\ Pairs(scn) > 0

(* Frames delivered by decoder d, and frames which are in memory *)
Delivered(d) == Min2(reads[d], scn.n[d])
Alive == Delivered(1) + Delivered(2) - 2 * measured

(* How many frames may be in memory at once: some for each thread, whatever the clips.            *)
MaxAlive(t) == 2 * (4 * t + 8)

(* All memory in use, in units of the size of a pair of frames: these frames and some room for     *)
(* each worker; and a little for the results of the pairs.                                       *)
MaxMemory(t, pair) == (4 * t + 8 + 40 * t) * pair + 256

Init ==
    /\ scn \in Scenarios
    /\ reads = <<0, 0>>
    /\ cbs = 0
    /\ ended = FALSE
    /\ astray = FALSE
    /\ measured = 0
    /\ panicked = FALSE
    /\ out = "running"

(* Decoder d is asked for its next frame, and answers. *)
Read(d) ==
    /\ out = "running"
    /\ Rule("C06", ~scn.differ)
    /\ Rule("C03", Within(scn, reads[d] + 1))
    /\ reads' = [reads EXCEPT ![d] = @ + 1]
    /\ Rule("C04", reads'[d] <= scn.n[d] => Alive < MaxAlive(scn.t))
    /\ UNCHANGED <<scn, cbs, ended, astray, measured, panicked, out>>

(* The callback is told about a pair: the next one, which was decoded before.  A comparison which *)
(* is going to fail may do otherwise.                                                            *)
Notify(k) ==
    /\ Rule("C05", out = "running")
    /\ IF k = cbs + 1 /\ ~ended /\ ~astray /\ k <= Delivered(1) /\ k <= Delivered(2)
       THEN cbs' = k /\ UNCHANGED astray
       ELSE astray' = TRUE /\ UNCHANGED cbs
    /\ UNCHANGED <<scn, reads, ended, measured, panicked, out>>

(* So many rounds of a read from either decoder and a call of the callback, the first with k, one   *)
(* after another.                                                                                *)
Rounds(k, count) ==
    /\ out = "running"
    /\ Rule("C06", ~scn.differ)
    /\ Rule("C03", \A d \in {1, 2} : Within(scn, reads[d] + count))
    /\ reads' = <<reads[1] + count, reads[2] + count>>
    /\ IF k = cbs + 1 /\ ~ended /\ ~astray /\ \A d \in {1, 2} : k <= reads[d] + 1 /\ k + count - 1 <= Min2(reads'[d], scn.n[d])
       THEN cbs' = cbs + count /\ UNCHANGED astray
       ELSE astray' = TRUE /\ UNCHANGED cbs
    /\ UNCHANGED <<scn, ended, measured, panicked, out>>

(* The callback is told about the end. *)
NotifyEnd ==
    /\ Rule("C05", out = "running")
    /\ ended' = TRUE
    /\ astray' = (astray \/ ended)
    /\ UNCHANGED <<scn, reads, cbs, measured, panicked, out>>

(* Some pairs have been measured and their frames released. *)
Measure(m) ==
    /\ out = "running"
    /\ m > measured
    /\ m <= Min2(Delivered(1), Delivered(2))
    /\ measured' = m
    /\ UNCHANGED <<scn, reads, cbs, ended, astray, panicked, out>>

(* A decoder or the callback panics. *)
Panic ==
    /\ out = "running"
    /\ panicked' = TRUE
    /\ UNCHANGED <<scn, reads, cbs, ended, astray, measured, out>>

(* The comparison returns a score, or one of two kinds of errors. *)
Return(o) ==
    /\ out = "running"
    /\ out' = o
    /\ Rule("C01", o \in {"ok", "error", "mismatch"})
    /\ Rule("C06", scn.differ => o = "mismatch")
    /\ Rule("C06", ~scn.differ /\ Failing(scn) => o \in {"error", "mismatch"})
    /\ Rule("C07", ~Sound => o \in {"error", "mismatch"})
    /\ Rule("C02", Sound => o = "ok")
    /\ Rule("C03", (Sound \/ scn.limit = 0) => (o = "ok") = Sound)
    (* A score is that of all pairs, which have been read therefore *)
    /\ Rule("C02", o = "ok" => Delivered(1) >= Pairs(scn) /\ Delivered(2) >= Pairs(scn))
    /\ Rule("C03", o = "ok" => Delivered(1) >= Pairs(scn) /\ Delivered(2) >= Pairs(scn))
    /\ Rule("C05", o = "ok" => cbs = Pairs(scn) /\ ended /\ ~astray)
    /\ UNCHANGED <<scn, reads, cbs, ended, astray, measured, panicked>>

Done == out # "running" /\ UNCHANGED cvars

Next ==
    \/ \E d \in {1, 2} : Read(d)
    \/ Notify(cbs + 1)
    \/ NotifyEnd
    \/ \E m \in 1..Min2(Delivered(1), Delivered(2)) : Measure(m)
    \/ Panic
    \/ \E o \in {"mismatch", "error", "ok"} : Return(o)
    \/ Done

Spec == Init /\ [][Next]_cvars

-----------------------------------------------------------------------------
(* The properties, as invariants of the observable behaviour *)
LimitKept == \A d \in {1, 2} : Within(scn, reads[d])
AnnouncedAfterDecoding == cbs <= Min2(Delivered(1), Delivered(2))
NeverPartial == (out = "ok") => Sound /\ cbs = Pairs(scn) /\ ended /\ ~astray
MismatchFirst == scn.differ => (reads = <<0, 0>> /\ cbs = 0 /\ out \in {"running", "mismatch"})
Bounded == Alive <= MaxAlive(scn.t)
Returns == <>(out # "running")
=============================================================================
