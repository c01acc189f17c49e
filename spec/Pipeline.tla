------------------------------ MODULE Pipeline ------------------------------
(* The algorithm of process_video / process_video_mt: one decoding thread, a bounded channel, and *)
(* rounds of `t` parallel jobs which each receive and measure one pair.  One action is one step   *)
(* of the code that another thread may observe.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  MaxN,        (* clips have 0..MaxN frames *)
  Limits,      (* frame limits, NoLimit = -1 included or not *)
  Threads,     (* numbers of workers *)
  MaxFail,     (* at most this many pairs fail *)
  Panics,      (* a set of <<who, when>>: "dec1", "dec2", "cb" at its when-th call, <<"none", 0>> *)
  RxHeld,      (* the receiver stays connected while the decoding thread is joined: the defect    *)
               (* of the original code, which TLC finds as a violation of Returns                 *)
  Unbounded    (* the channel never exerts back-pressure: violates Bounded for long clips         *)

VARIABLES
  scn, pan,
  dpc,        (* decoding thread: "check", "read1", "read2", "notify", "send", "end", "done", "dead" *)
  decoded,    (* its loop counter *)
  reads,      (* calls of each decoder *)
  got,        (* <<has frame 1, has frame 2>> of this iteration *)
  cbs, ended, calls,  (* callback: pairs announced, end announced, number of calls *)
  chan,       (* the channel: a sequence of pairs <<i, j>> *)
  rx,         (* receiver: "open", "dropped" *)
  died,       (* a decoder or the callback panicked *)
  senderr,    (* the decoding thread returned an error *)
  jobs,       (* jobs[w]: "idle", "none" (disconnected), <<i, j>> (measuring), or a result *)
  results,    (* collected results: a sequence of pairs *)
  perr,       (* a pair could not be measured *)
  cpc,        (* consumer: "start", "round", "join", "ret" *)
  measured,   (* pairs measured *)
  out

vars == <<scn, pan, dpc, decoded, reads, got, cbs, ended, calls, chan, rx, died, senderr, jobs, results, perr, cpc, measured, out>>

NoLimit == -1
W == 1..scn.t
Idle == <<"idle">>
None == <<"none">>
Busy(i, j) == <<"busy", i, j>>
Good(i, j) == <<"good", i, j>>
Bad(i, j) == <<"bad", i, j>>

SomePanics == {<<"none", 0>>, <<"dec1", 1>>, <<"dec1", 3>>, <<"dec2", 2>>, <<"cb", 1>>, <<"cb", 3>>}
SomeLimits == {NoLimit, 0, 1, 2}
NoPanic == {<<"none", 0>>}

PairSets == {S \in SUBSET (1..MaxN) : Cardinality(S) <= MaxFail}
Scenarios == [n : {<<a, b>> : a \in 0..MaxN, b \in 0..MaxN}, limit : Limits, fail : PairSets,
              differ : BOOLEAN, t : Threads]

Init ==
    /\ scn \in {s \in Scenarios : (s.differ => s.fail = {} /\ s.n = <<1, 1>>)
                                  /\ \A i \in s.fail : i <= s.n[1] /\ i <= s.n[2]}
    /\ pan \in (IF scn.differ THEN {<<"none", 0>>} ELSE Panics)
    /\ dpc = "check"
    /\ decoded = 0 /\ reads = <<0, 0>> /\ got = <<FALSE, FALSE>>
    /\ cbs = 0 /\ ended = FALSE /\ calls = 0
    /\ chan = <<>> /\ rx = "open" /\ died = FALSE /\ senderr = FALSE
    /\ jobs = [w \in W |-> Idle] /\ results = <<>> /\ perr = FALSE
    /\ cpc = "start" /\ measured = 0 /\ out = "running"

Capacity == IF Unbounded THEN 1000 ELSE scn.t
Running == cpc # "start" /\ out = "running"

-----------------------------------------------------------------------------
(* process_video: formats are compared before anything is read *)
Start ==
    /\ cpc = "start"
    /\ IF scn.differ THEN out' = "mismatch" /\ cpc' = "ret" ELSE cpc' = "round" /\ UNCHANGED out
    /\ UNCHANGED <<scn, pan, dpc, decoded, reads, got, cbs, ended, calls, chan, rx, died, senderr, jobs, results, perr, measured>>

DecUnch == UNCHANGED <<scn, pan, rx, jobs, results, perr, cpc, measured, out>>
Dies(who, k) == pan = <<who, k>>

CheckLimit ==
    /\ Running /\ dpc = "check"
    /\ IF scn.limit = NoLimit \/ scn.limit > decoded
       THEN dpc' = "read1" /\ decoded' = decoded + 1
       ELSE dpc' = "end" /\ UNCHANGED decoded
    /\ UNCHANGED <<reads, got, cbs, ended, calls, chan, died, senderr>> /\ DecUnch

Read1 ==
    /\ Running /\ dpc = "read1"
    /\ IF Dies("dec1", reads[1] + 1)
       THEN dpc' = "dead" /\ senderr' = TRUE /\ died' = TRUE /\ UNCHANGED <<reads, got>>
       ELSE /\ reads' = [reads EXCEPT ![1] = @ + 1]
            /\ got' = <<reads'[1] <= scn.n[1], FALSE>>
            /\ dpc' = "read2"
            /\ UNCHANGED <<died, senderr>>
    /\ UNCHANGED <<decoded, cbs, ended, calls, chan>> /\ DecUnch

Read2 ==
    /\ Running /\ dpc = "read2"
    /\ IF Dies("dec2", reads[2] + 1)
       THEN dpc' = "dead" /\ senderr' = TRUE /\ died' = TRUE /\ UNCHANGED <<reads, got>>
       ELSE /\ reads' = [reads EXCEPT ![2] = @ + 1]
            /\ got' = <<got[1], reads'[2] <= scn.n[2]>>
            /\ dpc' = IF got'[1] /\ got'[2] THEN "notify" ELSE "end"
            /\ UNCHANGED <<died, senderr>>
    /\ UNCHANGED <<decoded, cbs, ended, calls, chan>> /\ DecUnch

DoNotify ==
    /\ Running /\ dpc = "notify"
    /\ IF Dies("cb", calls + 1)
       THEN dpc' = "dead" /\ senderr' = TRUE /\ died' = TRUE /\ UNCHANGED <<cbs, calls>>
       ELSE cbs' = decoded /\ calls' = calls + 1 /\ dpc' = "send" /\ UNCHANGED <<died, senderr>>
    /\ UNCHANGED <<decoded, reads, got, ended, chan>> /\ DecUnch

(* send() blocks while the channel is full and a receiver exists, and fails without receiver *)
Send ==
    /\ Running /\ dpc = "send"
    /\ IF rx = "dropped"
       THEN dpc' = "dead" /\ senderr' = TRUE /\ UNCHANGED <<died, chan>>
       ELSE /\ Len(chan) < Capacity
            /\ chan' = Append(chan, <<reads[1], reads[2]>>)
            /\ dpc' = "check"
            /\ UNCHANGED <<died, senderr>>
    /\ UNCHANGED <<decoded, reads, got, cbs, ended, calls>> /\ DecUnch

End ==
    /\ Running /\ dpc = "end"
    /\ IF Dies("cb", calls + 1)
       THEN dpc' = "dead" /\ senderr' = TRUE /\ died' = TRUE /\ UNCHANGED <<ended, calls>>
       ELSE ended' = TRUE /\ calls' = calls + 1 /\ dpc' = "done" /\ UNCHANGED <<died, senderr>>
    /\ UNCHANGED <<decoded, reads, got, cbs, chan>> /\ DecUnch

-----------------------------------------------------------------------------
SenderGone == dpc \in {"done", "dead"}
ConUnch == UNCHANGED <<scn, pan, dpc, decoded, reads, got, cbs, ended, calls, died, senderr>>

Receive(w) ==
    /\ Running /\ cpc = "round" /\ jobs[w] = Idle
    /\ \/ /\ chan # <<>>
          /\ jobs' = [jobs EXCEPT ![w] = Busy(Head(chan)[1], Head(chan)[2])]
          /\ chan' = Tail(chan)
       \/ /\ chan = <<>> /\ SenderGone
          /\ jobs' = [jobs EXCEPT ![w] = None]
          /\ UNCHANGED chan
    /\ UNCHANGED <<rx, results, perr, cpc, measured, out>> /\ ConUnch

Process(w) ==
    /\ Running /\ jobs[w][1] = "busy"
    /\ LET i == jobs[w][2]  j == jobs[w][3] IN
       jobs' = [jobs EXCEPT ![w] = IF i \in scn.fail THEN Bad(i, j) ELSE Good(i, j)]
    /\ measured' = measured + 1
    /\ UNCHANGED <<chan, rx, results, perr, cpc, out>> /\ ConUnch

RECURSIVE Goods(_)
Goods(w) == IF w = 0 THEN <<>>
            ELSE Goods(w - 1) \o (IF jobs[w][1] = "good" THEN << <<jobs[w][2], jobs[w][3]>> >> ELSE <<>>)

Collect ==
    /\ Running /\ cpc = "round"
    /\ \A w \in W : jobs[w][1] \in {"none", "good", "bad"}
    /\ LET bad == \E w \in W : jobs[w][1] = "bad"
           good == Goods(scn.t) IN
       IF bad \/ good = <<>>
       THEN /\ cpc' = "join" /\ perr' = bad /\ UNCHANGED results
            /\ rx' = IF RxHeld THEN rx ELSE "dropped"
            /\ chan' = IF RxHeld THEN chan ELSE <<>>
       ELSE /\ results' = results \o good /\ UNCHANGED <<cpc, perr, rx, chan>>
    /\ jobs' = [w \in W |-> Idle]
    /\ UNCHANGED <<measured, out>> /\ ConUnch

Join ==
    /\ Running /\ cpc = "join" /\ SenderGone
    /\ cpc' = "ret"
    /\ out' = IF perr \/ senderr \/ results = <<>> THEN "error" ELSE "ok"
    /\ UNCHANGED <<chan, rx, jobs, results, perr, measured>> /\ ConUnch

Done == out # "running" /\ UNCHANGED vars

Next ==
    \/ Start \/ CheckLimit \/ Read1 \/ Read2 \/ DoNotify \/ Send \/ End
    \/ \E w \in W : Receive(w) \/ Process(w)
    \/ Collect \/ Join \/ Done

(* Threads are scheduled fairly, one after the other: every enabled step of a thread is taken *)
Decoding == CheckLimit \/ Read1 \/ Read2 \/ DoNotify \/ Send \/ End
Fair == /\ WF_vars(Start) /\ WF_vars(Decoding) /\ WF_vars(Collect) /\ WF_vars(Join)
        /\ \A w \in 1..4 : WF_vars(w \in W /\ (Receive(w) \/ Process(w)))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
(* The pipeline implements the observable specification. *)
Observed == INSTANCE Compare WITH panicked <- died, astray <- FALSE,
                Enforced <- {"C01", "C02", "C03", "C04", "C05", "C06", "C07"}
Implements == Observed!Init /\ [][Observed!Next]_<<scn, reads, cbs, ended, measured, died, out>>
LimitKept == Observed!LimitKept
AnnouncedAfterDecoding == Observed!AnnouncedAfterDecoding
NeverPartial == Observed!NeverPartial
MismatchFirst == Observed!MismatchFirst
Bounded == Observed!Bounded
Returns == Observed!Returns

(* Pairing: what is sent, measured and collected are pairs of frames with the same number, each   *)
(* exactly once.                                                                                 *)
Paired ==
    /\ \A k \in DOMAIN chan : chan[k][1] = chan[k][2]
    /\ \A k \in DOMAIN results : results[k][1] = results[k][2]
    /\ \A k, l \in DOMAIN results : k # l => results[k] # results[l]
    /\ (out = "ok") => {results[k][1] : k \in DOMAIN results} = 1..Observed!Pairs(scn)

(* Frames which are in memory: in the channel, with the workers, with the decoding thread *)
InMemory ==
    LET held == CASE dpc = "read2" -> (IF got[1] THEN 1 ELSE 0)
                  [] dpc \in {"notify", "send"} -> 2
                  [] OTHER -> 0
    IN held + 2 * Len(chan) + 2 * Cardinality({w \in W : jobs[w][1] = "busy"})
Tight == InMemory <= 2 * (2 * scn.t + 1)
=============================================================================
