----------------------------- MODULE CompareGen -----------------------------
(* Scenarios of Compare.tla for the harness.  Profile selects what they stress; with "design" it   *)
(* is every scenario of the model Pipeline.tla, otherwise they are random and `Count` many.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Profile, Count

VARIABLE k

Pick(S) == RandomElement(S)
(* One of the elements of a sequence: repeat elements to make them more likely *)
Among(s) == s[RandomElement(1..Len(s))]

P == INSTANCE Pipeline WITH
        MaxN <- 4, Limits <- {-1, -2, 0, 1, 2, 3, 4, 5}, Threads <- {1, 2, 3}, MaxFail <- 1,
        Panics <- {<<"none", 0>>}, RxHeld <- FALSE, Unbounded <- FALSE,
        scn <- <<>>, pan <- <<>>, dpc <- 0, decoded <- 0, reads <- 0, got <- 0, cbs <- 0, ended <- 0,
        calls <- 0, chan <- 0, rx <- 0, died <- 0, senderr <- 0, jobs <- 0, results <- 0, perr <- 0,
        cpc <- 0, measured <- 0, out <- 0

(* Design scenarios: those of the model with every position of a panic *)
DesignPanics == {<<"none", 0>>} \cup ({"dec1", "dec2", "cb"} \X (1..3))
Design ==
    {[n |-> s.n, limit |-> s.limit, fail |-> s.fail, differ |-> IF s.differ THEN "depth" ELSE "no", t |-> s.t,
      pan |-> p] :
        s \in {s \in P!Scenarios : /\ (s.differ => s.fail = {} /\ s.n = <<1, 1>>)
                                   /\ \A i \in s.fail : i <= s.n[1] /\ i <= s.n[2]
                                   /\ (s.fail # {} => s.limit < 4)},
        p \in DesignPanics}
Reduced == {s \in Design : /\ (s.pan[1] # "none") => (s.fail = {} /\ s.limit \in {-1, 2} /\ s.differ = "no" /\ s.t < 3)
                           /\ (s.t = 3 => s.n[1] + s.n[2] > 4)}

Kinds(cs) == IF cs = "400" THEN <<"yw", "yh">> ELSE <<"yw", "yh", "uw", "uh", "vw", "vh", "all">>

Metrics == <<"psnr", "apsnr", "ssim", "msssim", "psnrhvs", "ciede", "ciede_nosimd">>
Minimum(m) == CASE m = "msssim" -> 16 [] m = "psnrhvs" -> 8 [] OTHER -> 1
Subs(cs) == CASE cs = "420" -> <<2, 2>> [] cs = "422" -> <<2, 1>> [] OTHER -> <<1, 1>>

(* The pairs which the metric cannot measure whatever they contain: all of them, or none *)
Unsupported(m, w, h, depth, cs) ==
    \/ m \in {"ciede", "ciede_nosimd"} /\ (cs = "400" \/ depth \notin {8, 10, 12})
    \/ LET cw == IF cs = "400" THEN w ELSE (w + Subs(cs)[1] - 1) \div Subs(cs)[1]
           ch == IF cs = "400" THEN h ELSE (h + Subs(cs)[2] - 1) \div Subs(cs)[2]
       IN w < Minimum(m) \/ h < Minimum(m) \/ cw < Minimum(m) \/ ch < Minimum(m)

Emit(r) == PrintT("@@SCEN " \o ToJson(r))

Lengths == CASE Profile = "C01" -> <<0, 1, 2, 3, 5, 8, 13, 20, 40>>
             [] Profile = "C02" -> <<1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 23, 40>>
             [] Profile = "C04" -> <<40, 80, 120>>
             [] Profile = "C08" -> <<1, 1, 2, 3, 4, 5, 7, 12>>
             [] OTHER -> <<0, 1, 2, 3, 4, 5, 6, 9, 14, 25>>
Wants(ps) == Profile \in ps

RandomScenario ==
    \E m \in {Among(Metrics)} :
    \E cs \in {Among(IF Wants({"C07"}) THEN <<"420", "422", "444", "400", "400">> ELSE <<"420", "420", "422", "444", "400">>)} :
    \E depth \in {Among(IF Wants({"C07"}) THEN <<8, 9, 10, 11, 12, 13, 14, 15, 16>> ELSE <<8, 8, 10, 12, 16>>)} :
    \E w0 \in {Among(<<7, 8, 9, 12, 16, 17, 20>>)}, h0 \in {Among(<<7, 8, 9, 12, 16, 18, 21>>)} :
    LET sup == \/ Wants({"C07"}) /\ m # "psnr"
        w == IF sup THEN w0 ELSE IF w0 < Minimum(m) * Subs(cs)[1] THEN Minimum(m) * Subs(cs)[1] + (w0 % 3) ELSE w0
        h == IF sup THEN h0 ELSE IF h0 < Minimum(m) * Subs(cs)[2] THEN Minimum(m) * Subs(cs)[2] + (h0 % 3) ELSE h0
    IN
    \E n1 \in {Among(Lengths)} :
    \E n2 \in {IF Among(<<1, 2>>) = 1 THEN n1 ELSE Among(Lengths)} :
    \E limit \in {Among(IF Wants({"C03"}) THEN <<-1, -2, -3, -4, -5, -6, -7, -8, -9, -10, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 9, 10, 14, 15, 24, 25, 26>>
                        ELSE IF Wants({"C01", "C05", "C07"}) THEN <<-1, -1, -1, -2, -3, -4, -5, -6, -8, 0, 1, 2, 5, 9>> ELSE <<-1, -1, -1, -2, 3, 7>>)} :
    LET pairs == P!Observed!Pairs([n |-> <<n1, n2>>, limit |-> limit])
        unsup == Wants({"C07"}) /\ Unsupported(m, w, h, depth, cs)
        metric == IF ~unsup /\ Unsupported(m, w, h, depth, cs) THEN "apsnr" ELSE m
    IN
    \E fails \in {IF unsup THEN 1..n1
                  ELSE IF Wants({"C01", "C06", "C07"}) /\ pairs > 0 /\ Among(<<0, 1, 1>>) = 1
                       THEN {Pick(1..pairs)} \cup (IF Among(<<1, 2, 3>>) = 1 THEN {Pick(1..pairs)} ELSE {})
                       ELSE {}} :
    \E t \in {Among(IF Wants({"C04"}) THEN <<1, 1, 2, 3>> ELSE <<0, 1, 2, 3, 4, 5, 8, 9, 16, 33>>)} :
    \E differ \in {IF Wants({"C06"}) /\ Among(<<1, 2, 3>>) = 1 THEN Among(<<"depth", "cs">>) ELSE "no"} :
    \E pan \in {IF Wants({"C01", "C07"}) /\ Among(<<1, 2, 3>>) = 1 /\ differ = "no"
                THEN <<Among(<<"dec1", "dec2", "cb">>), Pick(1..(pairs + 2))>> ELSE <<"none", 0>>} :
    \E d1 \in {Among(<<0, 0, 0, 1, 2, 3>>)}, d2 \in {Among(<<0, 0, 0, 1, 2, 3>>)}, d3 \in {Among(<<0, 0, 0, 0, 1>>)} :
    \E content \in {Among(<<"uniform", "noise", "mixed">>)} :
    \E fk \in {Among(Kinds(cs))} :
    \E seed \in {Pick(1..1000000)} :
    (* Both videos change to larger frames at some frame *)
    \E grow \in {IF unsup \/ fails # {} \/ differ # "no" \/ Wants({"C04"}) \/ Among(<<1, 2, 3, 4>>) > 1 THEN <<0, 0, 0>>
                 ELSE <<Among(<<2, 2, 3, 5>>), Among(<<0, 1, 2, 8, 19>>), Among(<<0, 1, 2, 8, 25>>)>>} :
        Emit([id |-> k, n |-> <<n1, n2>>, limit |-> limit, fail |-> fails, unsup |-> unsup, grow |-> grow,
              fk |-> IF unsup THEN "none" ELSE fk, differ |-> differ, t |-> t, pan |-> pan,
              m |-> metric, w |-> w, h |-> h, depth |-> depth, cs |-> cs, seed |-> seed, content |-> content,
              delay |-> IF Wants({"C04"}) THEN <<0, 0, 0>> ELSE <<d1, d2, d3>>,
              pf |-> Wants({"C02", "C03", "C08"})])

(* Slow measurements and fast decoders, for the memory in use *)
SlowScenario ==
    \E n \in {Among(<<60, 130, 250>>)}, more \in {Among(<<0, 0, 7>>)}, t \in {Among(<<1, 2, 3, 5>>)}, m \in {Among(<<"msssim", "ssim">>)} :
    \E cs \in {Among(<<"420", "444">>)}, depth \in {Among(<<8, 10>>)}, seed \in {Pick(1..1000000)} :
    \E late \in {Among(<<0, 0, 1>>)} :
    \E limit \in {Among(<<-1, -1, n, n, n + 1, 1000, 100000, -2, -4>>)} :
        Emit([id |-> k, n |-> <<n, n + more>>, limit |-> limit, fail |-> IF late = 1 THEN {n} ELSE {}, unsup |-> FALSE,
              fk |-> "all", differ |-> "no", t |-> t,
              pan |-> <<"none", 0>>, m |-> m, w |-> 64, h |-> 64, depth |-> depth, cs |-> cs, seed |-> seed,
              content |-> "noise", delay |-> <<0, 0, 0>>, pf |-> FALSE])

(* Clips which are much longer than any queue *)
LongScenario ==
    \E m \in {Among(Metrics)}, n \in {Among(<<70, 129, 257, 300, 513, 1030>>)}, more \in {Among(<<0, 0, 0, 1, 40>>)}, side \in {Among(<<1, 2>>)} :
    \E t \in {Among(<<0, 1, 2, 3, 5, 8, 16>>)}, depth \in {Among(<<8, 10>>)}, seed \in {Pick(1..1000000)} :
    \E cs \in {Among(IF m \in {"ciede", "ciede_nosimd"} THEN <<"420", "422", "444">> ELSE <<"420", "400", "444">>)} :
    \E limit \in {Among(<<-1, -1, -1, -2, n - 1, n, n + 1, 64, 100, 256, 65536>>)} :
    LET pairs == P!Observed!Pairs([n |-> <<n, n + more>>, limit |-> limit]) IN
    \E fails \in {IF Wants({"C01", "C06", "C07"}) /\ Among(<<1, 2>>) = 1 THEN {Among(<<Pick(1..pairs), pairs>>)} ELSE {}} :
    \E pan \in {IF Wants({"C01", "C07"}) /\ Among(<<1, 2, 3>>) = 1 THEN <<Among(<<"dec1", "dec2", "cb">>), Pick(1..(pairs + 1))>> ELSE <<"none", 0>>} :
        Emit([id |-> k, n |-> IF side = 1 THEN <<n, n + more>> ELSE <<n + more, n>>, limit |-> limit, fail |-> fails, unsup |-> FALSE,
              fk |-> IF cs = "400" THEN "yh" ELSE "all", differ |-> "no", t |-> t, pan |-> pan, m |-> m,
              w |-> 2 * Minimum(m) + 2, h |-> 2 * Minimum(m), depth |-> depth, cs |-> cs, seed |-> seed,
              content |-> Among(<<"uniform", "noise", "mixed">>), delay |-> <<0, 0, 0>>, pf |-> Wants({"C02", "C03", "C08"})])

(* More frames than a counter of 16 bits can count.  Their contents recur, so that the score is that *)
(* of the first ones.                                                                            *)
VastScenario ==
    \E m \in {<<"ssim", "ciede", "psnr", "apsnr", "psnrhvs", "ciede_nosimd">>[(k % 6) + 1]}, n \in {Among(<<65550, 70000, 131100>>)}, more \in {Among(<<0, 0, 0, 1, 40>>)}, side \in {Among(<<1, 2>>)} :
    \E t \in {Among(<<0, 2, 3, 5>>)}, seed \in {Pick(1..1000000)}, content \in {Among(<<"uniform", "mixed">>)} :
    \E limit \in {Among(<<-1, -2, n, IF more = 1 THEN n - 50 ELSE -1, 65550>>)} :
    LET pairs == P!Observed!Pairs([n |-> <<n, n + more>>, limit |-> limit]) IN
    \E fails \in {IF Wants({"C01", "C06", "C07"}) /\ k > 11 THEN {Among(<<Pick(1..pairs), pairs>>)} ELSE {}} :
        Emit([id |-> k, n |-> IF side = 1 THEN <<n, n + more>> ELSE <<n + more, n>>, limit |-> limit, fail |-> fails, unsup |-> FALSE,
              fk |-> "all", differ |-> "no", t |-> t, pan |-> <<"none", 0>>, m |-> m,
              w |-> IF m = "psnrhvs" THEN 16 ELSE 4, h |-> IF m = "psnrhvs" THEN 16 ELSE 4, depth |-> 8, cs |-> "420", seed |-> seed,
              content |-> content, delay |-> <<0, 0, 0>>, period |-> 50, pf |-> Wants({"C02", "C03", "C08"})])

(* A decoder or the callback pauses for long, or all workers have something else to do *)
StallScenario ==
    \E who \in {k % 4}, seed \in {Pick(1..1000000)} :
    \E t \in {IF who = 3 THEN 0 ELSE Among(<<1, 2, 3>>)}, n \in {IF who = 3 THEN 40 ELSE Among(<<5, 9, 12>>)} :
        Emit([id |-> k, n |-> <<n, n>>, limit |-> -1, fail |-> IF Wants({"C01", "C06"}) /\ t = 2 THEN {n} ELSE {}, unsup |-> FALSE,
              fk |-> "all", differ |-> "no", t |-> t, pan |-> <<"none", 0>>, m |-> Among(<<"psnr", "ssim">>), w |-> 16, h |-> 16,
              depth |-> 8, cs |-> "420", seed |-> seed, content |-> "noise",
              delay |-> <<IF who = 0 THEN 4 ELSE 0, IF who = 1 THEN 4 ELSE 0, IF who = 2 THEN 4 ELSE 0>>,
              busy |-> IF who = 3 THEN 2500 ELSE 0, pf |-> Wants({"C02", "C03", "C08"})])

(* The same for several seconds, at any call up to the one which finds the end *)
LongStallScenario ==
    \E who \in {IF k = 8 THEN Among(<<0, 1, 2>>) ELSE 3}, seed \in {Pick(1..1000000)} :
    \E t \in {IF who = 3 THEN 0 ELSE Among(<<1, 2, 3>>)}, n \in {IF who = 3 THEN 45 ELSE Among(<<6, 10>>)} :
    \E at \in {Pick(1..(n + 1))} :
    LET code(d) == IF who = d THEN 1000000 + at ELSE 0 IN
        Emit([id |-> k, n |-> <<n, n>>, limit |-> -1, fail |-> {}, unsup |-> FALSE,
              fk |-> "all", differ |-> "no", t |-> t, pan |-> <<"none", 0>>, m |-> Among(<<"apsnr", "ssim">>), w |-> 16, h |-> 16,
              depth |-> 8, cs |-> "420", seed |-> seed, content |-> "noise",
              delay |-> <<code(0), code(1), code(2)>>,
              busy |-> IF who = 3 THEN 6500 ELSE 0, pf |-> Wants({"C02", "C03", "C08"})])

DesignScenarios(once) ==
    \A s \in (IF Count = 0 THEN Reduced ELSE Design) :
        Emit([id |-> once, n |-> s.n, limit |-> s.limit, fail |-> s.fail, unsup |-> FALSE,
              fk |-> Kinds("420")[((s.n[1] + 3 * s.n[2] + 5 * s.t + s.limit + 2) % 7) + 1],
              differ |-> s.differ, t |-> s.t, pan |-> s.pan,
              m |-> "psnr", w |-> 8, h |-> 6, depth |-> 8, cs |-> "420", seed |-> 100 * s.n[1] + s.n[2],
              content |-> "uniform", delay |-> <<0, 0, 0>>, pf |-> FALSE])

Init == k = 0
Next ==
    /\ k' = k + 1
    /\ IF Profile = "design" THEN k = 0 /\ DesignScenarios(k)
       ELSE /\ k < Count
            /\ CASE Profile = "C04" -> IF k % 2 = 0 THEN SlowScenario ELSE RandomScenario
                 [] k < 8 -> StallScenario
                 [] k < 10 -> LongStallScenario
                 [] k % 500 \in {10, 11, 12} -> VastScenario
                 [] k % 100 = 99 -> LongScenario
                 [] OTHER -> RandomScenario
Spec == Init /\ [][Next]_k
=============================================================================
