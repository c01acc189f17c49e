------------------------------- MODULE ToolGen -------------------------------
(* Command lines, and the files they are about.                                                 *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Profile, Count
VARIABLE k

Pick(S) == RandomElement(S)
Among(s) == s[RandomElement(1..Len(s))]
Wants(ps) == Profile \in ps

Names == <<"a.y4m", "b.y4m", "clip one.y4m", "x,y.y4m", "say \"hi\".y4m", "pipe|d.y4m", "two||.y4m", "'q'.y4m", "tab\tbed.y4m", "line\nend.y4m",
           "cr\rend.y4m", "semi;colon", "{json}.y4m", "back\\slash.y4m", "ends in\\", "a\\|b.y4m", "\\", "\\\\|", "dir\\_x", "n\\now.y4m", "=1+2.y4m", "#hash", "<b>.y4m", "&amp;.y4m", "*star*.y4m",
           "_u_.y4m", "`t`.y4m", "%s%d.y4m", "{}.y4m", ",", "\"", "|", "\"\"", "\",\"", "Results for a.y4m: ", "Comparing b", "-0,-0", "null",
           "PSNR", "very long name very long name very long name very long name very long name very long name very long name.y4m">>

(* What a file is compared to the base: *)
Good == <<"same", "noise", "noise", "noise", "near", "near", "black">>
Odd == <<"short", "longer", "width", "height", "depth", "cs", "mono", "cut", "noframes", "badframe">>
Lost == <<"missing", "directory", "empty", "text", "badheader", "cuthead">>

Formats == <<"420jpeg", "420jpeg", "420", "420paldv", "420mpeg2", "422", "444", "420p10", "422p10", "444p12", "mono">>

Broken(d) == IF d = "stdout" THEN <<"full", "closed">> ELSE <<"full", "full", "nodir", "isdir">>

Emit(r) == PrintT("@@SCEN " \o ToJson(r))

Perhaps(p, a, b) == IF RandomElement(1..100) <= p THEN a ELSE b

OneFile(bad) ==
    [name |-> Among(Names),
     what |-> Perhaps(bad, Among(Odd), Among(Good)),
     seed |-> Pick(1..1000000)]

Scenario ==
    (* Some runs have many files, others long videos *)
    \E n \in {IF k % 40 = 9 THEN Among(<<9, 11, 14, 17>>) ELSE Among(<<1, 1, 1, 2, 2, 3, 4, 6>>)} :
    \E fmt \in {Among(Formats)} :
    \E w \in {IF k % 40 = 19 THEN Among(<<8, 16>>) ELSE Among(<<16, 20, 32, 33, 40, 9>>)}, h \in {IF k % 40 = 19 THEN Among(<<8, 16>>) ELSE Among(<<16, 18, 32, 34, 7>>)}, frames \in {IF k % 40 = 19 THEN Among(<<12, 40, 130>>) ELSE Among(<<1, 2, 3>>)} :
    \E metric \in {Among(<<"all", "all", "all", "psnr", "apsnr", "psnrhvs", "ssim", "msssim", "ciede">>)} :
    \E mask \in {Pick(0..15)}, quiet \in {Among(<<TRUE, FALSE>>)}, count \in {Among(<<TRUE, FALSE, FALSE>>)}, tty \in {Among(<<TRUE, FALSE, FALSE>>)} :
    \E usage \in {IF Wants({"C24"}) THEN Among(<<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "metric", "nofiles", "option">>) ELSE "ok"} :
    \E lost \in {IF Wants({"C24"}) /\ Among(<<1, 2, 3, 4>>) = 1 THEN Pick(0..n) ELSE -1} :
    \E lostas \in {Among(Lost)} :
    \E bad \in {IF Wants({"C24"}) THEN 50 ELSE 20} :
    \E files \in {TLCEval([i \in 1..n |-> OneFile(bad)])} :
    \E broken \in {IF Wants({"C24"}) /\ Among(<<1, 2, 3, 4>>) = 1 THEN Among(<<"text", "json", "csv", "md", "stdout">>) ELSE "no"} :
    LET wanted == <<mask % 2 = 1, (mask \div 2) % 2 = 1, (mask \div 4) % 2 = 1, mask \div 8 = 1>> IN
    \E how \in {IF broken = "no" THEN "no" ELSE Among(Broken(broken))} :
    Emit([id |-> k, w |-> w, h |-> h, fmt |-> fmt, frames |-> frames, metric |-> metric,
          text |-> wanted[1], json |-> wanted[2], csv |-> wanted[3], md |-> wanted[4],
          quiet |-> quiet, count |-> count, tty |-> tty /\ broken # "stdout", usage |-> usage,
          base |-> [name |-> Among(Names), what |-> IF lost = 0 THEN lostas ELSE Perhaps(12, Among(<<"cut", "noframes">>), "base"), seed |-> 1],
          files |-> [i \in 1..n |-> IF i = lost THEN [files[i] EXCEPT !.what = lostas] ELSE files[i]],
          order |-> Pick(0..3), broken |-> broken, how |-> how, stale |-> Perhaps(30, TRUE, FALSE), seed |-> Pick(1..1000000)])

Init == k = 0
Next == k < Count /\ k' = k + 1 /\ Scenario
Spec == Init /\ [][Next]_k
=============================================================================
