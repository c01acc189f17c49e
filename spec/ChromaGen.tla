------------------------------ MODULE ChromaGen ------------------------------
(* Calls of convert_chroma_data for the harness: a plane and what is written to it. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Count
VARIABLE k

Pick(S) == RandomElement(S)
Among(s) == s[RandomElement(1..Len(s))]

Widths == <<1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 33, 64, 70>>
Positions == <<"vertical", "vertical", "vertical", "vertical", "vertical", "colocated", "bilateral", "interpolated", "unknown">>
Kinds == <<"noise", "noise", "extreme", "extreme", "flat", "ramp", "impulse", "wild", "step">>

(* Some planes are tall, and of some the rows are far apart *)
Shape == IF k % 500 = 77 THEN "tall" ELSE IF k % 500 = 177 THEN "broad" ELSE IF k % 250 = 27 THEN "far" ELSE "normal"

Call(wide) ==
    LET depth == IF wide THEN Among(<<8, 9, 10, 10, 11, 12, 12, 16>>) ELSE 8 IN
    [op |-> "convert", position |-> Among(Positions), depth |-> depth,
     bw |-> IF wide THEN Among(<<2, 2, 2, 1>>) ELSE 1,
     more |-> IF Shape = "far" THEN Among(<<3000, 9000, 70000>>) ELSE Among(<<0, 0, 1, 2, 5, 16, 61>>), kind |-> Among(Kinds), seed |-> Pick(1..1000000)]

Next ==
    /\ k < Count
    /\ k' = k + 1
    /\ \E w \in {Among(CASE Shape = "tall" -> <<1, 3, 8>> [] Shape = "broad" -> <<4099, 17000, 33000>> [] OTHER -> Widths)},
          h \in {Among(CASE Shape = "tall" -> <<1100, 2200, 4400>> [] Shape = "broad" -> <<1, 2>> [] Shape = "far" -> <<9, 30>>
                          [] OTHER -> <<1, 1, 2, 3, 4, 7, 9>>)},
          n \in {IF Shape = "normal" THEN Among(<<1, 1, 2, 3>>) ELSE 1}, wide \in {Among(<<TRUE, FALSE>>)} :
       \E xpad \in {Among(<<0, 0, 1, 4, 16, 40>>)} :
       \E ypad \in {IF xpad > 0 THEN Among(<<1, 2, 8>>) ELSE Among(<<0, 0, 1, 3>>)} :
       \E ex \in {Among(<<0, 0, 1, 3, 40>>)}, ey \in {Among(<<0, 0, 1, 2>>)}, empty \in {Among(<<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, TRUE>>)} :
       PrintT("@@SCEN " \o ToJson([id |-> k, w |-> IF empty THEN 0 ELSE w, h |-> IF empty THEN 0 ELSE h, wide |-> wide, xpad |-> xpad, ypad |-> ypad, ex |-> ex, ey |-> ey,
                                   seed |-> Pick(1..1000000), ops |-> [j \in 1..n |-> Call(wide)]]))
Spec == k = 0 /\ [][Next]_k
=============================================================================
