------------------------------ MODULE FrameGen ------------------------------
(* Sessions of FrameSession.tla for the harness: random behaviours, whose operations are chosen    *)
(* by Profile.                                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Profile,
          Big        (* larger frames *)

VARIABLES fmt, ops, metrics, len, id

vars == <<fmt, ops, metrics, len, id>>

Pick(S) == RandomElement(S)
Among(s) == s[RandomElement(1..Len(s))]
Wants(ps) == Profile \in ps
Defs == {"C09", "C10", "C11", "C12", "C13"}

MetricsOf ==
    CASE Wants({"C09"}) -> <<"psnr">> [] Wants({"C10"}) -> <<"ssim">> [] Wants({"C11"}) -> <<"msssim">>
      [] Wants({"C12"}) -> <<"psnrhvs">> [] Wants({"C13", "C26"}) -> <<"ciede", "ciede_nosimd">>
      [] Wants({"C06", "C07"}) -> <<"psnr", "ssim", "msssim", "psnrhvs", "ciede", "ciede_nosimd">>
      [] Wants({"C16"}) -> <<"psnr", "ssim", "msssim", "psnrhvs">>
      [] OTHER -> <<"psnr", "ssim", "msssim", "psnrhvs", "ciede", "ciede_nosimd">>

Cs == IF Wants({"C13", "C26"}) THEN <<"420", "422", "444">> ELSE <<"420", "420", "422", "444", "400">>
Depth == IF Wants({"C13", "C26"}) THEN <<8, 8, 10, 12>> ELSE IF Wants({"C07"}) THEN <<8, 9, 10, 11, 12, 13, 14, 15, 16>>
         ELSE <<8, 8, 8, 8, 9, 10, 10, 10, 11, 12, 12, 13, 14, 15, 16, 16>>
Subs(cs) == CASE cs = "420" -> <<2, 2>> [] cs = "422" -> <<2, 1>> [] OTHER -> <<1, 1>>

(* Sizes: the smallest one which the metric supports, and some more *)
Floor(m) == CASE m = "msssim" -> 16 [] m = "psnrhvs" -> 8 [] OTHER -> 1
More == CASE Wants({"C09"}) -> <<0, 0, 1, 2, 5, 7, 11, 16, 25, 40>>
          [] Wants({"C10"}) -> <<0, 1, 2, 3, 4, 6, 9, 13>>
          [] Wants({"C11"}) -> <<0, 0, 1, 2, 3, 5, 8, 17>>
          [] Wants({"C12"}) -> <<0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 20>>
          [] Wants({"C13"}) -> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 23>>
          [] Wants({"C26"}) -> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 31, 32, 33, 47, 64, 65, 66, 67>>
          [] Wants({"C07"}) -> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 17, 29, 30, 31, 32>>
          [] Wants({"C06"}) -> <<0, 1, 2, 15, 16, 17, 30, 48, 64>>
          [] OTHER -> <<0, 0, 1, 2, 3, 5, 8, 13, 21, 34, 47, 64>>
Tall == CASE Wants({"C10"}) -> IF Big THEN <<90, 150, 256, 300, 420>> ELSE <<90, 130, 200, 260>>
          [] Wants({"C25"}) -> <<90, 130>>
          [] OTHER -> <<90, 130, 200>>

Base == <<"noise", "noise", "flat", "ramp", "waves", "edge", "extreme", "basis", "dark", "video", "zero", "max", "grey">>
Relative == <<"near", "near", "lossy", "lossy", "shift", "inverse", "blur", "one", "one", "lastcol", "lastrow", "copy">>

(* Large frames: with uniform planes, whose scores do not depend on the size, of which the trace    *)
(* holds a part; or with any contents, but not as large.                                         *)
Huge == <<258, 300, 386, 514, 642, 770, 900, 1026, 1100>>
Uniform == <<"flat", "zero", "max", "grey">>
Uniform2 == <<"flat", "zero", "max", "grey", "shift", "inverse", "copy">>
Large == CASE Wants({"C09"}) -> <<130, 200, 258, 300, 385, 515>>
           [] Wants({"C10"}) -> <<60, 70, 80, 97, 130>>
           [] Wants({"C11"}) -> <<60, 65, 80, 97, 128>>
           [] Wants({"C12"}) -> <<60, 65, 97, 130>>
           [] Wants({"C13"}) -> <<60, 65, 97, 130>>
           [] Wants({"C26"}) -> <<129, 255, 256, 257, 386, 515, 641, 1023>>
           [] OTHER -> <<129, 130, 200, 258, 385>>
(* Long rows or columns of any contents, in frames which are as narrow as the metric allows *)
Long == <<257, 260, 301, 515, 700>>
(* High planes, whose SSIM has wide windows, which the width must not limit *)
Towers == << <<40, 1080>>, <<30, 720>>, <<22, 1440>>, <<20, 480>>, <<27, 600>>, <<25, 540>>, <<33, 1200>>, <<18, 900>>, <<35, 2170>>, <<41, 1700>> >>
Class(n) ==
    IF Wants({"C06", "C07"}) THEN "normal"
    ELSE LET x == RandomElement(1..100) IN
         CASE n % 60 = 7 /\ Wants({"C10"}) -> "tower"
           [] n % 30 = 11 /\ Wants(Defs) -> "long"
           [] x <= 2 -> "large"
           [] x <= 5 /\ Wants(Defs) -> "uniform"
           [] OTHER -> "normal"

PlainLayout == [xpad |-> 0, ypad |-> 0, ex |-> 0, ey |-> 0, dec |-> TRUE, skew |-> 0]
(* The parameters are not used: TLC evaluates a definition without any only once *)
AnyLayout(n) == [xpad |-> Among(<<0, 0, 3, 8, 16, 40>>), ypad |-> Among(<<0, 0, 1, 5, 16>>), ex |-> Among(<<0, 0, 1, 7, 24>>),
              ey |-> Among(<<0, 0, 1, 5>>), dec |-> Among(<<TRUE, TRUE, FALSE>>),
              (* the third plane may be laid out differently from the second *)
              skew |-> Among(<<0, 0, 0, 1, 13>>)]

Init ==
    /\ ops = <<>>
    /\ metrics = <<>>
    /\ id = 0 /\ len = 0
    /\ fmt = [w |-> 0]

FillOp(f, p, kind) == [op |-> "fill", f |-> f, p |-> p, kind |-> kind, seed |-> Pick(1..1000000)]
MeasureOp(m, via, t, reps) ==
    [op |-> "measure", m |-> m, via |-> via, t |-> t, reps |-> reps, seed |-> Pick(1..1000000),
     def |-> Wants(Defs) /\ via = "frame"]
MeasureAll(ms) == [j \in 1..Len(ms) |-> MeasureOp(ms[j], "frame", 0, 1)]

Range(s) == {s[j] : j \in DOMAIN s}

(* One session is the format, the first contents, some changes, each followed by measurements *)
Start ==
    /\ ops = <<>>
    /\ \E cs \in {Among(Cs)}, depth \in {Among(Depth)}, m \in {Among(MetricsOf)} :
       \E floor \in {IF Wants({"C06"}) THEN 16 ELSE IF Wants({"C07"}) THEN 1 ELSE IF Len(MetricsOf) = 1 THEN Floor(MetricsOf[1]) ELSE Floor(m)} :
       \E tall \in {IF floor = 1 /\ Among(<<1, 2, 3>>) = 1 /\ Wants({"C10", "C14", "C15", "C16", "C25"})
                    THEN Among(<<"high", "high", "wide">>) ELSE "no"} :
       \E class \in {Class(id)} :
       \E w0 \in {floor * Subs(cs)[1] + Among(More)}, h0 \in {floor * Subs(cs)[2] + Among(More)} :
       \E long \in {Among(Tall)}, thin \in {Among(<<1, 2, 5, 9>>)} :
       \E tower \in {Towers[((id \div 60) % Len(Towers)) + 1]} :
       \E stretched \in {Among(Long)}, side \in {Among(<<1, 2>>)} :
       \E slim \in {<<floor * Subs(cs)[1] + Among(<<0, 1, 3>>), floor * Subs(cs)[2] + Among(<<0, 1, 3>>)>>} :
       \E w \in {CASE class = "long" -> (IF side = 1 THEN stretched ELSE slim[1]) [] class = "uniform" -> Among(Huge) [] class = "large" -> Among(Large) [] class = "tower" -> tower[1]
                   [] tall = "high" -> thin [] tall = "wide" -> long [] OTHER -> w0} :
       \E h \in {CASE class = "long" -> (IF side = 2 THEN stretched ELSE slim[2]) [] class = "uniform" -> Among(Huge) [] class = "large" -> Among(Large) [] class = "tower" -> tower[2]
                   [] tall = "high" -> long [] tall = "wide" -> thin [] OTHER -> h0} :
       \E l \in {IF Wants(Defs) THEN Among(<<PlainLayout, PlainLayout, AnyLayout(id)>>) ELSE AnyLayout(id)} :
       \E seed \in {Pick(1..1000000)} :
       (* Frame 2 is mostly some variation of frame 1 *)
       \E rel \in {Among(<<TRUE, TRUE, TRUE, FALSE>>)} :
       (* Bound by a quantifier: TLC evaluates a LET of an action anew wherever it is used *)
       \E ms \in {SelectSeq(MetricsOf, LAMBDA x : Len(MetricsOf) <= 2 \/ Among(<<1, 2, 3>>) # 3)} :
       LET planes == IF cs = "400" THEN 1 ELSE 3
           fills == [j \in 1..(2 * planes) |->
                        IF class = "uniform" THEN (IF j <= planes THEN FillOp(1, j, Among(Uniform)) ELSE FillOp(2, j - planes, Among(Uniform2)))
                        ELSE IF j <= planes THEN FillOp(1, j, Among(Base))
                        ELSE FillOp(2, j - planes, IF rel THEN Among(Relative) ELSE Among(Base))]
       IN /\ fmt' = [w |-> w, h |-> h, depth |-> depth, cs |-> cs, planes |-> planes, layout |-> l, seed |-> seed,
                      crop |-> IF class = "uniform" THEN 32 ELSE 0, class |-> class]
          /\ metrics' = (IF ms = <<>> THEN <<m>> ELSE ms)
          /\ ops' = fills \o MeasureAll(metrics')
    /\ len' = CASE Wants({"C07"}) \/ (fmt'.class # "normal" /\ Wants(Defs)) -> 0 [] Wants({"C10", "C11"}) -> Among(<<0, 1>>) [] Wants(Defs) -> Among(<<0, 1, 2>>) [] OTHER -> Among(<<2, 3, 4, 5>>)
    /\ id' = id + 1

Kinds == Base \o Relative \o Relative
Change(n) ==
    CASE Wants({"C06"}) -> "mismatch"
      [] Wants({"C14"}) -> Among(<<"scribble", "scribble", "relayout", "relayout", "fill">>)
      [] Wants({"C15"}) -> Among(<<"swap", "swap", "copy", "fill">>)
      [] Wants({"C25"}) -> Among(<<"pool", "noise", "noise", "storm", "crowd", "video", "video", "fresh", "fill">>)
      [] OTHER -> "fill"

Step ==
    /\ len > 0
    /\ len' = len - 1
    /\ \E c \in {Change(id)} : \E f \in {Pick(1..2)}, p \in {Pick(1..fmt.planes)}, seed \in {Pick(1..1000000)} :
       LET again == MeasureAll(metrics) IN
       ops' = ops \o
         CASE c = "scribble" -> <<[op |-> "scribble", f |-> f, seed |-> 2 * seed]>> \o again
           [] c = "relayout" -> <<[op |-> "relayout", layout |-> AnyLayout(id), seed |-> 2 * seed]>> \o again
           [] c = "mismatch" -> [j \in 1..Len(metrics) |-> [op |-> "mismatch", m |-> metrics[j],
                kind |-> Among(IF fmt.cs = "400" THEN <<"yw", "yh", "all", "type">> ELSE <<"yw", "yh", "uw", "uh", "vw", "vh", "all", "type", "type">>),
                f |-> f, less |-> Among(<<TRUE, FALSE>>), by |-> Among(<<1, 1, 1, 2, 8>>), seed |-> seed]]
           [] c = "swap" -> <<[op |-> "swap"]>> \o again
           [] c = "copy" -> [j \in 1..fmt.planes |-> FillOp(f, j, "copy")] \o again
           [] c = "fill" -> <<FillOp(f, p, Among(Kinds))>> \o again
           [] c = "pool" -> [j \in 1..Len(metrics) |-> MeasureOp(metrics[j], "pool", Among(<<1, 2, 3, 8>>), 1)]
           [] c = "noise" -> [j \in 1..Len(metrics) |-> MeasureOp(metrics[j], "noise", 0, 1)]
           [] c = "fresh" -> [j \in 1..Len(metrics) |-> MeasureOp(metrics[j], "fresh", 0, 1)]
           [] c = "storm" -> <<MeasureOp(Among(metrics), "storm", Among(<<0, 0, 1, 2, 4>>), Among(<<2, 5, 8>>))>>
           [] c = "crowd" -> <<MeasureOp(Among(metrics), "crowd", Among(<<0, 1, 2, 3, 8>>), Among(<<2, 3, 5, 8>>))>>
           [] c = "video" -> [j \in 1..Len(metrics) |-> MeasureOp(metrics[j], "video", Among(<<0, 1, 2, 5>>), Among(<<1, 2, 5>>))]
    /\ UNCHANGED <<fmt, metrics, id>>

Finish ==
    /\ len = 0 /\ ops # <<>>
    /\ PrintT("@@SCEN " \o ToJson([id |-> id, w |-> fmt.w, h |-> fmt.h, depth |-> fmt.depth, cs |-> fmt.cs,
                                   layout |-> fmt.layout, seed |-> fmt.seed, crop |-> fmt.crop, class |-> fmt.class, samples |-> Wants(Defs), ops |-> ops]))
    /\ ops' = <<>>
    /\ UNCHANGED <<fmt, metrics, len, id>>

Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
