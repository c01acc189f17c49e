----------------------------- MODULE FfDamageGen -----------------------------
(* Files for the ffmpeg decoder which are damaged, change midway, or hold nothing it supports.     *)
EXTENDS FfmpegGen

All == Exact \o Lossy
Unsupported == <<"gray", "gray10le", "rgb24", "bgr0", "gbrp", "pal8", "nv12", "yuva420p", "yuv410p", "yuv411p", "yuv440p", "yuvj440p", "yuv440p10le",
                 "yuv420p9le", "yuv422p14le", "yuv444p16le", "yuv420p10be", "yuyv422">>

Part(codec, fmt, w, h, n, b, lossless, audio) ==
    [codec |-> codec, fmt |-> fmt, w |-> w, h |-> h, n |-> n, bframes |-> b, lossless |-> lossless, audio |-> audio,
     cs |-> SamplingOf(fmt), depth |-> DepthOf(fmt), w2 |-> 0, h2 |-> 0, num |-> 25, den |-> 1, seed |-> Pick(1..1000000)]

(* Damage done to the file, at a thousandth of its length *)
Hit(kind) == [kind |-> kind, at |-> Pick(0..1000), len |-> Among(<<1, 2, 4, 16, 60, 300, 2000>>)]
Damage == CASE Among(<<1, 2, 3, 4>>) = 1 -> <<Hit("cut")>>
            [] Among(<<1, 2, 3>>) = 1 -> <<Hit(Among(<<"zero", "noise", "drop", "twice">>)), Hit("flip")>>
            [] Among(<<1, 2>>) = 1 -> [j \in 1..Among(<<1, 3, 20>>) |-> Hit("flip")]
            [] OTHER -> <<Hit(Among(<<"zero", "noise", "drop", "twice">>))>>

EmitIt(kind, ext, parts, damage) == Emit([id |-> k, kind |-> kind, ext |-> ext, parts |-> parts, damage |-> damage, wide |-> FALSE])

Sizes == <<16, 18, 20, 32, 34, 48>>

(* One video, damaged or not *)
Damaged ==
    \E c \in {Among(All)} :
    \E ext \in {Among(c.exts)}, f \in {Among(c.fmts)}, n \in {Among(<<1, 2, 3, 5, 8>>)},
       w \in {Among(Sizes)}, h \in {Among(Sizes)}, b \in {IF c.codec \in Delayed /\ c.codec # "mpeg2video" THEN Among(<<0, 2>>) ELSE 0} :
    EmitIt("damaged", ext, <<Part(c.codec, f, w, h, n, IF ext = "flv" THEN 0 ELSE b, c.lossless, IF c.audio THEN Among(<<0, 1, 2>>) ELSE 0)>>,
           IF Among(<<1, 2, 3, 4, 5, 6>>) = 1 THEN <<>> ELSE Damage)

(* A video which changes *)
Elementary == <<[codec |-> "libx264", exts |-> <<"h264", "h264", "ts">>, fmts |-> F8], [codec |-> "libx265", exts |-> <<"hevc">>, fmts |-> <<"yuv420p", "yuv444p">>],
                [codec |-> "libx264", exts |-> <<"h264">>, fmts |-> F8 \o F10], [codec |-> "mpeg2video", exts |-> <<"m2v", "ts">>, fmts |-> <<"yuv420p">>],
                [codec |-> "mjpeg", exts |-> <<"mjpeg">>, fmts |-> FJ]>>
Changing ==
    \E c \in {Among(Elementary)} : \E ext \in {Among(c.exts)}, m \in {Among(<<2, 2, 3>>)} :
    EmitIt("changing", ext,
           [j \in 1..m |-> Part(c.codec, Among(c.fmts), Among(<<16, 32, 48>>), Among(<<16, 32, 34>>), Among(<<1, 2, 3>>), 0, FALSE, 0)],
           IF Among(<<1, 2, 3, 4, 5, 6>>) = 1 THEN Damage ELSE <<>>)

(* A frame of a y4m file which is not where it is expected: reading fails, and later succeeds again *)
Misplaced ==
    \E f \in {Among(F8)}, n \in {Among(<<2, 3, 4, 6>>)}, w \in {Among(<<2, 4, 16, 18>>)}, h \in {Among(<<2, 4, 16, 18>>)} :
    EmitIt("damaged", "y4m", <<Part("rawvideo", f, w, h, n, 0, TRUE, 0)>>, <<Hit("marker")>> \o (IF Among(<<1, 2>>) = 1 THEN <<Hit("marker")>> ELSE <<>>))

Strange ==
    \E f \in {Among(Unsupported)} : EmitIt("unsupported", "nut", <<[Part("rawvideo", "yuv420p", 18, 18, 2, 0, FALSE, 0) EXCEPT !.fmt = f]>>, <<>>)

Nothing == EmitIt("nothing", Among(<<"mkv", "mp4", "avi", "h264", "txt", "y4m">>), <<>>, <<Hit(Among(<<"missing", "empty", "text", "random", "folder">>))>>)

DScenario == CASE Among(<<1, 2, 3, 4, 5>>) = 1 -> Changing
               [] Among(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>) = 1 -> Strange
               [] Among(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>) = 1 -> Nothing
               [] Among(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>) = 1 -> Misplaced
               [] OTHER -> Damaged
DNext == k < Count /\ k' = k + 1 /\ DScenario
DSpec == Init /\ [][DNext]_k
=============================================================================
