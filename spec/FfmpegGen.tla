------------------------------ MODULE FfmpegGen ------------------------------
(* Videos for the ffmpeg decoder, and calls: codecs with and without reordering and delay, in      *)
(* containers which also hold audio or a second video.                                          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Profile, Count
VARIABLE k

Pick(S) == RandomElement(S)
Among(s) == s[RandomElement(1..Len(s))]
Wants(ps) == Profile \in ps

F8 == <<"yuv420p", "yuv422p", "yuv444p">>
F10 == <<"yuv420p10le", "yuv422p10le", "yuv444p10le">>
F12 == <<"yuv420p12le", "yuv422p12le", "yuv444p12le">>
FJ == <<"yuvj420p", "yuvj422p", "yuvj444p">>

SamplingOf(f) == CASE f \in {"yuv420p", "yuv420p10le", "yuv420p12le", "yuvj420p"} -> "420"
                   [] f \in {"yuv422p", "yuv422p10le", "yuv422p12le", "yuvj422p"} -> "422"
                   [] OTHER -> "444"
DepthOf(f) == CASE f \in {F10[1], F10[2], F10[3]} -> 10 [] f \in {F12[1], F12[2], F12[3]} -> 12 [] OTHER -> 8

(* codec, containers, formats, whether lossless, whether subsampled sizes must be even, whether    *)
(* audio fits in, whether a second video fits in                                                *)
Combo(codec, exts, fmts, lossless, even, audio, second) ==
    [codec |-> codec, exts |-> exts, fmts |-> fmts, lossless |-> lossless, even |-> even, audio |-> audio, second |-> second]

Exact == <<Combo("ffv1", <<"mkv", "mkv", "avi", "nut", "mov">>, F8 \o F10 \o F12, TRUE, FALSE, TRUE, TRUE),
           Combo("ffv1", <<"mkv", "nut">>, F8 \o F10 \o F12, TRUE, FALSE, TRUE, TRUE),
           Combo("ffvhuff", <<"avi", "nut">>, F8 \o F10 \o F12, TRUE, TRUE, TRUE, FALSE),
           Combo("rawvideo", <<"nut">>, F8 \o F10 \o F12, TRUE, FALSE, TRUE, FALSE),
           Combo("rawvideo", <<"avi">>, <<"yuv420p", "yuv422p">>, TRUE, TRUE, TRUE, FALSE),
           Combo("rawvideo", <<"y4m">>, F8, TRUE, FALSE, FALSE, FALSE),
           Combo("utvideo", <<"avi">>, <<"yuv444p">>, TRUE, FALSE, TRUE, FALSE),
           Combo("libx264", <<"mp4", "mkv", "mov", "mpg", "ts", "h264">>, F8, TRUE, TRUE, FALSE, FALSE),
           Combo("libx264", <<"mkv">>, F8, TRUE, TRUE, TRUE, TRUE),
           Combo("libx265", <<"mkv", "mp4">>, <<"yuv420p", "yuv444p", "yuv420p10le">>, TRUE, TRUE, FALSE, FALSE),
           Combo("libvpx-vp9", <<"mkv", "webm", "ivf">>, <<"yuv420p", "yuv422p", "yuv444p">>, TRUE, TRUE, FALSE, FALSE)>>

Lossy == <<Combo("libx264", <<"mp4", "mkv", "mov", "flv", "ts", "h264">>, F8, FALSE, TRUE, FALSE, FALSE),
           Combo("libx264", <<"mkv">>, F8 \o F10, FALSE, TRUE, TRUE, TRUE),
           Combo("libx265", <<"mkv", "mp4", "hevc">>, <<"yuv420p", "yuv444p">>, FALSE, TRUE, FALSE, FALSE),
           Combo("mpeg4", <<"avi", "mp4", "mkv", "m4v">>, <<"yuv420p">>, FALSE, TRUE, FALSE, FALSE),
           Combo("mpeg4", <<"avi", "mkv">>, <<"yuv420p">>, FALSE, FALSE, TRUE, TRUE),
           Combo("mpeg2video", <<"mkv", "mpg", "ts", "m2v">>, <<"yuv420p", "yuv422p">>, FALSE, TRUE, FALSE, FALSE),
           Combo("mpeg2video", <<"mkv">>, <<"yuv420p">>, FALSE, FALSE, TRUE, TRUE),
           Combo("mjpeg", <<"avi", "mkv">>, <<"yuvj420p", "yuvj422p", "yuv444p">>, FALSE, TRUE, TRUE, FALSE),
           Combo("libvpx-vp9", <<"mkv", "webm">>, F8, FALSE, TRUE, FALSE, FALSE),
           Combo("libvpx", <<"webm", "ivf">>, <<"yuv420p">>, FALSE, TRUE, FALSE, FALSE),
           Combo("libtheora", <<"ogg">>, <<"yuv420p">>, FALSE, TRUE, FALSE, FALSE),
           Combo("snow", <<"avi">>, <<"yuv420p">>, FALSE, TRUE, TRUE, FALSE)>>

Delayed == {"libx264", "libx265", "mpeg4", "mpeg2video"}     (* may reorder *)
Hidden == {"libvpx-vp9", "libvpx"}                           (* packets which show nothing *)

Call(op, n) == [op |-> op, k |-> n]
Reads(n) == [j \in 1..n |-> Call("read", 0)]
Calls(n) ==
    IF Wants({"C21"})
    THEN LET F[j \in 0..(n + 2)] ==
                IF j = 0 THEN <<>>
                ELSE F[j - 1] \o (IF Among(<<1, 2, 3>>) = 1 THEN Reads(1)
                                  ELSE <<Call("specific", Among(<<0, 0, 1, 2, 3, IF n > 1 THEN n - 1 ELSE 0, n, n + 1, 100, -1, -2, -3, -4, -5, -6, -7>>))>>)
         IN F[Among(<<1, 2, n + 1, n + 2>>)] \o Reads(2)
    ELSE IF Wants({"C20"}) THEN <<Call("details", 0)>> \o Reads(1) \o <<Call("details", 0)>> \o Reads(n) \o <<Call("details", 0)>>
    ELSE IF Among(<<1, 2, 3, 4>>) = 1 THEN <<Call("details", 0)>> \o Reads(n \div 2) \o <<Call("specific", 1)>> \o Reads(n + 2 - n \div 2)
    ELSE <<Call("details", 0)>> \o Reads(n + 2)

Even(c, f, v) == IF c.even /\ SamplingOf(f) # "444" THEN v + (v % 2) ELSE v
Rates == <<<<25, 1>>, <<25, 1>>, <<30, 1>>, <<24, 1>>, <<30000, 1001>>, <<50, 1>>, <<60, 1>>>>

Emit(r) == PrintT("@@SCEN " \o ToJson(r))

(* Now and then a long video of small pictures, and one with packets which show nothing *)
Long == k % 32 = 17
Hides == k % 64 = 17 \/ k % 32 = 9
TwoPasses == [Lossy[10] EXCEPT !.exts = <<"webm">>]
Scenario ==
    \E c \in {IF Hides THEN TwoPasses
              ELSE IF Long THEN Among(<<Exact[1], Exact[3], Exact[4], Exact[8], Exact[9], Exact[11], Lossy[9], Lossy[10], Lossy[1], Lossy[4]>>)
              ELSE IF Among(<<1, 2, 3, 4, 5>>) < 3 THEN Among(Exact) ELSE Among(Lossy)} :
    \E ext \in {Among(c.exts)}, f \in {Among(c.fmts)} :
    \E w \in {IF Long THEN 16 ELSE Even(c, f, Among(<<16, 16, 17, 18, 20, 22, 30, 31, 32, 33, 34, 36, 47, 48, 50, 62, 65, 66, 98>>))},
       h \in {IF Long THEN 16 ELSE Even(c, f, Among(<<16, 16, 17, 18, 19, 24, 30, 33>>))} :
    \E n \in {IF Long THEN Among(<<210, 257, 300, 301>>) ELSE IF Hides THEN Among(<<25, 27, 40, 60>>)
              ELSE IF c.codec \in Hidden THEN Among(<<1, 2, 5, 20, 27>>)
              ELSE IF c.codec \in Delayed THEN Among(<<1, 2, 3, 4, 5, 7, 9, 14, 20>>) ELSE Among(<<1, 1, 2, 3, 4, 6>>)} :
    \E b \in {IF Hides THEN 1     (* two passes *)
              ELSE IF c.codec \in Delayed /\ ext \notin {"flv"} THEN Among(<<0, 1, 2, 2, 3>>) ELSE 0} :
    \E audio \in {IF c.audio THEN Among(<<0, 1, 2, 2>>) ELSE 0}, second \in {c.second /\ Among(<<1, 2, 3>>) = 1} :
    \E w2 \in {Among(<<16, 24, 40, 70, 100>>)}, h2 \in {Among(<<10, 22, 28, 50>>)}, rate \in {Among(Rates)}, seed \in {Pick(1..1000000)} :
    Emit([id |-> k, codec |-> c.codec, ext |-> ext, fmt |-> f, w |-> w, h |-> h, n |-> n, bframes |-> IF c.codec = "mpeg2video" THEN (IF b > 2 THEN 2 ELSE b) ELSE b,
          lossless |-> c.lossless, audio |-> audio,
          w2 |-> IF second THEN w2 ELSE 0, h2 |-> IF second THEN h2 ELSE 0,
          num |-> rate[1], den |-> rate[2], cs |-> SamplingOf(f), depth |-> DepthOf(f),
          seed |-> seed, wide |-> Among(<<1, 2, 3>>) = 1, ops |-> Calls(n)])

Init == k = 0
Next == k < Count /\ k' = k + 1 /\ Scenario
Spec == Init /\ [][Next]_k
=============================================================================
