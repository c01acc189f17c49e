------------------------------- MODULE Y4mGen -------------------------------
(* Files and calls for the harness: random ones, and (Profile "cuts") small files which end at     *)
(* every possible position.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Planes

CONSTANTS Profile, Count

VARIABLE k

Pick(S) == RandomElement(S)
Among(s) == s[RandomElement(1..Len(s))]
Wants(ps) == Profile \in ps

Names == <<"mono", "mono12", "420", "420p10", "420p12", "420jpeg", "420paldv", "420mpeg2",
           "422", "422p10", "422p12", "444", "444p10", "444p12">>
CsOf(n) == CASE n \in {"mono", "mono12"} -> "400" [] n \in {"422", "422p10", "422p12"} -> "422"
             [] n \in {"444", "444p10", "444p12"} -> "444" [] OTHER -> "420"
BytesOf(n) == IF n \in {"mono12", "420p10", "420p12", "422p10", "422p12", "444p10", "444p12"} THEN 2 ELSE 1
FrameSize(n, w, h) == (w * h + 2 * ChromaWidth(CsOf(n), w) * ChromaHeight(CsOf(n), h)) * BytesOf(n)

Rates == <<"F25:1", "F30:1", "F30000:1001", "F24000:1001", "F1:1", "F60:1", "F0:0", "F1:2000000000", "F120000:1001",
           "F4294967297:3000000001", "F050:02">>
Others == <<"Ip", "It", "Ib", "Im", "A1:1", "A0:0", "A128:117", "XYSCSS=420JPEG", "XCOLORRANGE=FULL", "X", "Xhello", "Zunknown">>

Sizes == <<1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17>>
Widths == IF Wants({"C17", "C19", "C20"}) THEN Sizes \o <<31, 33, 64, 65, 66, 130>> ELSE Sizes
Kinds == <<"noise", "noise", "noise", "newlines", "frames", "zero", "ones", "lines">>

(* Headers which are refused, and how; "ok" may be accepted *)
Broken == <<"magic", "magic2", "now", "noh", "w0", "h0", "wx", "wneg", "rate", "rate2", "aspect", "colour", "colour2", "empty",
            "unended", "long", "short", "nothing", "huge", "wempty", "blank">>
Badly(b, w, h, c) ==
    CASE b = "magic" -> "YUV4MPEG3 " \o w \o " " \o h \o " " \o c
      [] b = "magic2" -> "yuv4mpeg2 " \o w \o " " \o h
      [] b = "now" -> "YUV4MPEG2 " \o h \o " " \o c
      [] b = "noh" -> "YUV4MPEG2 " \o c \o " " \o w
      [] b = "w0" -> "YUV4MPEG2 " \o w \o " " \o h \o " W0"
      [] b = "h0" -> "YUV4MPEG2 " \o w \o " H0 " \o c
      [] b = "wx" -> "YUV4MPEG2 " \o w \o "x " \o h
      [] b = "wneg" -> "YUV4MPEG2 W-4 " \o h \o " " \o c
      [] b = "rate" -> "YUV4MPEG2 " \o w \o " " \o h \o " F30"
      [] b = "rate2" -> "YUV4MPEG2 " \o w \o " " \o h \o " F30:x " \o c
      [] b = "aspect" -> "YUV4MPEG2 " \o w \o " " \o h \o " A1"
      [] b = "colour" -> "YUV4MPEG2 " \o w \o " " \o h \o " C411"
      [] b = "colour2" -> "YUV4MPEG2 " \o c \o " " \o w \o " " \o h \o " C420p16"
      [] b = "empty" -> ""
      [] b = "blank" -> "YUV4MPEG2 "
      [] b = "unended" -> "YUV4MPEG2 " \o w \o " " \o h
      [] b = "long" -> "YUV4MPEG2 " \o w \o " " \o h \o " "
      [] b = "short" -> "YUV4"
      [] b = "nothing" -> ""
      [] b = "huge" -> "YUV4MPEG2 W29000 H29999 C444p12"
      [] b = "wempty" -> "YUV4MPEG2 W " \o h

Marks == <<"FRAME", "FRAME", "FRAME", "FRAME Ip", "FRAME ", "FRAME Xsome thing", "FRAME I1 X">>
BadMarks == <<"FRAM", "FRAMES", "frame", "", "XRAME", "FRAMEIp", "YUV4MPEG2 W4 H4", "long">>

Cat(ps) == LET F[i \in 0..Len(ps)] == IF i = 0 THEN "" ELSE F[i - 1] \o (IF ps[i] = "" THEN "" ELSE " ") \o ps[i] IN F[Len(ps)]

RECURSIVE Mixed(_)
(* A random order *)
Mixed(s) == IF s = <<>> THEN <<>>
            ELSE LET i == RandomElement(1..Len(s)) IN
                 <<s[i]>> \o Mixed(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))

Header(w, h, name) ==
    LET ps == Mixed(<<"W" \o ToString(w), "H" \o ToString(h)>>
                \o (IF name = "420" /\ Among(<<1, 2>>) = 1 THEN <<>> ELSE <<"C" \o name>>)
                \o (IF Among(<<1, 2, 3, 4>>) = 1 THEN <<>> ELSE <<Among(Rates)>>)
                \o (IF Among(<<1, 2>>) = 1 THEN <<>> ELSE <<Among(Others)>>)
                \o (IF Among(<<1, 2, 3>>) > 1 THEN <<>> ELSE <<Among(Others)>>))
        first == IF Among(<<1, 2, 3, 4, 5, 6, 7>>) = 1 THEN <<"W" \o ToString(w + 1), "Cmono">> ELSE <<>>   (* the last one counts *)
    IN "YUV4MPEG2" \o Cat(first \o (IF first # <<>> /\ name = "420" THEN <<"C420">> ELSE <<>>) \o ps)
       \o (IF Among(<<1, 2, 3, 4, 5, 6>>) = 1 THEN " " ELSE "")

Read == [op |-> "read", k |-> 0]
Details == [op |-> "details", k |-> 0]
Reads(n) == [i \in 1..n |-> Read]

Specifics(n) == <<0, 0, 1, 2, 3, n - 1, n, n + 1, 100, -1, -2, -3, -4, -5, -6, -7>>
Calls(n) ==
    IF Wants({"C21"})
    THEN LET F[i \in 0..(n + 2)] ==
                IF i = 0 THEN <<>>
                ELSE F[i - 1] \o (IF Among(<<1, 2, 3>>) = 1 THEN Reads(1)
                                  ELSE <<[op |-> "specific", k |-> LET x == Among(Specifics(n)) IN IF x < -7 THEN 0 ELSE x]>>)
         IN F[Among(<<1, 2, n + 1, n + 2>>)] \o Reads(2)
    ELSE IF Wants({"C20"}) THEN <<Details>> \o Reads(1) \o <<Details>> \o Reads(n - 1) \o <<Details, Read, Details>>
    ELSE IF Among(<<1, 2, 3, 4, 5>>) = 1 THEN Reads(n \div 2) \o <<Details>> \o Reads(n + 2 - n \div 2)
    ELSE Reads(n + 2)

Emit(r) == PrintT("@@SCEN " \o ToJson(r))

RandomFile ==
    \E name \in {Among(IF Wants({"C19"}) THEN <<"420mpeg2", "420mpeg2", "422", "422p10", "422p12">> ELSE Names)} :
    (* Some files have large frames, others many *)
    \E class \in {CASE k % 50 = 7 -> "large" [] k % 50 = 13 -> "long" [] k % 200 = 101 -> "broad" [] k % 200 = 151 -> "tall"
                     [] k % 400 = 199 -> "endless" [] OTHER -> "normal"} :
    \E w \in {Among(CASE class = "large" -> <<200, 257, 300, 514>> [] class = "long" -> <<1, 2, 5, 8, 9>>
                      [] class = "broad" -> <<16390, 33000, 66000>> [] class = "tall" -> <<1, 2, 3>> [] class = "endless" -> <<1>> [] OTHER -> Widths)} :
    \E h \in {Among(CASE class = "large" -> <<64, 99, 180>> [] class = "long" -> <<1, 2, 5>>
                      [] class = "broad" -> <<1, 2>> [] class = "tall" -> <<1100, 2200, 4400, 17000>> [] class = "endless" -> <<1>>
                      [] OTHER -> IF Wants({"C17"}) THEN Sizes \o <<30, 65>> ELSE Sizes)} :
    \E n \in {Among(CASE class = "large" -> <<1, 2>> [] class = "long" -> <<17, 40, 70, 130, 260>>
                      [] class \in {"broad", "tall"} -> <<1>> [] class = "endless" -> <<4200>> [] OTHER -> <<0, 1, 1, 2, 3, 3, 5>>)} :
    \E bad \in {IF Wants({"C18"}) THEN Among(<<"header", "mark", "mark", "cut", "cut", "tail", "none">>) ELSE "none"} :
    \E broken \in {Among(Broken)} :
    \E kind \in {Among(Kinds)}, seed \in {Pick(1..1000000)} :
    \E cut \in {Pick(0..999)}, badmark \in {Among(BadMarks)}, mark \in {Among(Marks)}, where \in {Pick(1..(n + 1))} :
    \E via \in {Among(<<"file", "file", "fifo", "fifo", "stdin">>)}, chunk \in {Among(<<1, 2, 3, 7, 64, 1000, 5000, 0>>)} :
    \E wide \in {Among(<<FALSE, FALSE, FALSE, TRUE>>)} :
    Emit([id |-> k, w |-> w, h |-> h, name |-> name, n |-> n,
          header |-> IF bad = "header" THEN Badly(broken, "W" \o ToString(w), "H" \o ToString(h), "C" \o name) ELSE Header(w, h, name),
          end |-> IF bad = "header" /\ broken \in {"unended", "nothing"} THEN "none" ELSE IF bad = "header" /\ broken = "long" THEN "long" ELSE "line",
          stop |-> (bad = "header" /\ broken \in {"unended", "nothing", "huge"}),
          mark |-> mark, badat |-> IF bad = "mark" THEN where ELSE 0, badmark |-> badmark,
          cut |-> IF bad = "cut" THEN cut ELSE -1,
          exact |-> -1,
          tail |-> IF bad = "tail" THEN Among(<<"noise", "frames", "newlines", "zero">>) ELSE "",
          framesize |-> FrameSize(name, w, h),
          kind |-> kind, seed |-> seed, via |-> via, chunk |-> chunk, wide |-> wide,
          ops |-> IF class # "endless" THEN Calls(n)
                  ELSE IF k % 800 = 199 THEN <<[op |-> "specific", k |-> Among(<<4100, 4150>>)], Read, [op |-> "specific", k |-> 300], Read>>
                  ELSE <<Read, [op |-> "specific", k |-> Among(<<255, 300, 1030>>)], Read, [op |-> "specific", k |-> Among(<<2048, 2600>>)],
                         Read, [op |-> "specific", k |-> Among(<<100, 70000, -2>>)], Read>>])

(* Small files which end after every number of bytes *)
CutName == Names[(k % Len(Names)) + 1]
Cuts ==
    \E w \in {Among(<<1, 2, 3>>)}, h \in {Among(<<1, 2, 3>>)}, kind \in {Among(Kinds)}, seed \in {Pick(1..1000000)}, mark \in {Among(<<"FRAME", "FRAME Ip">>)} :
    LET head == "YUV4MPEG2 W" \o ToString(w) \o " C" \o CutName \o " H" \o ToString(h)
        size == Len(head) + 1 + 2 * (Len(mark) + 1 + FrameSize(CutName, w, h))
    IN \A c \in 0..size :
        Emit([id |-> k, w |-> w, h |-> h, name |-> CutName, n |-> 2, header |-> head, end |-> "line", stop |-> FALSE, mark |-> mark, badat |-> 0,
              badmark |-> "", cut |-> -1, exact |-> c, tail |-> "", framesize |-> FrameSize(CutName, w, h), kind |-> kind,
              seed |-> seed, via |-> "file", chunk |-> 0, wide |-> FALSE, ops |-> Reads(4)])

Init == k = 0
Next ==
    /\ k < Count
    /\ k' = k + 1
    /\ IF Profile = "cuts" THEN Cuts ELSE RandomFile
Spec == Init /\ [][Next]_k
=============================================================================
