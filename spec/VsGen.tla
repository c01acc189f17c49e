-------------------------------- MODULE VsGen --------------------------------
(* Clips of VapourSynth, reached through scripts and through video files, and calls of the decoder. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Count
VARIABLE k

Pick(S) == RandomElement(S)
Among(s) == s[RandomElement(1..Len(s))]

Names == <<"a.mkv", "with space.mkv", "quote\".mkv", "it's.mkv", "back\\slash.mkv", "\\n.mkv", "tr\\", "\"\\\"", "UNICODE.mkv",
           "line\nend.mkv", "carriage\rreturn.mkv", "tab\t.mkv", "percent%s{}.mkv", "#hash.mkv", "'''.mkv", "\"\"\".mkv", "${x}.mkv", "-lead.mkv", "noext",
           "\\\\?\\x.mkv", ")\nclip.mkv">>

Call(op, n) == [op |-> op, k |-> n]
Reads(n) == [j \in 1..n |-> Call("read", 0)]
Mixed(n) ==
    LET F[j \in 0..(n + 2)] ==
           IF j = 0 THEN <<>>
           ELSE F[j - 1] \o (CASE Among(<<1, 2, 3, 4>>) = 1 -> <<Call("details", 0)>>
                               [] Among(<<1, 2, 3>>) = 1 -> <<Call("specific", Among(<<0, 0, 1, 2, 3, n, n + 1, 100, -1, -2, -3, -4, -5, -6, -7>>))>>
                               [] OTHER -> Reads(1))
    IN F[n + 2] \o Reads(2)
Calls(n) == IF Among(<<1, 2, 3>>) = 1 THEN Mixed(n) ELSE <<Call("details", 0)>> \o Reads(n + 2) \o <<Call("details", 0)>>

(* What is wrong with the clip, or nothing *)
Troubles == <<"missing", "fails", "hidden", "float", "rgb", "compat", "410", "411", "440", "deep", "format", "size", "rate">>
Rates == <<<<25, 1>>, <<24000, 1001>>, <<30000, 1001>>, <<60, 1>>, <<1, 1>>, <<1, 7>>, <<2147483647, 3>>, <<999983, 1000000>>, <<12, 5>>>>

Emit(r) == PrintT("@@SCEN " \o ToJson(r))

Scenario ==
    \E trouble \in {IF Among(<<1, 2, 3>>) = 1 THEN Among(Troubles) ELSE "none"},
       sub \in {Among(<<<<"gray", 0, 0>>, <<"yuv", 0, 0>>, <<"yuv", 1, 0>>, <<"yuv", 1, 1>>, <<"yuv", 1, 1>>>>)},
       bits \in {Among(<<8, 8, 8, 9, 10, 12, 14, 16>>)},
       cw \in {Among(<<1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33>>)}, ch \in {Among(<<1, 2, 3, 4, 5, 8, 9, 13, 17>>)},
       n \in {Among(<<1, 1, 2, 3, 4, 6, 9>>)}, rate \in {Among(Rates)}, seed \in {Pick(1..1000000)} :
    LET family == CASE trouble = "rgb" -> "rgb" [] trouble = "compat" -> "compat" [] trouble \in {"410", "411", "440"} -> "yuv" [] OTHER -> sub[1]
        ssw == CASE trouble \in {"410", "411"} -> 2 [] trouble \in {"440", "rgb"} -> 0 [] OTHER -> sub[2]
        ssh == CASE trouble = "410" -> 2 [] trouble = "440" -> 1 [] trouble \in {"411", "rgb"} -> 0 [] OTHER -> sub[3]
    IN
    \E via \in {Among(<<"script", "script", "default", "lsmash", "best">>)} :
    Emit([id |-> k, via |-> via, relative |-> Among(<<1, 2, 3>>) = 1, near |-> via = "script" /\ Among(<<1, 2, 3>>) = 1,
          name |-> IF Among(<<1, 2>>) = 1 THEN Names[1] ELSE Among(Names),
          exists |-> trouble # "missing", works |-> trouble \notin {"missing", "fails"}, hidden |-> trouble = "hidden",
          family |-> family, float |-> trouble = "float",
          bits |-> CASE trouble = "float" -> Among(<<16, 32>>) [] trouble = "deep" -> Among(<<17, 20, 24, 32>>) [] OTHER -> bits,
          ssw |-> ssw, ssh |-> ssh, w |-> cw * 2^ssw, h |-> ch * 2^ssh,
          n |-> n, seed |-> seed, bad |-> IF Among(<<1, 2, 3, 4>>) = 1 THEN Pick(0..(n - 1)) ELSE -1,
          vary |-> IF trouble \in {"format", "size", "rate"} THEN trouble ELSE "no",
          num |-> rate[1], den |-> rate[2], wide |-> FALSE, ops |-> Calls(n)])

Init == k = 0
Next == k < Count /\ k' = k + 1 /\ Scenario
Spec == Init /\ [][Next]_k
=============================================================================
