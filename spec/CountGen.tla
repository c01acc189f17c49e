------------------------------ MODULE CountGen ------------------------------
(* Calls of the decoder which makes up its frames: many of them, and requests around the numbers  *)
(* of frames at which counters of 8 and 16 bits end.                                            *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Count
VARIABLE k

Among(s) == s[RandomElement(1..Len(s))]

Lengths == <<0, 1, 2, 3, 5, 255, 256, 257, 300, 1000, 5000, 32768, 65535, 65536, 65537, 70000, 100000, 140000>>
Edges == <<0, 1, 2, 3, 10, 126, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 4095, 4096, 9999, 10000, 32766, 32767, 32768, 65534, 65535, 65536,
           65537, 65800, 99999, 131071, 131072, -1, -2, -3, -4, -5, -6, -7>>

(* What is asked for of a video of n frames, `pos` of which are gone *)
Request(n, pos) ==
    LET x == Among(Edges \o <<n - pos - 2, n - pos - 1, n - pos - 1, n - pos, n - pos + 1, n - 1, n>>)
    IN IF x < -7 \/ (x < 0 /\ n < 3) THEN 0 ELSE x

Calls(n) ==
    LET F[j \in 0..8] ==
        IF j = 0 THEN [pos |-> 0, ops |-> <<>>]
        ELSE LET before == F[j - 1]
                 one == IF Among(<<1, 2, 3>>) = 1 THEN <<[op |-> "read", k |-> 0]>>
                        ELSE <<[op |-> "specific", k |-> Request(n, before.pos)]>>
                 o == one[1]
                 to == before.pos + o.k + 1
             IN [pos |-> IF o.k < 0 \/ to > n THEN n ELSE to, ops |-> before.ops \o <<o>>]
    IN F[Among(<<1, 2, 4, 8>>)].ops \o <<[op |-> "read", k |-> 0], [op |-> "specific", k |-> Among(<<0, 0, 1, 255, -1>>)], [op |-> "read", k |-> 0]>>

Init == k = 0
Next ==
    /\ k < Count
    /\ k' = k + 1
    /\ \E n \in {Among(Lengths)} : \E wide \in {Among(<<FALSE, FALSE, TRUE>>)} :
         PrintT("@@SCEN " \o ToJson([id |-> k, n |-> n, wide |-> wide, ops |-> Calls(n)]))
Spec == Init /\ [][Next]_k
=============================================================================
