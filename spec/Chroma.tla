------------------------------- MODULE Chroma -------------------------------
(* The realignment of vertically sited chroma: every row is filtered with                          *)
(* [4 -17 114 35 -9 1]/128 around the sample, rounded, and clamped to the range of the bit depth.  *)
EXTENDS Integers, Sequences, TLC, Planes

Taps == <<4, -17, 114, 35, -9, 1>>

Clamp(v, low, high) == IF v < low THEN low ELSE IF v > high THEN high ELSE v

(* Sample x of a row, whose first and last samples go on forever *)
Extended(row, x) == row[Clamp(x, 1, Len(row))]

(* \div rounds towards minus infinity, as an arithmetic shift does *)
Realigned(row, x, depth) ==
    Clamp((Taps[1] * Extended(row, x - 2) + Taps[2] * Extended(row, x - 1) + Taps[3] * Extended(row, x)
           + Taps[4] * Extended(row, x + 1) + Taps[5] * Extended(row, x + 2) + Taps[6] * Extended(row, x + 3) + 64) \div 128,
          0, MaxOf(depth))

RealignRow(row, depth) == [x \in 1..Len(row) |-> Realigned(row, x, depth)]

(* The plane a decoder delivers for the samples P of the file *)
Converted(P, position, depth) ==
    IF position = "vertical" THEN [y \in 1..Len(P) |-> RealignRow(P[y], depth)] ELSE P

ASSUME Taps[1] + Taps[2] + Taps[3] + Taps[4] + Taps[5] + Taps[6] = 128
=============================================================================
