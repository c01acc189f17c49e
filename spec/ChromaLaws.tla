----------------------------- MODULE ChromaLaws -----------------------------
(* Laws of the filter of Chroma.tla, checked for all small rows; one state per row. *)
EXTENDS Chroma

CONSTANTS MaxLength, Values

VARIABLE row

Init == row \in UNION {[1..n -> Values] : n \in 1..MaxLength}
Spec == Init /\ [][UNCHANGED row]_row

Mirrored(r) == [x \in 1..Len(r) |-> 255 - r[x]]
InRange == \A x \in 1..Len(row) : RealignRow(row, 8)[x] \in 0..255
(* A sample depends on those from two to the left to three to the right only *)
Local ==
    \A x \in 1..Len(row), n \in 1..Len(row) :
        (n < x - 2 \/ n > x + 3) => Realigned([row EXCEPT ![n] = 77], x, 8) = Realigned(row, x, 8)
(* Constant rows stay the same, and a higher bit depth only moves the upper limit *)
Constant == (\A x \in 1..Len(row) : row[x] = row[1]) => RealignRow(row, 8) = row
Depths == \A x \in 1..Len(row) : Clamp(Realigned(row, x, 12), 0, 255) = Realigned(row, x, 8)
=============================================================================
