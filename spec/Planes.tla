------------------------------- MODULE Planes -------------------------------
(* Pictures.  A plane is the sequence of its visible rows, a row the sequence of its samples; a   *)
(* plane without samples is <<>>.  A frame is the sequence of its Y, Cb and Cr planes.            *)
EXTENDS Integers, Sequences, TLC

Height(P) == Len(P)
Width(P)  == IF P = <<>> THEN 0 ELSE Len(P[1])
Samples(P) == Width(P) * Height(P)
MaxOf(depth) == 2^depth - 1

Imin(a, b) == IF a < b THEN a ELSE b
Imax(a, b) == IF a > b THEN a ELSE b
Iabs(a) == IF a < 0 THEN -a ELSE a

(* [i \in 1..n |-> Op(i)] as an evaluated sequence: TLC would evaluate the body again at every    *)
(* application otherwise.                                                                        *)
Tab(n, Op(_)) == TLCEval(SubSeq(TLCEval([i \in 1..n |-> Op(i)]), 1, n))

SameSize(P, Q) == Height(P) = Height(Q) /\ Width(P) = Width(Q)

(* Chroma subsampling, and the weight of each chroma plane relative to luma, in quarters. *)
Subsampling(cs) == CASE cs = "420" -> <<1, 1>> [] cs = "422" -> <<1, 0>> [] OTHER -> <<0, 0>>
ChromaQuarters(cs) == CASE cs = "420" -> 1 [] cs = "422" -> 2 [] cs = "444" -> 4 [] cs = "400" -> 0
ChromaWidth(cs, w) == IF cs = "400" THEN 0 ELSE (w + Subsampling(cs)[1]) \div 2^Subsampling(cs)[1]
ChromaHeight(cs, h) == IF cs = "400" THEN 0 ELSE (h + Subsampling(cs)[2]) \div 2^Subsampling(cs)[2]
=============================================================================
