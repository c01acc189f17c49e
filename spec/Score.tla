-------------------------------- MODULE Score --------------------------------
(* Comparing recorded scores with expected ones. *)
EXTENDS Integers, Sequences, F64

Inf == <<2146435072, 0>>

(* The linear quantity behind decibels: 10^(-dB/10) *)
Linear(db) == FPow(10, FDiv(db, -10))

Near(a, b, rel, abs) == FLe(FAbs(FSub(a, b)), FAdd(abs, FMul(rel, FAdd(FAbs(a), FAbs(b)))))

(* Scores in decibels (or whatever linear scale) which are equal up to rounding *)
NearScore(a, b) == a = b \/ Near(a, b, FLit("1e-9"), FLit("1e-9"))

(* Decibels whose linear quantities are equal up to rounding, infinite decibels included: the     *)
(* linear quantity is a difference to one, whose rounding errors are absolute.                   *)
NearLinear(db, lin) ==
    \/ FIsInf(db) /\ FLt(0, db) /\ FLt(lin, FLit("1e-10"))
    \/ ~FIsInf(db) /\ Near(Linear(db), lin, FLit("1e-8"), FLit("1e-10"))

NearDecibels(a, b) == a = b \/ NearLinear(a, IF FIsInf(b) /\ FLt(0, b) THEN FInt(0) ELSE Linear(b))
=============================================================================
