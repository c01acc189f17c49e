-------------------------------- MODULE F64 --------------------------------
(* IEEE-754 double precision numbers.  A number is an integer, or the pair <<hi, lo>> of the      *)
(* (signed 32 bit) halves of its bit pattern, which is how the harness writes doubles into a      *)
(* trace.  Every operator below is interpreted by spec/java/AvmOverrides.java; the right hand     *)
(* sides only give their types, so a run of TLC without the override stops at the first use.      *)
(* The metrics themselves are *defined* in TLA+, in the modules which use these operators.        *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL Double == Int \X Int

FLit(s)      == CHOOSE r \in Double : TRUE  (* the number denoted by a decimal literal (string) *)
FInt(n)      == CHOOSE r \in Double : TRUE
FShow(a)     == CHOOSE s \in STRING : TRUE
FAdd(a, b)   == CHOOSE r \in Double : TRUE
FSub(a, b)   == CHOOSE r \in Double : TRUE
FMul(a, b)   == CHOOSE r \in Double : TRUE
FDiv(a, b)   == CHOOSE r \in Double : TRUE
FNeg(a)      == CHOOSE r \in Double : TRUE
FAbs(a)      == CHOOSE r \in Double : TRUE
FMin(a, b)   == CHOOSE r \in Double : TRUE
FMax(a, b)   == CHOOSE r \in Double : TRUE
FSqrt(a)     == CHOOSE r \in Double : TRUE
FCbrt(a)     == CHOOSE r \in Double : TRUE
FLog10(a)    == CHOOSE r \in Double : TRUE
FLn(a)       == CHOOSE r \in Double : TRUE
FExp(a)      == CHOOSE r \in Double : TRUE
FPow(a, b)   == CHOOSE r \in Double : TRUE
FSin(a)      == CHOOSE r \in Double : TRUE
FCos(a)      == CHOOSE r \in Double : TRUE
FAtan2(a, b) == CHOOSE r \in Double : TRUE
FFloor(a)    == CHOOSE n \in Int : TRUE
FLt(a, b)    == CHOOSE r \in BOOLEAN : TRUE
FLe(a, b)    == CHOOSE r \in BOOLEAN : TRUE
FEq(a, b)    == CHOOSE r \in BOOLEAN : TRUE
FIsNaN(a)    == CHOOSE r \in BOOLEAN : TRUE
FIsInf(a)    == CHOOSE r \in BOOLEAN : TRUE
FSum(s)      == CHOOSE r \in Double : TRUE  (* s[1] + ... + s[Len(s)] *)
FDot(s, t)   == CHOOSE r \in Double : TRUE  (* s[1]*t[1] + ... + s[Len(s)]*t[Len(s)] *)
=============================================================================
