-------------------------------- MODULE Psnr --------------------------------
(* Peak signal to noise ratio. *)
EXTENDS Planes, F64

(* The squared error of two planes of the same size. *)
SquaredError(P, Q) ==
    FSum(Tab(Height(P), LAMBDA y :
        LET d == Tab(Width(P), LAMBDA x : P[y][x] - Q[y][x]) IN FDot(d, d)))

(* The pooled error of some planes: squared error and number of samples. *)
Pool(s) == [se |-> FSum([i \in 1..Len(s) |-> s[i].se]), n |-> FSum([i \in 1..Len(s) |-> s[i].n])]

Decibels(pool, depth) ==
    IF FEq(pool.se, 0) THEN FInt(100)
    ELSE FMin(100, FMul(10, FLog10(FDiv(FMul(FMul(MaxOf(depth), MaxOf(depth)), pool.n), pool.se))))

PsnrPlanes(A, B) == Tab(3, LAMBDA p : [se |-> SquaredError(A[p], B[p]), n |-> Samples(A[p])])

(* The scores of the videos whose frame pairs have these plane errors, a single frame included. *)
PsnrOfFrames(frames, depth) ==
    LET n == Len(frames) IN
    [y |-> Decibels(Pool([i \in 1..n |-> frames[i][1]]), depth),
     u |-> Decibels(Pool([i \in 1..n |-> frames[i][2]]), depth),
     v |-> Decibels(Pool([i \in 1..n |-> frames[i][3]]), depth),
     avg |-> Decibels(Pool([i \in 1..(3*n) |-> frames[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]]), depth)]

ApsnrOfFrames(frames, depth) ==
    LET n == Len(frames)
        Mean(s) == FDiv(FSum(s), n) IN
    [y |-> Mean([i \in 1..n |-> Decibels(frames[i][1], depth)]),
     u |-> Mean([i \in 1..n |-> Decibels(frames[i][2], depth)]),
     v |-> Mean([i \in 1..n |-> Decibels(frames[i][3], depth)]),
     avg |-> Mean([i \in 1..n |-> Decibels(Pool(frames[i]), depth)])]
=============================================================================
