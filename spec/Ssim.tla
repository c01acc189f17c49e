-------------------------------- MODULE Ssim --------------------------------
(* Structural similarity, and its multi-scale variant.  The linear scores are 1 for identical     *)
(* planes; Similarity decibels are 10*log10(w / (w - s)) for a score s out of w.                  *)
EXTENDS Planes, F64

Pi == FLit("3.141592653589793")

(* The integer Gaussian window: weights of the offsets -r..r, which sum up to `weight`, where the *)
(* first offset left out weighs less than one half, and r < maxlen.                               *)
Gaussian(sigma, maxlen, weight) ==
    LET s   == FDiv(FMul(FSqrt(FDiv(Pi, 2)), sigma), weight)
        len == IF FLe(1, s) THEN 0 ELSE FFloor(FMul(sigma, FSqrt(FMul(-2, FLn(s)))))
        r   == Imin(len, maxlen - 1)
        W(i) == FFloor(FAdd(FMul(FDiv(weight, FMul(FSqrt(FMul(2, Pi)), sigma)),
                                 FExp(FDiv(FMul(-1, i * i), FMul(2, FMul(sigma, sigma))))),
                            FLit("0.5")))
        side == Tab(r, W)
        RECURSIVE Sum(_)
        Sum(i) == IF i = 0 THEN 0 ELSE side[i] + Sum(i - 1)
    IN Tab(2 * r + 1, LAMBDA k : IF k = r + 1 THEN weight - 2 * Sum(r) ELSE side[Iabs(k - r - 1)])

(* The window K applied around each element of s, without the elements outside of s. *)
Smooth(s, K) ==
    LET n == Len(s)
        r == Len(K) \div 2
    IN Tab(n, LAMBDA i : LET a == Imax(1, i - r)
                             b == Imin(n, i + r)
                         IN FDot(SubSeq(K, a - i + r + 1, b - i + r + 1), SubSeq(s, a, b)))

(* The window applied along the rows and the columns.  The result is indexed by column, row. *)
Smooth2(rows, w, h, K) ==
    LET horiz == Tab(h, LAMBDA y : Smooth(rows[y], K))
    IN Tab(w, LAMBDA x : Smooth(Tab(h, LAMBDA y : horiz[y][x]), K))

Products(P, Q, w, h) == Tab(h, LAMBDA y : Tab(w, LAMBDA x : FMul(P[y][x], Q[y][x])))

(* <<mean SSIM, mean of its contrast-structure factor>>, weighted by the mass of the window which *)
(* is inside of the plane.                                                                       *)
SsimTerms(P, Q, max, K) ==
    LET w  == Width(P)
        h  == Height(P)
        c1 == FMul(FLit("0.0001"), FMul(max, max))
        c2 == FMul(FLit("0.0009"), FMul(max, max))
        m  == Smooth2(Tab(h, LAMBDA y : Tab(w, LAMBDA x : 1)), w, h, K)
        p  == Smooth2(P, w, h, K)
        q  == Smooth2(Q, w, h, K)
        pp == Smooth2(Products(P, P, w, h), w, h, K)
        qq == Smooth2(Products(Q, Q, w, h), w, h, K)
        pq == Smooth2(Products(P, Q, w, h), w, h, K)
        Terms(x, y) ==
            LET mass == m[x][y]
                mp == FDiv(p[x][y], mass)
                mq == FDiv(q[x][y], mass)
                vp == FSub(FDiv(pp[x][y], mass), FMul(mp, mp))
                vq == FSub(FDiv(qq[x][y], mass), FMul(mq, mq))
                cv == FSub(FDiv(pq[x][y], mass), FMul(mp, mq))
                cs == FDiv(FAdd(FMul(2, cv), c2), FAdd(FAdd(vp, vq), c2))
                l  == FDiv(FAdd(FMul(2, FMul(mp, mq)), c1), FAdd(FAdd(FMul(mp, mp), FMul(mq, mq)), c1))
            IN <<FMul(mass, FMul(cs, l)), FMul(mass, cs)>>
        all == Tab(w * h, LAMBDA i : Terms(((i - 1) % w) + 1, ((i - 1) \div w) + 1))
        total == FSum(Tab(w * h, LAMBDA i : m[((i - 1) % w) + 1][((i - 1) \div w) + 1]))
    IN <<FDiv(FSum(Tab(w * h, LAMBDA i : all[i][1])), total),
         FDiv(FSum(Tab(w * h, LAMBDA i : all[i][2])), total)>>

SsimPlane(P, Q, depth) ==
    IF P = <<>> THEN FInt(1)
    ELSE SsimTerms(P, Q, FInt(MaxOf(depth)),
                   Gaussian(FDiv(FMul(Height(P), FLit("1.5")), 256), Imin(Width(P), Height(P)), 256))[1]

(* Every sample of the next scale is the sum of 2x2 samples, an odd row or column is dropped. *)
Halve(P) ==
    LET w == Width(P) \div 2
        h == Height(P) \div 2
    IN Tab(h, LAMBDA y : Tab(w, LAMBDA x : P[2*y-1][2*x-1] + P[2*y-1][2*x] + P[2*y][2*x-1] + P[2*y][2*x]))

MsWeight == << FLit("0.0448"), FLit("0.2856"), FLit("0.3001"), FLit("0.2363"), FLit("0.1333") >>

MsssimPlane(P, Q, depth) ==
    IF P = <<>> THEN FInt(1)
    ELSE LET K == Gaussian(FLit("1.5"), 5, 1024)
             RECURSIVE Scales(_, _, _, _)
             Scales(A, B, max, i) ==
                LET t == SsimTerms(A, B, FInt(max), K)
                    v == FPow(FMax(0, IF i = 5 THEN t[1] ELSE t[2]), MsWeight[i])
                IN IF i = 5 THEN v ELSE FMul(v, Scales(TLCEval(Halve(A)), TLCEval(Halve(B)), 4 * max, i + 1))
         IN Scales(P, Q, MaxOf(depth), 1)

(* What is missing to a perfect score: decibels are -10*log10 of it.  s is the sum of n linear scores *)
Missing(s, n) == FMax(0, FDiv(FSub(n, s), n))
MissingAvg(sy, su, sv, n, cs) ==
    LET c == FDiv(ChromaQuarters(cs), 4)
        w == FMul(n, FAdd(1, FMul(2, c)))
    IN FMax(0, FDiv(FSub(w, FAdd(sy, FMul(c, FAdd(su, sv)))), w))
SimilarityOfFrames(frames, cs) ==
    LET n == Len(frames)
        S(p) == FSum([i \in 1..n |-> frames[i][p]])
    IN [y |-> Missing(S(1), n), u |-> Missing(S(2), n), v |-> Missing(S(3), n),
        avg |-> MissingAvg(S(1), S(2), S(3), n, cs)]
=============================================================================
