------------------------------- MODULE Ciede -------------------------------
(* The colour difference CIEDE2000 of two pictures in limited range YCbCr. *)
EXTENDS Planes, F64

LOCAL Pi == FLit("3.141592653589793")
LOCAL N(s) == FLit(s)
LOCAL Sq(a) == FMul(a, a)
LOCAL Hypot(a, b) == FSqrt(FAdd(Sq(a), Sq(b)))
LOCAL Pow7(a) == FMul(FMul(Sq(a), Sq(a)), FMul(Sq(a), a))
LOCAL Cos(a) == FCos(a)
LOCAL C25 == FInt(25)
LOCAL P257 == Pow7(C25)
LOCAL TwoPi == FMul(2, Pi)
LOCAL Lin3(k1, a, k2, b, k3, c) == FAdd(FAdd(FMul(k1, a), FMul(k2, b)), FMul(k3, c))

(* Gamma expansion, and the nonlinearity of Lab *)
Expand(c) == IF FLt(FDiv(10, 255), c) THEN FPow(FDiv(FAdd(c, N("0.055")), N("1.055")), N("2.4"))
             ELSE FDiv(c, N("12.92"))
LabCurve(c) == IF FLt(FDiv(216, 24389), c) THEN FCbrt(c)
               ELSE FDiv(FAdd(FMul(FDiv(24389, 27), c), 16), 116)

(* Lab of a sample, as <<L, a, b>> *)
ToLab(y0, u0, v0, depth) ==
    LET scale == 2^(depth - 8)
        y == FDiv(y0 - 16 * scale, 219 * scale)
        u == FDiv(u0 - 128 * scale, 224 * scale)
        v == FDiv(v0 - 128 * scale, 224 * scale)
        r == Expand(FAdd(y, FMul(N("1.28033"), v)))
        g == Expand(FSub(FSub(y, FMul(N("0.21482"), u)), FMul(N("0.38059"), v)))
        b == Expand(FAdd(y, FMul(N("2.12798"), u)))
        X == LabCurve(FDiv(Lin3(N("0.4124564390896921"), r, N("0.357576077643909"), g, N("0.18043748326639894"), b), N("0.95047")))
        Y == LabCurve(Lin3(N("0.21267285140562248"), r, N("0.715152155287818"), g, N("0.07217499330655958"), b))
        Z == LabCurve(FDiv(Lin3(N("0.019333895582329317"), r, N("0.119192025881303"), g, N("0.9503040785363677"), b), N("1.08883")))
    IN TLCEval(<<FSub(FMul(116, Y), 16), FMul(500, FSub(X, Y)), FMul(200, FSub(Y, Z))>>)

Hue(b, a) == LET h == FAtan2(b, a) IN IF FEq(a, 0) /\ FEq(b, 0) THEN FInt(0) ELSE IF FLt(h, 0) THEN FAdd(h, TwoPi) ELSE h

(* CIEDE2000 with the parameters kL, kC and kH.  `wrap` tells whether the hues lie across the      *)
(* origin of the circle: exactly opposite hues belong to both cases, which is why the choice is   *)
(* left to the caller.                                                                           *)
DeltaEWith(p, q, kL, kC, kH, wrap) ==
    LET c1 == Hypot(p[2], p[3])
        c2 == Hypot(q[2], q[3])
        cb7 == Pow7(FDiv(FAdd(c1, c2), 2))
        g == FDiv(FSub(1, FSqrt(FDiv(cb7, FAdd(cb7, P257)))), 2)
        a1 == FMul(p[2], FAdd(1, g))
        a2 == FMul(q[2], FAdd(1, g))
        d1 == Hypot(a1, p[3])
        d2 == Hypot(a2, q[3])
        db == FDiv(FAdd(d1, d2), 2)
        h1 == Hue(p[3], a1)
        h2 == Hue(q[3], a2)
        dh == IF FEq(c1, 0) \/ FEq(c2, 0) THEN FInt(0)
              ELSE IF ~wrap THEN FSub(h2, h1)
              ELSE IF FLe(h2, h1) THEN FAdd(FSub(h2, h1), TwoPi) ELSE FSub(FSub(h2, h1), TwoPi)
        hb == FDiv(FAdd(FAdd(h1, h2), IF wrap THEN TwoPi ELSE 0), 2)
        lm == FSub(FDiv(FAdd(p[1], q[1]), 2), 50)
        sl == FAdd(1, FDiv(FMul(N("0.015"), Sq(lm)), FSqrt(FAdd(20, Sq(lm)))))
        sc == FAdd(1, FMul(N("0.045"), db))
        t == FAdd(FSub(1, FMul(N("0.17"), Cos(FSub(hb, FDiv(Pi, 6))))),
             FAdd(FMul(N("0.24"), Cos(FMul(2, hb))),
             FSub(FMul(N("0.32"), Cos(FAdd(FMul(3, hb), FDiv(Pi, 30)))),
                  FMul(N("0.20"), Cos(FSub(FMul(4, hb), FDiv(FMul(7, Pi), 20)))))))
        sh == FAdd(1, FMul(FMul(N("0.015"), db), t))
        db7 == Pow7(db)
        arc == FDiv(FSub(FDiv(FMul(hb, 180), Pi), 275), 25)
        rt == FMul(FMul(-2, FSqrt(FDiv(db7, FAdd(db7, P257)))),
                   FSin(FDiv(FMul(FMul(60, FExp(FNeg(Sq(arc)))), Pi), 180)))
        L == FDiv(FSub(q[1], p[1]), FMul(kL, sl))
        C == FDiv(FSub(d2, d1), FMul(kC, sc))
        H == FDiv(FMul(FMul(2, FSqrt(FMul(d1, d2))), FSin(FDiv(dh, 2))), FMul(kH, sh))
    IN FSqrt(FMax(0, FAdd(FAdd(Sq(L), Sq(C)), FAdd(Sq(H), FMul(rt, FMul(C, H))))))

HueGap(p, q) ==
    LET c1 == Hypot(p[2], p[3])
        c2 == Hypot(q[2], q[3])
        cb7 == Pow7(FDiv(FAdd(c1, c2), 2))
        g == FAdd(1, FDiv(FSub(1, FSqrt(FDiv(cb7, FAdd(cb7, P257)))), 2))
    IN FAbs(FSub(Hue(p[3], FMul(p[2], g)), Hue(q[3], FMul(q[2], g))))

DeltaE(p, q, kL, kC, kH) == DeltaEWith(p, q, kL, kC, kH, FLt(Pi, HueGap(p, q)))

(* The interval of the difference of two colours, given that single precision cannot tell on     *)
(* which side of the circle nearly opposite hues are nearer, nor the hue of nearly neutral        *)
(* colours: <<low, high>>.                                                                       *)
Interval(p, q) ==
    LET gap == FSub(HueGap(p, q), Pi)
        kL == N("0.65")
        near == FLt(FAbs(gap), N("0.001")) \/ FLt(Hypot(p[2], p[3]), N("0.05")) \/ FLt(Hypot(q[2], q[3]), N("0.05"))
        d == DeltaEWith(p, q, kL, 1, 4, FLt(0, gap))
    IN IF ~near THEN <<d, d>>
       ELSE LET e == DeltaEWith(p, q, kL, 1, 4, ~FLt(0, gap))
            IN <<FMin(d, e), FMax(d, e)>>

(* <<low, high>> of the mean difference of two frames *)
MeanDeltaE(A, B, depth, cs) ==
    LET w == Width(A[1])
        h == Height(A[1])
        sx == Subsampling(cs)[1]
        sy == Subsampling(cs)[2]
        Lab(F, x, y) == ToLab(F[1][y][x], F[2][((y - 1) \div 2^sy) + 1][((x - 1) \div 2^sx) + 1],
                              F[3][((y - 1) \div 2^sy) + 1][((x - 1) \div 2^sx) + 1], depth)
        X(i) == ((i - 1) % w) + 1
        Y(i) == ((i - 1) \div w) + 1
        all == Tab(w * h, LAMBDA i : Interval(Lab(A, X(i), Y(i)), Lab(B, X(i), Y(i))))
    IN <<FDiv(FSum(Tab(w * h, LAMBDA i : all[i][1])), w * h), FDiv(FSum(Tab(w * h, LAMBDA i : all[i][2])), w * h)>>

CiedeScore(mean) == FMin(100, FSub(45, FMul(20, FLog10(mean))))
=============================================================================
