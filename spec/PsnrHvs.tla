------------------------------ MODULE PsnrHvs ------------------------------
(* PSNR-HVS-M as in daala: an integer 8x8 DCT, contrast masking and contrast sensitivity. *)
EXTENDS Planes, F64

(* Contrast sensitivity of the Y, Cb and Cr planes, evaluated once. *)
Csf == <<
    <<<<FLit("1.6193873005"), FLit("2.2901594831"), FLit("2.08509755623"), FLit("1.48366094411"), FLit("1.00227514334"), FLit("0.678296995242"), FLit("0.466224900598"), FLit("0.3265091542")>>,
      <<FLit("2.2901594831"), FLit("1.94321815382"), FLit("2.04793073064"), FLit("1.68731108984"), FLit("1.2305666963"), FLit("0.868920337363"), FLit("0.61280991668"), FLit("0.436405793551")>>,
      <<FLit("2.08509755623"), FLit("2.04793073064"), FLit("1.34329019223"), FLit("1.09205635862"), FLit("0.875748795257"), FLit("0.670882927016"), FLit("0.501731932449"), FLit("0.372504254596")>>,
      <<FLit("1.48366094411"), FLit("1.68731108984"), FLit("1.09205635862"), FLit("0.772819797575"), FLit("0.605636379554"), FLit("0.48309405692"), FLit("0.380429446972"), FLit("0.295774038565")>>,
      <<FLit("1.00227514334"), FLit("1.2305666963"), FLit("0.875748795257"), FLit("0.605636379554"), FLit("0.448996256676"), FLit("0.352889268808"), FLit("0.283006984131"), FLit("0.226951348204")>>,
      <<FLit("0.678296995242"), FLit("0.868920337363"), FLit("0.670882927016"), FLit("0.48309405692"), FLit("0.352889268808"), FLit("0.27032073436"), FLit("0.215017739696"), FLit("0.17408067321")>>,
      <<FLit("0.466224900598"), FLit("0.61280991668"), FLit("0.501731932449"), FLit("0.380429446972"), FLit("0.283006984131"), FLit("0.215017739696"), FLit("0.168869545842"), FLit("0.136153931001")>>,
      <<FLit("0.3265091542"), FLit("0.436405793551"), FLit("0.372504254596"), FLit("0.295774038565"), FLit("0.226951348204"), FLit("0.17408067321"), FLit("0.136153931001"), FLit("0.109083846276")>>>>,
    <<<<FLit("1.91113096927"), FLit("2.46074210438"), FLit("1.18284184739"), FLit("1.14982565193"), FLit("1.05017074788"), FLit("0.898018824055"), FLit("0.74725392039"), FLit("0.615105596242")>>,
      <<FLit("2.46074210438"), FLit("1.58529308355"), FLit("1.21363250036"), FLit("1.38190029285"), FLit("1.33100189972"), FLit("1.17428548929"), FLit("0.996404342439"), FLit("0.830890433625")>>,
      <<FLit("1.18284184739"), FLit("1.21363250036"), FLit("0.978712413627"), FLit("1.02624506078"), FLit("1.03145147362"), FLit("0.960060382087"), FLit("0.849823426169"), FLit("0.731221236837")>>,
      <<FLit("1.14982565193"), FLit("1.38190029285"), FLit("1.02624506078"), FLit("0.861317501629"), FLit("0.801821139099"), FLit("0.751437590932"), FLit("0.685398513368"), FLit("0.608694761374")>>,
      <<FLit("1.05017074788"), FLit("1.33100189972"), FLit("1.03145147362"), FLit("0.801821139099"), FLit("0.676555426187"), FLit("0.605503172737"), FLit("0.55002013668"), FLit("0.495804539034")>>,
      <<FLit("0.898018824055"), FLit("1.17428548929"), FLit("0.960060382087"), FLit("0.751437590932"), FLit("0.605503172737"), FLit("0.514674450957"), FLit("0.454353482512"), FLit("0.407050308965")>>,
      <<FLit("0.74725392039"), FLit("0.996404342439"), FLit("0.849823426169"), FLit("0.685398513368"), FLit("0.55002013668"), FLit("0.454353482512"), FLit("0.389234902883"), FLit("0.342353999733")>>,
      <<FLit("0.615105596242"), FLit("0.830890433625"), FLit("0.731221236837"), FLit("0.608694761374"), FLit("0.495804539034"), FLit("0.407050308965"), FLit("0.342353999733"), FLit("0.295530605237")>>>>,
    <<<<FLit("2.03871978502"), FLit("2.62502345193"), FLit("1.26180942886"), FLit("1.11019789803"), FLit("1.01397751469"), FLit("0.867069376285"), FLit("0.721500455585"), FLit("0.593906509971")>>,
      <<FLit("2.62502345193"), FLit("1.69112867013"), FLit("1.17180569821"), FLit("1.3342742857"), FLit("1.28513006198"), FLit("1.13381474809"), FLit("0.962064122248"), FLit("0.802254508198")>>,
      <<FLit("1.26180942886"), FLit("1.17180569821"), FLit("0.944981930573"), FLit("0.990876405848"), FLit("0.995903384143"), FLit("0.926972725286"), FLit("0.820534991409"), FLit("0.706020324706")>>,
      <<FLit("1.11019789803"), FLit("1.3342742857"), FLit("0.990876405848"), FLit("0.831632933426"), FLit("0.77418706195"), FLit("0.725539939514"), FLit("0.661776842059"), FLit("0.587716619023")>>,
      <<FLit("1.01397751469"), FLit("1.28513006198"), FLit("0.995903384143"), FLit("0.77418706195"), FLit("0.653238524286"), FLit("0.584635025748"), FLit("0.531064164893"), FLit("0.478717061273")>>,
      <<FLit("0.867069376285"), FLit("1.13381474809"), FLit("0.926972725286"), FLit("0.725539939514"), FLit("0.584635025748"), FLit("0.496936637883"), FLit("0.438694579826"), FLit("0.393021669543")>>,
      <<FLit("0.721500455585"), FLit("0.962064122248"), FLit("0.820534991409"), FLit("0.661776842059"), FLit("0.531064164893"), FLit("0.438694579826"), FLit("0.375820256136"), FLit("0.330555063063")>>,
      <<FLit("0.593906509971"), FLit("0.802254508198"), FLit("0.706020324706"), FLit("0.587716619023"), FLit("0.478717061273"), FLit("0.393021669543"), FLit("0.330555063063"), FLit("0.285345396658")>>>>
  >>

Row(n, s) == SubSeq(s, 8 * (n - 1) + 1, 8 * n)

(* a times c/2^k, rounded, in doubles (exactly) if it exceeds TLC's integers; and the halving of   *)
(* daala, which rounds towards zero.                                                              *)
Times(a, c, k) ==
    IF Iabs(a) < 65536 THEN (a * c + 2^(k-1)) \div (2^k)
    ELSE FFloor(FDiv(FAdd(FMul(a, c), 2^(k-1)), 2^k))
Half(a) == IF a < 0 THEN (a + 1) \div 2 ELSE a \div 2

(* One dimensional 8-point DCT (Loeffler lifting structure of daala) of x[1..8]. *)
Dct8(x) ==
    LET \* input butterflies
        a1 == x[1] - x[8]       h1 == Half(a1)        a0 == x[1] - h1
        a4 == x[2] + x[7]       h4 == Half(a4)        a5 == x[7] - h4
        a3 == x[3] - x[6]       a2 == x[3] - Half(a3)
        a6 == x[4] + x[5]       h6 == Half(a6)        a7 == h6 - x[5]
        \* even half: 4-point DCT
        b0 == a0 + h6           b6 == b0 - a6
        b2 == h4 - a2           b4 == b2 - a4
        c0 == b0 - Times(b4, 13573, 15)
        c4 == b4 + Times(c0, 11585, 14)
        d0 == c0 - Times(c4, 13573, 15)
        c6 == b6 - Times(b2, 21895, 15)
        c2 == b2 + Times(c6, 15137, 14)
        d6 == c6 - Times(c2, 21895, 15)
        \* odd half: 4-point DST
        b3 == a3 + Times(a5, 19195, 15)
        b5 == a5 + Times(b3, 11585, 14)
        c3 == b3 - Times(b5, 7489, 13)
        b7 == Half(b5) - a7
        c5 == b5 - b7
        d3 == h1 - c3
        d1 == a1 - d3
        c7 == b7 + Times(d1, 3227, 15)
        e1 == d1 - Times(c7, 6393, 15)
        d7 == c7 + Times(e1, 3227, 15)
        d5 == c5 + Times(d3, 2485, 13)
        e3 == d3 - Times(d5, 18205, 15)
        e5 == d5 + Times(e3, 2485, 13)
    IN <<d0, e1, c2, e3, c4, e5, d6, d7>>

(* Columns first, then rows.  T[i][j] is the coefficient of vertical frequency i, horizontal j. *)
Dct8x8(B) ==
    LET cols == Tab(8, LAMBDA j : Dct8(Tab(8, LAMBDA i : B[i][j])))
        rows == Tab(8, LAMBDA i : Dct8(Tab(8, LAMBDA j : cols[j][i])))
    IN rows

Flat(B) == Tab(64, LAMBDA k : B[((k - 1) \div 8) + 1][((k - 1) % 8) + 1])

(* n times the variance of the samples with the factor n/(n-1) of the original implementation *)
Spread(s) ==
    LET n == Len(s)
        mean == FDiv(FSum(s), n)
        d == Tab(n, LAMBDA i : FSub(s[i], mean))
    IN FDiv(FMul(FDot(d, d), n), n - 1)

Quadrant(B, qi, qj) == Tab(16, LAMBDA k : B[4 * qi + ((k - 1) \div 4) + 1][4 * qj + ((k - 1) % 4) + 1])

(* Masking threshold of a block with the DCT T *)
Masking(B, T, mask) ==
    LET g == Spread(Flat(B))
        q == FSum(<<Spread(Quadrant(B, 0, 0)), Spread(Quadrant(B, 0, 1)), Spread(Quadrant(B, 1, 0)), Spread(Quadrant(B, 1, 1))>>)
        ratio == IF FLt(0, g) THEN FDiv(q, g) ELSE FInt(0)
        t == Flat(T)
        energy == FSum(Tab(63, LAMBDA k : FMul(FMul(t[k + 1], t[k + 1]), mask[k + 1])))
    IN FDiv(FSqrt(FMul(energy, ratio)), 32)

Block(P, y, x) == Tab(8, LAMBDA i : SubSeq(P[y + i], x + 1, x + 8))

BlockError(P, Q, y, x, csf, mask) ==
    LET A == Block(P, y, x)
        B == Block(Q, y, x)
        S == Dct8x8(A)
        T == Dct8x8(B)
        thr == FMax(Masking(A, S, mask), Masking(B, T, mask))
        s == Flat(S)
        t == Flat(T)
        E(k) == LET e == Iabs(s[k] - t[k])
                    r == IF k = 1 THEN FInt(e) ELSE FMax(0, FSub(e, FDiv(thr, mask[k])))
                IN FMul(r, csf[k])
        v == Tab(64, E)
    IN FDot(v, v)

Supports(P) == P = <<>> \/ (Width(P) >= 8 /\ Height(P) >= 8)

HvsPlane(P, Q, plane, depth) ==
    IF P = <<>> THEN FInt(0)
    ELSE LET csf == Flat(Csf[plane])
             mask == Tab(64, LAMBDA k : FPow(FMul(csf[k], FLit("0.3885746225901003")), 2))
             ny == (Height(P) - 8) \div 7 + 1
             nx == (Width(P) - 8) \div 7 + 1
             sum == FSum(Tab(ny * nx, LAMBDA b :
                        BlockError(P, Q, 7 * ((b - 1) \div nx), 7 * ((b - 1) % nx), csf, mask)))
             max == MaxOf(depth)
         IN FDiv(FDiv(sum, 64 * ny * nx), FMul(max, max))

(* Decibels are -10*log10 of these *)
HvsOfFrames(frames, cs) ==
    LET n == Len(frames)
        c == FDiv(ChromaQuarters(cs), 4)
        S(p) == FDiv(FSum([i \in 1..n |-> frames[i][p]]), n)
    IN [y |-> S(1), u |-> S(2), v |-> S(3),
        avg |-> FMul(FAdd(1, FMul(2, c)), FAdd(S(1), FMul(c, FAdd(S(2), S(3)))))]
=============================================================================
