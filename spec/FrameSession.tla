---------------------------- MODULE FrameSession ----------------------------
(* Two frames which are written, moved in memory, and measured again and again.  The state holds   *)
(* the contents of the frames, and what every metric said about the contents it has met: the      *)
(* properties say how a result has to relate to the earlier ones.                                 *)
(*                                                                                              *)
(* Contents are whatever identifies the visible samples of a plane (tokens here, hashes of the    *)
(* samples in FrameTrace.tla); a result is the sequence of its scores.                            *)
EXTENDS Integers, Sequences, FiniteSets, Score, Planes

CONSTANT Enforced

VARIABLES
  fmt,      (* [w, h, depth, cs] of both frames, constant *)
  content,  (* content[f][p] of frame f in 1..2 and plane p in 1..3 *)
  place,    (* <<layout of both frames, invisible samples of the first, of the second frame>> *)
  memo      (* [metric, contents, place, how it was called, result] of every measurement *)

svars == <<fmt, content, place, memo>>

Rule(p, condition) == (p \in Enforced => condition) = TRUE   (* a value: TLC would branch on disjunctions *)

Metrics == {"psnr", "ssim", "msssim", "psnrhvs", "ciede", "ciede_nosimd"}
Planar == {"psnr", "ssim", "msssim", "psnrhvs"}

PlaneWidth(f, p) == IF p = 1 THEN f.w ELSE ChromaWidth(f.cs, f.w)
PlaneHeight(f, p) == IF p = 1 THEN f.h ELSE ChromaHeight(f.cs, f.h)
AtLeast(f, n) == \A p \in 1..3 : (p = 1 \/ f.cs # "400") => PlaneWidth(f, p) >= n /\ PlaneHeight(f, p) >= n

Supported(m, f) ==
    CASE m = "msssim" -> AtLeast(f, 16)
      [] m = "psnrhvs" -> AtLeast(f, 8)
      [] m \in {"ciede", "ciede_nosimd"} -> f.cs # "400" /\ f.depth \in {8, 10, 12}
      [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Scores of the same contents.  CIEDE2000 is computed in single precision. *)
Same(m, r, s) ==
    /\ Len(r) = Len(s)
    /\ \A k \in DOMAIN r :
        CASE m = "psnr" -> NearScore(r[k], s[k])
          [] m \in {"ciede", "ciede_nosimd"} -> r[k] = s[k] \/ Near(r[k], s[k], FInt(0), FLit("1e-4"))
          [] OTHER -> NearDecibels(r[k], s[k])

SwappedSame(m, r, s) ==
    /\ Len(r) = Len(s)
    /\ \A k \in DOMAIN r :
        CASE m = "psnr" -> NearScore(r[k], s[k])
          [] m \in {"ciede", "ciede_nosimd"} -> r[k] = s[k] \/ Near(r[k], s[k], FInt(0), FLit("1e-3"))
          [] OTHER -> NearDecibels(r[k], s[k])

(* C15: no NaN, nothing better than perfect, and perfect for equal contents *)
Bounds(m, r) ==
    \A k \in DOMAIN r :
        /\ ~FIsNaN(r[k])
        /\ m \in {"psnr", "ciede", "ciede_nosimd"} => FLe(r[k], 100)
Perfect(m, r) ==
    \A k \in DOMAIN r :
        IF m \in {"psnr", "ciede", "ciede_nosimd"} THEN FEq(r[k], 100) ELSE FLe(100, r[k])
(* A plane whose contents are equal is perfect by itself *)
PerfectPlane(m, x) == IF m = "psnr" THEN FEq(x, 100) ELSE FLe(100, x)

(* C16: the average of the planes *)
Lin(db) == IF FIsInf(db) /\ FLt(0, db) THEN FInt(0) ELSE Linear(db)
Average(m, f, r) ==
    LET c == FDiv(ChromaQuarters(f.cs), 4)
        both == FAdd(Lin(r[1]), FMul(c, FAdd(Lin(r[2]), Lin(r[3]))))
        one == FAdd(1, FMul(2, c))
    IN CASE m \in {"ssim", "msssim"} -> NearLinear(r[4], FDiv(both, one))
         [] m = "psnrhvs" -> NearLinear(r[4], FMul(both, one))
         [] m = "psnr" ->
              (* Pooled: the mean of the errors of the planes by their samples *)
              LET n(p) == IF p > 1 /\ f.cs = "400" THEN 0 ELSE PlaneWidth(f, p) * PlaneHeight(f, p)
                  E(p) == IF FEq(r[p], 100) THEN FInt(0) ELSE FMul(n(p), Linear(r[p]))
                  all == FDiv(FAdd(E(1), FAdd(E(2), E(3))), n(1) + n(2) + n(3))
              IN \/ FEq(r[4], 100) /\ Near(all, 0, FInt(0), FLit("1.0001e-10"))
                 \/ Near(Linear(r[4]), all, FLit("1e-8"), FLit("1e-10"))
         [] OTHER -> TRUE

(* C26: the vectorised score, given the scalar one.  45 - 20*log10(mean difference). *)
Mean(score) == FPow(10, FDiv(FSub(45, score), 20))
Agree(a, b) == a = b \/ Near(Mean(a), Mean(b), FLit("1e-4"), FLit("1e-4"))

-----------------------------------------------------------------------------
Init ==
    /\ content \in [1..2 -> [1..3 -> Int]]
    /\ memo = {}

(* The visible samples of plane p of frame f change. *)
Fill(f, p, c) ==
    /\ content' = [content EXCEPT ![f][p] = c]
    /\ UNCHANGED <<fmt, place, memo>>

(* Samples of frame f which are not visible change, *)
Scribble(f, token) ==
    /\ place' = [place EXCEPT ![f + 1] = token]
    /\ UNCHANGED <<fmt, content, memo>>

(* or the frames get another common layout. *)
Relayout(token) ==
    /\ place' = <<token, token, token + 1>>
    /\ UNCHANGED <<fmt, content, memo>>

Swap ==
    /\ content' = <<content[2], content[1]>>
    /\ place' = <<place[1], place[3], place[2]>>
    /\ UNCHANGED <<fmt, memo>>

(* Relations of a new result to an earlier one.  `how` tells how the metric was called: for the    *)
(* two frames, or in some other way which must not make a difference (C25).                       *)
Related(m, how, r, e) ==
    LET here == e.place = place
        plain == how = "frame" /\ e.how = "frame"
        same == e.content = content
        swapped == e.content = <<content[2], content[1]>>
    IN
    /\ e.m = m /\ same /\ here => Rule("C25", Same(m, r, e.r))
    /\ e.m = m /\ same /\ ~here /\ plain => Rule("C14", Same(m, r, e.r))
    /\ e.m = m /\ swapped /\ plain /\ e.place = <<place[1], place[3], place[2]>> =>
        Rule("C15", SwappedSame(m, r, e.r))
    /\ e.m = m /\ m \in Planar /\ plain /\ here =>
        Rule("C16", \A p \in 1..3 :
            (e.content[1][p] = content[1][p] /\ e.content[2][p] = content[2][p])
                => IF m = "psnr" THEN NearScore(r[p], e.r[p]) ELSE NearDecibels(r[p], e.r[p]))
    /\ {e.m, m} = {"ciede", "ciede_nosimd"} /\ same /\ here =>
        Rule("C26", Agree(r[1], e.r[1]))

(* Metric m is asked about frames which do not match: planes of different sizes, or samples of a   *)
(* type which does not fit the bit depth.  `o` tells how it ended.                               *)
Mismatch(m, o) ==
    /\ Rule("C06", o = "err")
    /\ UNCHANGED svars

(* Metric m is asked about frames which match and which it cannot measure. *)
Unmeasurable(m, o) ==
    /\ ~Supported(m, fmt)
    /\ Rule("C07", o = "err")
    /\ UNCHANGED svars

(* Metric m gives the result r of the frames. *)
Measure(m, how, r) ==
    /\ Rule("C15", Bounds(m, r))
    /\ Rule("C15", content[1] = content[2] => Perfect(m, r))
    /\ Rule("C16", m \in Planar => Average(m, fmt, r))
    /\ Rule("C16", m \in Planar => \A p \in 1..3 : content[1][p] = content[2][p] => PerfectPlane(m, r[p]))
    /\ \A e \in memo : Related(m, how, r, e)
    /\ memo' = memo \cup {[m |-> m, content |-> content, place |-> place, how |-> how, r |-> r]}
    /\ UNCHANGED <<fmt, content, place>>
=============================================================================
