--------------------------------- MODULE Y4m ---------------------------------
(* The y4m format as bytes: the stream header, the frames, and what is malformed. *)
EXTENDS Integers, Sequences, TLC, Text, Planes, Chroma

HeaderSpace == 1024        (* bytes a header may have, its end included *)
NewLine == 10

Format(cs, siting, depth) == [cs |-> cs, siting |-> siting, depth |-> depth]
Formats ==
    Bytes("mono")     :> Format("400", "unknown", 8)      @@ Bytes("mono12")  :> Format("400", "unknown", 12) @@
    Bytes("420")      :> Format("420", "colocated", 8)    @@ Bytes("420p10")  :> Format("420", "colocated", 10) @@
    Bytes("420p12")   :> Format("420", "colocated", 12)   @@ Bytes("420jpeg") :> Format("420", "bilateral", 8) @@
    Bytes("420paldv") :> Format("420", "interpolated", 8) @@ Bytes("420mpeg2") :> Format("420", "vertical", 8) @@
    Bytes("422")      :> Format("422", "vertical", 8)     @@ Bytes("422p10")  :> Format("422", "vertical", 10) @@
    Bytes("422p12")   :> Format("422", "vertical", 12)    @@ Bytes("444")     :> Format("444", "colocated", 8) @@
    Bytes("444p10")   :> Format("444", "colocated", 10)   @@ Bytes("444p12")  :> Format("444", "colocated", 12)

Magic == Bytes("YUV4MPEG2 ")
FrameMagic == Bytes("FRAME")

-----------------------------------------------------------------------------
(* The header *)
Malformed == [ok |-> FALSE]

IsRatio(v) ==
    LET k == Find(v, 58, 1, Len(v) + 1)    (* the colon *)
    IN k > 0 /\ IsNumber(SubSeq(v, 1, k - 1)) /\ IsNumber(SubSeq(v, k + 1, Len(v)))
RatioOf(v) ==
    LET k == Find(v, 58, 1, Len(v) + 1)
    IN <<Digits(SubSeq(v, 1, k - 1)), Digits(SubSeq(v, k + 1, Len(v)))>>

(* A parameter is fine if its value is; those of other names are ignored *)
ParameterFine(p) ==
    LET v == Tail(p) IN
    CASE p = <<>> -> TRUE
      [] p # <<>> /\ p[1] \in {87, 72} -> IsNumber(v)           (* W, H *)
      [] p # <<>> /\ p[1] \in {70, 65} -> IsRatio(v)            (* F, A *)
      [] p # <<>> /\ p[1] = 67 -> v \in DOMAIN Formats           (* C *)
      [] OTHER -> TRUE

(* The value of the last parameter of a name, or the default *)
RECURSIVE LastOf(_, _, _)
LastOf(ps, name, default) ==
    IF ps = <<>> THEN default
    ELSE LET p == ps[Len(ps)] IN
         IF p # <<>> /\ p[1] = name THEN Tail(p) ELSE LastOf(SubSeq(ps, 1, Len(ps) - 1), name, default)

(* Frames of more than a GiB are refused.  Sizes between 10^8 samples and a GiB do not occur in the *)
(* traces, nor do sizes whose product does not fit into 64 bits.                                 *)
Fits(w, h) == Len(w) <= 5 /\ Len(h) <= 5 /\ Value(w) <= 70000 /\ Value(h) <= 30000 /\ Value(w) * Value(h) <= 100000000

Header(bytes) ==
    LET end == Find(bytes, NewLine, 1, HeaderSpace + 1)
        ps == Split(SubSeq(bytes, Len(Magic) + 1, end - 1), 32)
    IN IF end = 0 \/ end <= Len(Magic) \/ ~StartsWith(bytes, Magic) THEN Malformed
       ELSE IF \E i \in DOMAIN ps : ~ParameterFine(ps[i]) THEN Malformed
       ELSE LET w == Digits(LastOf(ps, 87, <<48>>))
                h == Digits(LastOf(ps, 72, <<48>>))
                c == Formats[LastOf(ps, 67, Bytes("420"))]
                rate == RatioOf(LastOf(ps, 70, Bytes("25:1")))
            IN IF w = <<48>> \/ h = <<48>> \/ ~Fits(w, h) THEN Malformed
               ELSE [ok |-> TRUE, w |-> Value(w), h |-> Value(h), cs |-> c.cs, siting |-> c.siting, depth |-> c.depth,
                     rate |-> rate, first |-> end + 1]

-----------------------------------------------------------------------------
(* Frames *)
Wide(hdr) == IF hdr.depth > 8 THEN 2 ELSE 1
PlaneW(hdr, p) == IF p = 1 THEN hdr.w ELSE ChromaWidth(hdr.cs, hdr.w)
PlaneH(hdr, p) == IF p = 1 THEN hdr.h ELSE ChromaHeight(hdr.cs, hdr.h)
PlaneBytes(hdr, p) == PlaneW(hdr, p) * PlaneH(hdr, p) * Wide(hdr)
FrameBytes(hdr) == PlaneBytes(hdr, 1) + PlaneBytes(hdr, 2) + PlaneBytes(hdr, 3)

(* Samples of more than one byte come with the lower byte first *)
SampleAt(bytes, hdr, k) == IF Wide(hdr) = 2 THEN bytes[k] + 256 * bytes[k + 1] ELSE bytes[k]

RawPlane(bytes, hdr, from, p) ==
    IF PlaneBytes(hdr, p) = 0 THEN <<>>
    ELSE [y \in 1..PlaneH(hdr, p) |->
            [x \in 1..PlaneW(hdr, p) |->
                SampleAt(bytes, hdr, from + ((y - 1) * PlaneW(hdr, p) + x - 1) * Wide(hdr))]]

DecodedPlane(bytes, hdr, from, p) ==
    LET raw == TLCEval(RawPlane(bytes, hdr, from, p)) IN
    IF p = 1 THEN raw ELSE Converted(raw, hdr.siting, hdr.depth)

(* The end of the frame header at `from`: where the samples begin, or 0 if there is none *)
SamplesFrom(bytes, from) ==
    LET end == Find(bytes, NewLine, from, from + HeaderSpace) IN
    IF end = 0 \/ end < from + Len(FrameMagic) THEN 0
    ELSE LET line == SubSeq(bytes, from, end - 1) IN
         IF StartsWith(line, FrameMagic) /\ (Len(line) > Len(FrameMagic) => line[Len(FrameMagic) + 1] = 32)
         THEN end + 1 ELSE 0

(* The positions of the samples of all whole frames from `from` on, up to the first position where *)
(* there is none                                                                                 *)
(* (of at most 2^d frames: halved, since a recursion per frame would be too deep)              *)
RECURSIVE FramesFrom(_, _, _, _)
FramesFrom(bytes, hdr, from, d) ==
    IF d = 0
    THEN LET s == SamplesFrom(bytes, from) IN
         IF s = 0 \/ s + FrameBytes(hdr) - 1 > Len(bytes) THEN [at |-> <<>>, end |-> from, more |-> FALSE]
         ELSE [at |-> <<s>>, end |-> s + FrameBytes(hdr), more |-> TRUE]
    ELSE LET a == FramesFrom(bytes, hdr, from, d - 1) IN
         IF ~a.more THEN a
         ELSE LET b == FramesFrom(bytes, hdr, a.end, d - 1) IN
              [at |-> a.at \o b.at, end |-> b.end, more |-> b.more]

(* The video in a file: its header, its frames, and whether nothing else follows *)
Video(bytes) ==
    LET hdr == Header(bytes) IN
    IF ~hdr.ok THEN [hdr |-> hdr, at |-> <<>>, whole |-> FALSE]
    ELSE LET f == FramesFrom(bytes, hdr, hdr.first, 20) IN [hdr |-> hdr, at |-> f.at, whole |-> f.end = Len(bytes) + 1]

FrameOf(bytes, video, k) ==
    [p \in 1..3 |-> DecodedPlane(bytes, video.hdr,
        video.at[k] + (IF p > 1 THEN PlaneBytes(video.hdr, 1) ELSE 0) + (IF p > 2 THEN PlaneBytes(video.hdr, 2) ELSE 0), p)]
=============================================================================
