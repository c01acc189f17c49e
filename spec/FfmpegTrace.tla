----------------------------- MODULE FfmpegTrace -----------------------------
(* Checks what the ffmpeg decoder made of videos, given the pictures which were encoded into them. *)
EXTENDS Decoder, Chroma, Psnr, Json, IOUtils

VARIABLES tid, i,
          stream     (* the video stream which is decoded *)

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
S == T.scn
Source == T.src[stream]      (* the frames of that stream *)

Far == 1000000000

TInit ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ stream \in DOMAIN Traces[tid].src
    /\ total = S.n
    /\ DInit

Shape(planes, w, h) ==
    /\ Len(planes) = 3
    /\ Height(planes[1]) = h /\ Width(planes[1]) = w
    /\ \A p \in 2..3 : Height(planes[p]) = ChromaHeight(S.cs, h) /\ Width(planes[p]) = ChromaWidth(S.cs, w)

Position == IF S.fmt \in {"yuv422p", "yuv422p10le", "yuv422p12le"} THEN "vertical" ELSE "colocated"
Wanted(j) == <<Source[j][1], Converted(Source[j][2], Position, S.depth), Converted(Source[j][3], Position, S.depth)>>

Lossless == S.lossless \/ stream = 2
Distance(planes, j) == FSum([p \in 1..3 |-> SquaredError(planes[p], Source[j][p])])

(* The delivered frame is the j-th of the video.  Frames of a lossy codec are told by their         *)
(* likeness, among those which are near.                                                        *)
Is(planes, j) ==
    /\ Shape(planes, Width(Source[j][1]), Height(Source[j][1]))
    /\ IF Lossless THEN planes = Wanted(j)
       ELSE LET d == Distance(planes, j) IN \A m \in ((DOMAIN Source) \cap ((j - 30)..(j + 30))) \ {j} : FLt(FMul(4, d), Distance(planes, m))

Digits(s) == IF s = <<>> THEN 0 ELSE LET D[m \in 0..Len(s)] == IF m = 0 THEN 0 ELSE 10 * D[m - 1] + s[m] - 48 IN D[Len(s)]

(* Which stream is decoded is free, but it stays the same; streams differ in size *)
DetailsAre(d) ==
    /\ d.w = Width(Source[1][1]) /\ d.h = Height(Source[1][1])
    /\ d.depth = S.depth /\ d.depth2 = S.depth
    /\ d.cs = S.cs
    /\ S.fmt # "yuvj422p" => d.siting = Position
    (* the time base is the inverse of the frame rate, where the container states that exactly *)
    /\ S.ext \in {"avi", "nut", "y4m", "mov", "mp4"} /\ S.n > 1 => Digits(d.num) * S.num = Digits(d.den) * S.den

Event ==
    /\ i <= Len(T.ev)
    /\ i' = i + 1
    /\ LET e == T.ev[i] IN
       CASE e.op = "open" ->
              /\ Rule("C22", e.kind = "ok")
              /\ UNCHANGED dvars
         [] e.op = "read" ->
              /\ Read
              /\ Rule("C22", e.kind = IF ReadDelivers THEN "some" ELSE "none")
              /\ ReadDelivers /\ e.kind = "some" => Rule("C22", Is(e.planes, pos + 1)) /\ Rule("C21", Is(e.planes, pos + 1))
         [] e.op = "specific" ->
              LET n == IF e.k < 0 THEN Far ELSE e.k IN
              /\ Specific(n)
              /\ Rule("C21", e.kind = IF SpecificDelivers(n) THEN "some" ELSE "none")
              /\ SpecificDelivers(n) /\ e.kind = "some"
                 => Rule("C21", Is(e.planes, pos + n + 1)) /\ Rule("C22", Is(e.planes, pos + n + 1))
         [] e.op = "details" ->
              /\ e.kind = "some"
              /\ Rule("C20", DetailsAre(e.details))
              /\ UNCHANGED dvars
    /\ UNCHANGED stream

TNext == Event /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<dvars, stream, tid, i>>

(* One of the streams explains it all *)
Progress == IF i = 1 THEN TLCSet(tid, 1) ELSE TLCSet(tid, Imax(i, TLCGet(tid)))
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces :
        TLCGet(j) = Len(Traces[j].ev) + 1 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
