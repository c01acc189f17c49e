---------------------------- MODULE FfDamageTrace ----------------------------
(* Checks what the ffmpeg decoder made of damaged, changing or unsupported files, given the        *)
(* pictures which libavcodec gets out of the very file.                                         *)
EXTENDS Decoder, Chroma, TLC, Json, IOUtils

VARIABLES tid, i,
          open       (* "no", "open", "refused" *)

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
P == T.probe

Formats == [yuv420p |-> <<"420", 8>>, yuv422p |-> <<"422", 8>>, yuv444p |-> <<"444", 8>>,
            yuvj420p |-> <<"420", 8>>, yuvj422p |-> <<"422", 8>>, yuvj444p |-> <<"444", 8>>,
            yuv420p10le |-> <<"420", 10>>, yuv422p10le |-> <<"422", 10>>, yuv444p10le |-> <<"444", 10>>,
            yuv420p12le |-> <<"420", 12>>, yuv422p12le |-> <<"422", 12>>, yuv444p12le |-> <<"444", 12>>]
Vertical == {"yuv422p", "yuv422p10le", "yuv422p12le"}
PositionOf(fmt) == IF fmt \in Vertical THEN "vertical" ELSE "colocated"

Suitable(p) == p.ok /\ p.fmt \in DOMAIN Formats

(* Frames have the bit depth of the video: there is no way to deliver a picture of another one *)
Representable(p, j) == p.frames[j].fmt \in DOMAIN Formats /\ Formats[p.frames[j].fmt][2] = Formats[p.fmt][2]
Deliverable(p) ==
    IF ~Suitable(p) THEN 0
    ELSE IF \A j \in DOMAIN p.frames : Representable(p, j) THEN Len(p.frames)
    ELSE (CHOOSE j \in DOMAIN p.frames : ~Representable(p, j) /\ \A m \in 1..(j - 1) : Representable(p, m)) - 1

TInit ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ open = "no"
    /\ total = Deliverable(Traces[tid].probe)
    /\ DInit

(* A picture of another size than the first is delivered with its own size, never with samples     *)
(* which are not its own.  Parts of a picture which could not be decoded hold anything.          *)
Is(planes, f) ==
    LET pos2 == PositionOf(f.fmt) IN
    IF ~f.sure THEN Len(planes) = 3 /\ \A p \in 1..3 : Len(planes[p]) = Len(f.planes[p]) /\ \A y \in DOMAIN planes[p] : Len(planes[p][y]) = Len(f.planes[p][y])
    ELSE planes = <<f.planes[1], Converted(f.planes[2], pos2, Formats[f.fmt][2]), Converted(f.planes[3], pos2, Formats[f.fmt][2])>>

DetailsAre(d) ==
    /\ d.w = P.w /\ d.h = P.h
    /\ d.depth = Formats[P.fmt][2] /\ d.depth2 = d.depth /\ d.cs = Formats[P.fmt][1]

Event ==
    /\ i <= Len(T.ev)
    /\ i' = i + 1
    /\ LET e == T.ev[i] IN
       CASE e.op = "open" ->
              /\ Rule("C28", e.kind = IF Suitable(P) THEN "ok" ELSE "err")
              /\ open' = IF e.kind = "ok" THEN "open" ELSE "refused"
              /\ UNCHANGED dvars
         [] e.op = "read" ->
              /\ open = "open"
              /\ Read
              /\ Rule("C28", IF ReadDelivers THEN e.kind = "some"
                             ELSE IF total < Len(P.frames) THEN e.kind \in {"none", "panic"} ELSE e.kind = "none")
              /\ Rule("C28", ReadDelivers => Is(e.planes, P.frames[pos + 1]))
              /\ UNCHANGED open
         [] e.op = "details" ->
              /\ open = "open"
              /\ Rule("C28", e.kind = "some" /\ DetailsAre(e.details))
              /\ UNCHANGED <<open, dvars>>

TNext == Event /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<dvars, open, tid, i>>

Progress == TLCSet(tid, i)
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces :
        TLCGet(j) = Len(Traces[j].ev) + 1 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
