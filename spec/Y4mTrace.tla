------------------------------ MODULE Y4mTrace ------------------------------
(* Checks what the y4m decoder made of files, whose very bytes are part of the traces, against     *)
(* Y4m.tla and Decoder.tla.                                                                      *)
EXTENDS Decoder, Y4m, F64, SequencesExt, Json, IOUtils

VARIABLES tid, i,
          video,     (* the contents of the file *)
          open       (* "no", "open", "refused" *)

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]

Far == 1000000000

TInit ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ video = Video(T.bytes)
    /\ total = Len(video.at)
    /\ open = "no"
    /\ DInit

(* Files which end properly are subject to C17, the others to C18 *)
RuleOfFile(condition) == Rule("C17", video.whole => condition) /\ Rule("C18", ~video.whole => condition)

(* The samples of a delivered frame.  Chroma which has been realigned concerns C19 as well. *)
Is(planes, frame) ==
    /\ RuleOfFile(planes = frame)
    /\ Rule("C21", planes = frame)
    /\ Rule("C19", video.hdr.siting = "vertical" => planes[2] = frame[2] /\ planes[3] = frame[3])
    /\ Rule("C20", Len(planes[1]) = video.hdr.h /\ \A y \in DOMAIN planes[1] : Len(planes[1][y]) = video.hdr.w)

Decimal(digits) == FoldLeft(LAMBDA s, b : s \o ToString(b - 48), "", digits)

DetailsAre(d) ==
    LET h == video.hdr IN
    /\ d.w = h.w /\ d.h = h.h
    /\ d.depth = h.depth /\ d.depth2 = h.depth
    /\ d.cs = h.cs
    /\ d.siting = h.siting
    /\ d.num = h.rate[2] /\ d.den = h.rate[1]
    /\ d.rate = <<d.den, d.num>>
    /\ LET q == FDiv(FLit(Decimal(d.num)), FLit(Decimal(d.den)))
       IN IF FIsNaN(q) THEN FIsNaN(d.seconds) ELSE FEq(d.seconds, q)

Event ==
    /\ i <= Len(T.ev)
    /\ i' = i + 1
    /\ LET e == T.ev[i] IN
       CASE e.op = "open" ->
              /\ RuleOfFile(e.kind = IF video.hdr.ok THEN "ok" ELSE "err")
              /\ open' = IF e.kind = "ok" THEN "open" ELSE "refused"
              /\ UNCHANGED <<video, dvars>>
         [] e.op = "read" ->
              /\ open = "open"
              /\ Read
              /\ RuleOfFile(e.kind = IF ReadDelivers THEN "some" ELSE "none")
              /\ ReadDelivers /\ e.kind = "some" => Is(e.planes, FrameOf(T.bytes, video, pos + 1))
              /\ UNCHANGED <<video, open>>
         [] e.op = "specific" ->
              LET k == IF e.k < 0 THEN Far ELSE e.k IN
              /\ open = "open"
              /\ Specific(k)
              /\ Rule("C21", e.kind = IF SpecificDelivers(k) THEN "some" ELSE "none")
              /\ SpecificDelivers(k) /\ e.kind = "some" => Is(e.planes, FrameOf(T.bytes, video, pos + k + 1))
              /\ UNCHANGED <<video, open>>
         [] e.op = "details" ->
              /\ open = "open"
              /\ Rule("C20", e.kind = "some")
              /\ e.kind = "some" => Rule("C20", DetailsAre(e.details))
              /\ UNCHANGED <<video, open, dvars>>

(* A trace which breaks off is not complete: the decoder panicked, or never answered *)
TNext == Event /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<dvars, video, open, tid, i>>

Progress == TLCSet(tid, i)
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces :
        TLCGet(j) = Len(Traces[j].ev) + 1 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
