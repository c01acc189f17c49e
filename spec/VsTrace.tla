------------------------------- MODULE VsTrace -------------------------------
(* Checks what the VapourSynth decoder made of clips, given the very samples VapourSynth handed out. *)
EXTENDS Decoder, TLC, Json, IOUtils

VARIABLES tid, i,
          open       (* "no", "open", "refused" *)

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
S == T.scn

Far == 1000000000

(* Formats which frames can hold *)
Sampling == CASE S.family = "gray" -> "400"
              [] S.family = "yuv" /\ <<S.ssw, S.ssh>> = <<0, 0>> -> "444"
              [] S.family = "yuv" /\ <<S.ssw, S.ssh>> = <<1, 0>> -> "422"
              [] S.family = "yuv" /\ <<S.ssw, S.ssh>> = <<1, 1>> -> "420"
              [] OTHER -> "none"
Suitable == /\ S.exists /\ S.works /\ ~S.hidden
            /\ ~S.float /\ S.bits <= 16
            /\ S.vary = "no"
            /\ Sampling # "none"

(* Nothing comes behind a frame which VapourSynth cannot produce *)
Length(s) == IF s.bad >= 0 THEN s.bad ELSE s.n

TInit ==
    /\ tid \in DOMAIN Traces
    /\ i = 1
    /\ open = "no"
    /\ total = Length(Traces[tid].scn)
    /\ DInit

RECURSIVE Number(_)
Number(digits) == IF digits = <<>> THEN 0 ELSE 10 * Number(SubSeq(digits, 1, Len(digits) - 1)) + digits[Len(digits)] - 48

DetailsAre(d) ==
    /\ d.w = S.w /\ d.h = S.h
    /\ d.depth = S.bits /\ d.depth2 = S.bits
    /\ d.cs = Sampling
    /\ Number(d.num) = S.den /\ Number(d.den) = S.num

(* Monochrome frames have chroma planes without samples, or none *)
Is(planes, source) ==
    /\ Len(planes) >= Len(source)
    /\ \A p \in DOMAIN source : planes[p] = source[p]
    /\ \A p \in DOMAIN planes : p > Len(source) => planes[p] = <<>>

Event ==
    /\ i <= Len(T.ev)
    /\ i' = i + 1
    /\ LET e == T.ev[i] IN
       CASE e.op = "open" ->
              /\ Rule("C27", e.kind = IF Suitable THEN "ok" ELSE "err")
              /\ Rule("C27", e.kind = "ok" => T.count = S.n)
              /\ open' = IF e.kind = "ok" THEN "open" ELSE "refused"
              /\ UNCHANGED dvars
         [] e.op = "read" ->
              /\ open = "open"
              /\ Read
              /\ Rule("C27", e.kind = IF ReadDelivers THEN "some" ELSE "none")
              /\ Rule("C27", ReadDelivers => Is(e.planes, T.src[pos + 1]))
              /\ UNCHANGED open
         [] e.op = "specific" ->
              LET n == IF e.k < 0 THEN Far ELSE e.k IN
              /\ open = "open"
              /\ Specific(n)
              /\ Rule("C27", e.kind = IF SpecificDelivers(n) THEN "some" ELSE "none")
              /\ Rule("C27", SpecificDelivers(n) => Is(e.planes, T.src[pos + n + 1]))
              /\ UNCHANGED open
         [] e.op = "details" ->
              /\ open = "open"
              /\ Rule("C27", e.kind = "some" /\ DetailsAre(e.details))
              /\ UNCHANGED <<open, dvars>>
    (* in the end nothing of VapourSynth is held *)
    /\ i = Len(T.ev) => Rule("C27", T.held = <<0, 0, 0>>)

TNext == Event /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<dvars, open, tid, i>>

Progress == TLCSet(tid, i)
Verdict ==
    /\ PrintT(<<"@@STATS", Len(Traces), TLCGet("distinct"), TLCGet("generated")>>)
    /\ \A j \in DOMAIN Traces :
        TLCGet(j) = Len(Traces[j].ev) + 1 \/ PrintT("@@REJECTED " \o ToJson(<<j, TLCGet(j)>>))
=============================================================================
