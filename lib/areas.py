"""What each check does."""
import json

import tool as runs
from common import Broken

ALL_PIPE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]
TRUSTED = ("TLC and its community modules, the interpretation of doubles in spec/java/AvmOverrides.java, "
           "and the recording of traces in the harness are trusted.")
CHECKS = {}


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


# ------------------------------------------------------------------------ comparisons (C01 - C08)
def pipeline_cfg(n, threads, fails, rx="FALSE", unbounded="FALSE"):
    return f"""CONSTANTS
  MaxN = {n}
  Limits <- SomeLimits
  Threads = {threads}
  MaxFail = {fails}
  Panics <- SomePanics
  RxHeld = {rx}
  Unbounded = {unbounded}
SPECIFICATION Spec
INVARIANTS LimitKept AnnouncedAfterDecoding NeverPartial MismatchFirst Bounded Paired Tight
PROPERTIES Implements Returns
"""


def pipe_crash(s):
    """The process died (an abort or an exhausted stack), which is how this comparison ended"""
    scn = dict(s, pair=1)
    if scn["t"] == 0:
        scn["t"] = 8
    return {"id": s["id"], "scn": scn, "vals": [], "pf": [],
            "out": {"kind": "crash", "class": "crash", "score": []},
            "ev": [{"ev": "return", "d": 0, "some": False, "k": 0, "live": 0, "kib": 0}]}


def pipe_describe(t, at):
    s = t["scn"]
    e = t["ev"][at] if at < len(t["ev"]) else None
    return (f"{s['m']} of clips of {s['n']} frames {s['w']}x{s['h']} {s['cs']} {s['depth']} bit, limit {s['limit']}, "
            f"{s['t']} threads, failing pairs {s['fail'][:5]} ({s['fk']}), differ {s['differ']}, panic {s['pan']}: "
            f"event {at + 1} {json.dumps(e)} is not allowed; outcome {t['out']['kind']} {t['out'].get('class')}")


@check(*ALL_PIPE)
def pipe(c):
    # The algorithm implements what may be observed, for every small scenario and every schedule
    if c.prop in ("C01", "C04"):
        # The model sees the defects which the property is about
        c.model("Pipeline", pipeline_cfg(4 if c.prop == "C04" else 3, "{1}" if c.prop == "C04" else "{1, 2}", 1, rx="TRUE" if c.prop == "C01" else "FALSE",
                                         unbounded="TRUE" if c.prop == "C04" else "FALSE"),
                expect_violation="Deadlock reached" if c.prop == "C01" else "Tight is violated")
    if c.thorough:
        c.model("Pipeline", pipeline_cfg(5, "{1, 2, 3}", 2))
    else:
        c.model("Pipeline", pipeline_cfg(3, "{1, 2}", 1))
    exe = c.cargo("harness", "avm-harness")

    def gen(profile, count, tag, seed=0):
        return c.generate("CompareGen", f'CONSTANTS Profile = "{profile}"\n Count = {count}\nSPECIFICATION Spec\n',
                          count + 3, tag=tag, seed=seed)
    scen = []
    if c.prop != "C04":
        # Every scenario of the model (a part of them in the quick tier), on the real code
        scen += gen("design", 1 if c.thorough else 0, "-design")
    if c.prop != "C08" or c.thorough:
        n = {"C04": (40, 200)}.get(c.prop, (1500, 8000))
        scen += gen(c.prop, c.scale(*n), "-random")
    if c.prop == "C08":
        scen += gen("C08", 1200, "-random8")
    for k, s in enumerate(scen):
        s["id"] = k
    traces = c.record(exe, "pipe", scen, timeout=700 if c.thorough else 300, crashed=pipe_crash)
    cfg = (f'CONSTANTS\n Scenarios <- AnyScenario\n Enforced = {{"{c.prop}"}}\nSPECIFICATION TSpec\n'
           "CONSTRAINT Progress\nPOSTCONDITION Verdict\n")
    c.validate("CompareTrace", cfg, traces, describe=pipe_describe)
    for t in traces:
        s = t["scn"]
        c.nontrivial.add(json.dumps([s["n"], s["limit"], s["fail"], s["t"], s["pan"], s["differ"], s["m"], s["cs"], s["depth"]]))
    if c.prop in ("C06", "C07"):
        for t in sessions(c, c.scale(2000, 12000), tag="-frames"):
            c.nontrivial.add(json.dumps([t["scn"], [e.get("kind") for e in t["ev"]]]))
    c.rule = ("Scenarios are all of the model Pipeline.tla (a part in the quick tier) and random ones of CompareGen.tla "
              "with profile " + c.prop + "; distinct by lengths, limit, failing pairs, threads, panic, format and metric."
              + (" Sessions of two frames (FrameGen.tla) with mismatches or formats which a metric does not support."
                 if c.prop in ("C06", "C07") else ""))
    for t in traces[:1] + traces[-2:]:
        c.sample({"scenario": t["scn"], "events": [[e["ev"], e["d"], e["k"], e["live"]] for e in t["ev"]][:40], "outcome": t["out"]})
    c.notes["longest_trace"] = max(len(t["ev"]) for t in traces)
    c.notes["most_memory_in_pairs_per_thread"] = max([e["kib"] / t["scn"]["pair"] / t["scn"]["t"] for t in traces for e in t["ev"]] + [0])
    c.notes["most_frames_alive"] = max([e["live"] for t in traces for e in t["ev"]] + [0])
    c.assumptions = [TRUSTED, "A comparison which does not return within 30 s never returns.",
                     "Frames are counted by the allocations of their luma planes."]


# ------------------------------------------------------------------------ frames (C09 - C16, C25, C26)
FRAME_COUNTS = {  # behaviours' lengths (quick, thorough)
    "C09": (6000, 30000), "C10": (2500, 12000), "C11": (1800, 9000), "C12": (3000, 16000), "C13": (3000, 15000),
    "C14": (12000, 40000), "C15": (12000, 40000), "C16": (12000, 40000), "C25": (4000, 20000), "C26": (9000, 40000),
}


FRAME_KINDS = {  # what the sessions have to contain
    "C06": ["mismatch"], "C07": ["measure refused"], "C14": ["scribble", "relayout"], "C15": ["swap"],
    "C25": ["measure pool", "measure noise", "measure storm", "measure crowd", "measure video", "measure fresh"],
}


def frame_describe(t, at):
    s = t["scn"]
    e = dict(t["ev"][at]) if at < len(t["ev"]) else {}
    e.pop("samples", None)
    return (f"two frames {s['w']}x{s['h']} {s['cs']} {s['depth']} bit, layout {s['layout']}: event {at + 1} of "
            f"{[x['op'] + ':' + x.get('m', x.get('kind', '')) for x in t['ev']]} is not allowed: {json.dumps(e)[:700]}")


def frame_crash(s):
    """The process died: the last measurement has no score"""
    ev = [{"op": "measure", "m": o["m"], "via": o["via"], "content": [[0, 0, 0], [0, 0, 0]], "whole": [[0, 0, 0], [0, 0, 0]],
           "samples": [], "results": [{"kind": "crash", "score": [], "class": "crash"}]}
          for o in s["ops"] if o["op"] == "measure"][:1]
    scn = {k: v for k, v in s.items() if k != "ops"}
    return {"id": s["id"], "scn": scn, "ev": ev}


def sessions(c, total, tag=""):
    """Sessions with two frames, recorded and checked"""
    exe = c.cargo("harness", "avm-harness")
    big = "TRUE" if c.thorough else "FALSE"
    scen = c.generate("FrameGen", f'CONSTANTS Profile = "{c.prop}"\n Big = {big}\nSPECIFICATION Spec\n', total, tag=tag)
    for k, s in enumerate(scen):
        s["id"] = k
    traces = c.record(exe, "frames", scen, timeout=700 if c.thorough else 300, crashed=frame_crash, tag=tag)
    cfg = (f'CONSTANT Enforced = {{"{c.prop}"}}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n')
    c.validate("FrameTrace", cfg, traces, describe=frame_describe, timeout=3000 if c.thorough else 800)
    kinds = {}
    for t in traces:
        for e in t["ev"]:
            kind = "measure " + e["via"] if e["op"] == "measure" else e["op"]
            kinds[kind] = kinds.get(kind, 0) + 1
            if e["op"] == "measure" and e["results"][0]["kind"] == "err":
                kinds["measure refused"] = kinds.get("measure refused", 0) + 1
    c.notes["session_events_by_kind"] = kinds
    missing = [k for k in FRAME_KINDS.get(c.prop, []) + ["fill", "measure frame"] if kinds.get(k, 0) < 10]
    if missing and not c.violations:
        raise Broken(f"the sessions hardly contain {missing}: {kinds}")
    return traces


@check(*FRAME_COUNTS)
def frames(c):
    traces = sessions(c, c.scale(*FRAME_COUNTS[c.prop]))
    n = 0
    for t in traces:
        for e in t["ev"]:
            if e["op"] == "measure":
                n += len(e["results"])
                if e["content"][0] != e["content"][1]:
                    c.nontrivial.add(json.dumps([e["content"], e["m"], e["via"], e["whole"]]))
    c.evaluations = n
    c.rule = ("Sessions of FrameGen.tla with profile " + c.prop + ": evaluations are measurements, distinct by metric, way of "
              "calling and contents (visible and not) of the two frames, non-trivial if these differ.")
    for t in traces[:2]:
        c.sample({"scenario": t["scn"],
                  "events": [{k: v for k, v in e.items() if k in ("op", "m", "f", "p", "kind", "via", "results")} for e in t["ev"]][:20]})
    c.assumptions = [TRUSTED, "Samples within the range of the bit depth, bit depths 8 to 16, and one layout for both frames."]


# ------------------------------------------------------------------------ y4m (C17, C18, C20, C21, and C19 with them)
Y4M_COUNTS = {"C17": (700, 5000), "C18": (900, 6000), "C19": (250, 2000), "C20": (700, 5000), "C21": (700, 5000)}


def y4m_describe(t, at):
    s = t["scn"]
    e = dict(t["ev"][at]) if at < len(t["ev"]) else {}
    e.pop("planes", None)
    return (f"y4m file of {len(t['bytes'])} bytes, header {s['header']!r}, {s['n']} frames, bad header of frame {s['badat']}, "
            f"tail {s['tail']!r}, read from a {s['via']} in chunks of {s['chunk']}: call {at + 1} of "
            f"{[o['op'] + ':' + str(o['k']) for o in s['ops']]} is not allowed: {json.dumps(e)}")


def y4m_crash(s):
    return {"id": s["id"], "scn": s, "bytes": [], "ev": [{"op": "open", "kind": "crash"}]}


def y4m(c):
    exe = c.cargo("harness", "avm-harness")

    def gen(profile, count, tag):
        return c.generate("Y4mGen", f'CONSTANTS Profile = "{profile}"\n Count = {count}\nSPECIFICATION Spec\n', count + 3, tag=tag)
    scen = gen(c.prop, c.scale(*Y4M_COUNTS[c.prop]), "-y4m")
    if c.prop == "C18":
        scen += gen("cuts", c.scale(14, 140), "-cuts")
    for k, s in enumerate(scen):
        s["id"] = k
    traces = c.record(exe, "y4m", scen, timeout=700 if c.thorough else 300, crashed=y4m_crash, tag="-y4m")
    cfg = f'CONSTANT Enforced = {{"{c.prop}"}}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n'
    c.validate("Y4mTrace", cfg, traces, describe=y4m_describe)
    for t in traces:
        c.nontrivial.add(json.dumps([t["bytes"], t["scn"]["ops"], t["scn"]["via"], t["scn"]["chunk"]]))
    c.evaluations += sum(len(t["ev"]) for t in traces) - len(traces)
    c.rule = ("Files and calls of Y4mGen.tla with profile " + c.prop + "; evaluations are calls of the decoder, distinct by the "
              "bytes of the file, the calls, and how the bytes arrive.")
    c.notes["frames_delivered"] = sum(1 for t in traces for e in t["ev"] if e["kind"] == "some" and "planes" in e)
    for t in traces[:2]:
        c.sample({"header": t["scn"]["header"], "bytes": len(t["bytes"]), "via": t["scn"]["via"],
                  "calls": [[e["op"], e.get("k"), e["kind"]] for e in t["ev"]]})
    c.assumptions = [TRUSTED, "The y4m crate parses numbers of less than 20 digits; no sizes whose product overflows."]


# ------------------------------------------------------------------------ ffmpeg (C22, C20 and C21 with it)
FFMPEG_COUNTS = {"C22": (260, 2500), "C20": (60, 500), "C21": (80, 700)}


def ffmpeg_describe(t, at):
    s = t["scn"]
    e = dict(t["ev"][at]) if at < len(t["ev"]) else {}
    e.pop("planes", None)
    return (f"{s['codec']} in {s['ext']}, {s['fmt']} {s['w']}x{s['h']}, {s['n']} frames, {s['bframes']} B-frames, audio {s['audio']}, "
            f"second video {s['w2']}x{s['h2']}: call {at + 1} of {[o['op'] + ':' + str(o['k']) for o in s['ops']]} "
            f"is not allowed: {json.dumps(e)}")


def ffmpeg_crash(s):
    return {"id": s["id"], "scn": s, "src": [[]], "ev": [{"op": "open", "kind": "crash"}], "reordered": 0, "skipped": False}


def ffmpeg(c):
    exe = c.cargo("ffharness", "avm-ffharness")
    n = c.scale(*FFMPEG_COUNTS[c.prop])
    scen = c.generate("FfmpegGen", f'CONSTANTS Profile = "{c.prop}"\n Count = {n}\nSPECIFICATION Spec\n', n + 3, tag="-ffmpeg")
    for k, s in enumerate(scen):
        s["id"] = k
    traces = c.record(exe, "ffmpeg", scen, timeout=3000 if c.thorough else 400, crashed=ffmpeg_crash, tag="-ffmpeg",
                      env={"AVM_FFGEN": c.ffgen()})
    skipped = [t for t in traces if t["skipped"]]
    traces = [t for t in traces if not t["skipped"]]
    if len(skipped) * 8 > len(scen):
        raise Broken(f"{len(skipped)} of {len(scen)} videos could not be encoded: "
                     + str(sorted({(t['scn']['codec'], t['scn']['ext'], t['scn']['fmt']) for t in skipped})[:20]))
    cfg = f'CONSTANT Enforced = {{"{c.prop}"}}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n'
    c.validate("FfmpegTrace", cfg, traces, describe=ffmpeg_describe)
    for t in traces:
        s = t["scn"]
        c.nontrivial.add(json.dumps([s[x] for x in ("codec", "ext", "fmt", "w", "h", "n", "bframes", "audio", "w2", "ops", "seed")]))
    c.evaluations += sum(len(t["ev"]) for t in traces) - len(traces)
    c.notes["ffmpeg_videos"] = len(traces)
    c.notes["ffmpeg_videos_skipped"] = len(skipped)
    c.notes["ffmpeg_videos_with_reordered_packets"] = sum(1 for t in traces if t["reordered"])
    c.notes["ffmpeg_formats"] = sorted({f"{t['scn']['codec']}/{t['scn']['ext']}" for t in traces})
    for t in traces[:2]:
        c.sample({"scenario": t["scn"], "calls": [[e["op"], e.get("k"), e["kind"]] for e in t["ev"]]}, n=5)


@check("C22")
def only_ffmpeg(c):
    ffmpeg(c)
    c.rule = ("Videos of FfmpegGen.tla, encoded with the libraries of ffmpeg: distinct by codec, container, format, size, length, "
              "B-frames, other streams, and calls; evaluations are calls of the decoder.")
    c.assumptions = [TRUSTED, "ffgen's encoders, ffmpeg's demuxers and decoders; frames of lossy codecs are identified by their "
                     "likeness to the encoded ones."]


def damage_describe(t, at):
    s = t["scn"]
    e = dict(t["ev"][at]) if at < len(t["ev"]) else {}
    e.pop("planes", None)
    parts = [f"{q['codec']} {q['fmt']} {q['w']}x{q['h']} {q['n']} frames" for q in s["parts"]]
    p = t["probe"]
    return (f"{s['kind']} file .{s['ext']}: {parts}, damage {json.dumps(s['damage'])}; libavcodec gets {p['fmt']} {p['w']}x{p['h']} and "
            f"{[(f['fmt'], f['w'], f['h']) for f in p['frames']]}: call {at + 1} is not allowed: {json.dumps(e)}")


def damage_crash(s):
    return {"id": s["id"], "scn": s, "probe": {"ok": False, "w": 0, "h": 0, "fmt": "", "frames": []},
            "ev": [{"op": "open", "kind": "crash"}], "skipped": False}


@check("C28")
def damage(c):
    exe = c.cargo("ffharness", "avm-ffharness")
    n = c.scale(900, 8000)
    scen = c.generate("FfDamageGen", f'CONSTANTS Profile = "C28"\n Count = {n}\nSPECIFICATION DSpec\n', n + 3)
    traces = c.record(exe, "damage", scen, timeout=3000 if c.thorough else 400, crashed=damage_crash, env={"AVM_FFGEN": c.ffgen()})
    skipped = sum(t["skipped"] for t in traces)
    traces = [t for t in traces if not t["skipped"]]
    if skipped * 5 > len(scen):
        raise Broken(f"{skipped} of {len(scen)} files could not be made")
    cfg = 'CONSTANT Enforced = {"C28"}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n'
    c.validate("FfDamageTrace", cfg, traces, describe=damage_describe)
    for t in traces:
        c.nontrivial.add(json.dumps([t["scn"][x] for x in ("kind", "ext", "parts", "damage")]))
    c.evaluations = sum(len(t["ev"]) for t in traces)
    c.notes["skipped"] = skipped
    c.notes["opened"] = sum(1 for t in traces if t["ev"][0]["kind"] == "ok")
    c.notes["kinds"] = {k: sum(1 for t in traces if t["scn"]["kind"] == k) for k in ("damaged", "changing", "unsupported", "nothing")}
    c.notes["pictures"] = sum(len(t["probe"]["frames"]) for t in traces)
    c.notes["pictures_decoded_in_part"] = sum(not f["sure"] for t in traces for f in t["probe"]["frames"])
    c.notes["pictures_of_another_size_or_format"] = sum(1 for t in traces if len({(f["w"], f["h"], f["fmt"]) for f in t["probe"]["frames"]}) > 1)
    for t in traces[:2]:
        c.sample({"scenario": t["scn"], "calls": [[e["op"], e["kind"]] for e in t["ev"]]}, n=5)
    c.rule = ("Files of FfDamageGen.tla: distinct by codec, container, formats, sizes, lengths and damage; evaluations are calls of the decoder.")
    c.assumptions = [TRUSTED, "What can be decoded of a damaged file is what libavcodec gets out of it (ffgen --probe)."]


def vs_describe(t, at):
    s = t["scn"]
    e = dict(t["ev"][at]) if at < len(t["ev"]) else {}
    e.pop("planes", None)
    return (f"clip of VapourSynth opened by {s['via']} {json.dumps(s['name'])} (path relative {s['relative']}, script names it relatively {s['near']}): {s['family']} {s['ssw']}/{s['ssh']} {s['w']}x{s['h']} "
            f"{s['bits']} bit, float {s['float']}, {s['n']} frames, exists {s['exists']}, works {s['works']}, hidden {s['hidden']}, "
            f"varies {s['vary']}, first bad frame {s['bad']}, rate {s['num']}/{s['den']}: call {at + 1} of "
            f"{[o['op'] + ':' + str(o['k']) for o in s['ops']]} is not allowed: {json.dumps(e)}; frames told {t['count']}, held {t['held']}")


def vs_crash(s):
    return {"id": s["id"], "scn": s, "src": [], "ev": [{"op": "open", "kind": "crash"}], "count": -2, "held": [0, 0, 0]}


@check("C27")
def vapoursynth(c):
    exe = c.vs()
    n = c.scale(1500, 20000)
    scen = c.generate("VsGen", f"CONSTANT Count = {n}\nSPECIFICATION Spec\n", n + 3)
    traces = c.record(exe, "vs", scen, timeout=600, crashed=vs_crash)
    cfg = 'CONSTANT Enforced = {"C27"}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n'
    c.validate("VsTrace", cfg, traces, describe=vs_describe)
    for t in traces:
        c.nontrivial.add(json.dumps([t["scn"][x] for x in ("via", "name", "family", "bits", "ssw", "ssh", "w", "h", "n", "bad", "vary", "ops", "seed")]))
    c.evaluations = sum(len(t["ev"]) for t in traces)
    c.notes["opened"] = sum(1 for t in traces if t["count"] >= 0)
    c.notes["names"] = len({t["scn"]["name"] for t in traces})
    for t in traces[:2]:
        c.sample({"scenario": t["scn"], "calls": [[e["op"], e.get("k"), e["kind"]] for e in t["ev"]]}, n=5)
    c.rule = ("Clips and calls of VsGen.tla: distinct by way of opening, file name, format, size, length, first bad frame, and calls; "
              "evaluations are calls of the decoder.")
    c.assumptions = [TRUSTED, "VapourSynth is not installed: vsharness/src/stub.rs stands in for it, with the interface of its headers."]


def counted(c):
    exe = c.cargo("harness", "avm-harness")
    n = c.scale(400, 4000)
    scen = c.generate("CountGen", f"CONSTANT Count = {n}\nSPECIFICATION Spec\n", n + 3, tag="-count")

    def describe(t, at):
        s = t["scn"]
        return (f"a decoder of {s['n']} frames: call {at + 1} of {[o['op'] + ':' + str(o['k']) for o in s['ops']]} is not allowed: "
                f"{json.dumps(t['ev'][at] if at < len(t['ev']) else {})}")
    traces = c.record(exe, "count", scen, timeout=600, tag="-count",
                      crashed=lambda s: {"id": s["id"], "scn": s, "ev": []})
    c.validate("CountTrace", 'CONSTANT Enforced = {"C21"}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n',
               traces, describe=describe)
    for t in traces:
        c.nontrivial.add(json.dumps([t["scn"]["n"], t["scn"]["ops"]]))
    c.evaluations += sum(len(t["ev"]) for t in traces) - len(traces)
    c.notes["frames_counted"] = sum(t["ev"][-1]["delivered"] for t in traces if t["ev"])


@check("C17", "C18", "C20", "C21")
def decoder(c):
    if c.prop == "C21":
        cfg = ("CONSTANTS MaxFrames = {n}\n MaxK = {k}\n Stubborn = {s}\nSPECIFICATION Spec\nINVARIANT Soon\n"
               "PROPERTIES Implements Ends\n")
        c.model("DecoderLoop", cfg.format(n=3, k=6, s="TRUE"), expect_violation="Invariant Soon is violated")
        c.model("DecoderLoop", cfg.format(n=c.scale(6, 12), k=c.scale(10, 20), s="FALSE"))
    y4m(c)
    if c.prop in FFMPEG_COUNTS:
        ffmpeg(c)
        c.rule += " Likewise for videos of FfmpegGen.tla."
    if c.prop == "C21":
        counted(c)
        c.rule += " Likewise for the counting decoders of CountGen.tla."


# ------------------------------------------------------------------------ the chroma filter (C19)
def chroma_describe(t, at):
    s = t["scn"]
    e = dict(t["ev"][at]) if at < len(t["ev"]) else {}
    src = e.pop("bytes", [])
    return (f"plane of {s['w']}x{s['h']}, padding {s['xpad']} {s['ypad']}, {'16' if s['wide'] else '8'} bit samples: "
            f"call {at + 1} {json.dumps(e)[:400]} of source {src[:80]} is not allowed")


def chroma_crash(s):
    return {"id": s["id"], "scn": s, "ev": [{"op": "convert", "position": "unknown", "depth": 8, "bw": 1, "stride": 1,
                                             "bytes": [], "kind": "crash", "out": []}]}


@check("C19")
def chroma(c):
    c.model("ChromaLaws", f"""CONSTANTS MaxLength = {c.scale(5, 7)}
 Values = {{0, 1, 128, 254, 255}}
SPECIFICATION Spec
INVARIANTS InRange Local Constant Depths
CHECK_DEADLOCK FALSE
""")
    exe = c.cargo("harness", "avm-harness")
    n = c.scale(2500, 20000)
    scen = c.generate("ChromaGen", f"CONSTANT Count = {n}\nSPECIFICATION Spec\n", n + 3)
    traces = c.record(exe, "chroma", scen, timeout=300, crashed=chroma_crash)
    c.validate("ChromaTrace", 'CONSTANT Enforced = {"C19"}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n',
               traces, describe=chroma_describe)
    for t in traces:
        for e in t["ev"]:
            if e["position"] == "vertical":
                c.nontrivial.add(json.dumps([e["bytes"], e["depth"], t["scn"]["w"], t["scn"]["xpad"], t["scn"]["ypad"]]))
    for t in traces[:2]:
        c.sample({"scenario": t["scn"], "out": t["ev"][0]["out"][:2]})
    y4m(c)
    c.rule = ("Calls of ChromaGen.tla (distinct by source, bit depth and layout, non-trivial if the position is vertical), and "
              "y4m files whose chroma is sited vertically.")


# ------------------------------------------------------------------------ the command line tool (C23, C24)
TOOL_COUNTS = {"C23": (600, 4000), "C24": (900, 6000)}


def tool_describe(t, at):
    return (f"av-metrics-tool {t['args']}: base {t['scn']['base']['what']}, files {[f['what'] for f in t['scn']['files']]} of "
            f"{t['scn']['fmt']} {t['scn']['w']}x{t['scn']['h']}, terminal {t['scn']['tty']}, broken {t['run']['broken']}: status {t['status']}, "
            f"reports {({d: [r['state'], len(r['entries']), r.get('why')] for d, r in t['reports'].items()})} {t['stderr'][-150:]!r}")


@check("C23", "C24")
def tool(c):
    c.model("ToolModel", f"""CONSTANT MaxFiles = {c.scale(2, 3)}
SPECIFICATION MSpec
INVARIANTS SuccessIsComplete FailuresShow NoFalseAlarm NothingElse NoInvention
PROPERTY Ends
""")
    harness = c.cargo("harness", "avm-harness")
    exe = c.tool()
    n = c.scale(*TOOL_COUNTS[c.prop])
    scen = c.generate("ToolGen", f'CONSTANTS Profile = "{c.prop}"\n Count = {n}\nSPECIFICATION Spec\n', n + 3)
    for k, s in enumerate(scen):
        s["id"] = k
    traces = runs.record(c, exe, harness, scen)
    cfg = f'CONSTANT Enforced = {{"{c.prop}"}}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Verdict\n'
    c.validate("ToolTrace", cfg, traces, describe=tool_describe)
    for t in traces:
        c.nontrivial.add(json.dumps([t["args"], t["scn"]["base"], t["scn"]["files"], t["scn"]["seed"], t["scn"]["tty"]]))
    for t in traces[:3]:
        c.sample({"args": t["args"], "status": t["status"], "reports": {d: [r["state"], r["entries"][:1]] for d, r in t["reports"].items()}})
    c.notes["statuses"] = {s: sum(1 for t in traces if t["status"] == s) for s in ("ok", "error", "hang")}
    c.notes["reports_read"] = sum(1 for t in traces for r in t["reports"].values() if r["state"] == "entries")
    c.rule = ("Runs of the tool of ToolGen.tla with profile " + c.prop + ", distinct by command line, files and terminal.")
    c.assumptions = [TRUSTED, "The readers of JSON, CSV, Markdown and text in lib/tool.py; a run of more than 60 s hangs."]
