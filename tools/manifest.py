#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, "lib"))
import areas  # noqa: E402

NOTE = {
    "pipe": "Pipeline.tla refines Compare.tla for every scenario and schedule within the constants (exhaustive, TLC); recorded "
            "comparisons of the real code are checked event by event against Compare.tla. What a recorded run does not show "
            "(schedules that did not occur, larger clips) rests on the model.",
    "frame": "Sessions generated from FrameGen.tla are run on the real code and every recorded measurement is checked "
             "by TLC against FrameSession.tla, and for the metric definitions against TLA+ transcriptions of the formulas "
             "evaluated on the very samples. Sampled inputs, not all of them.",
    "y4m": "Files generated from the specification are decoded by the real code and the recorded calls checked by TLC "
           "against Y4m.tla, which parses the very bytes. Sampled files; truncations exhaustive for the small ones.",
    "chroma": "Calls generated by TLC are made on the real filter and the recorded output is checked by TLC against Chroma.tla.",
    "ffmpeg": "Clips encoded with the installed libraries are decoded by the real decoder, and the recorded frames checked by "
              "TLC against Decoder.tla. The encoder is trusted to store losslessly what it is given.",
    "vs": "Clips generated from the specification are handed out by a stand-in for the VapourSynth library, decoded by the real "
          "decoder, and the recorded calls checked by TLC against Decoder.tla. The library itself is not installed.",
    "cli": "Runs of the real tool generated from the specification are recorded (arguments, outputs, exit status) and checked "
           "by TLC against Tool.tla.",
}
TECH = {
    "pipe": "TLA+ refinement model checked with TLC + trace validation of recorded comparisons",
    "frame": "TLA+ specification, TLC-generated sessions replayed on the code, traces validated with TLC",
    "y4m": "TLA+ specification of format and decoder, generated files, traces validated with TLC",
    "chroma": "TLA+ specification, generated calls, traces validated with TLC",
    "ffmpeg": "TLA+ specification, encoded clips, traces validated with TLC",
    "vs": "TLA+ specification of the decoder, generated clips of a stand-in library, traces validated with TLC",
    "cli": "TLA+ specification of the tool, generated runs, traces validated with TLC",
}
AREA = {}
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]:
    AREA[p] = "pipe"
for p in ["C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C25", "C26"]:
    AREA[p] = "frame"
for p in ["C17", "C18", "C20", "C21"]:
    AREA[p] = "y4m"
AREA.update(C19="chroma", C22="ffmpeg", C23="cli", C24="cli", C27="vs", C28="ffmpeg")

props = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, rest = [], []
for p in props:
    if p in areas.CHECKS:
        a = AREA[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH[a], "level": "model_checking",
                       "level_note": NOTE[a]})
    else:
        rest.append({"property": p, "reason": "No check yet."})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": rest,
     "notes": "Checks build into /verif/target (ignored by git) from /repo's working tree; no hooks in /repo are needed. "
              "VERIF_TIER=thorough selects the thorough tier of the same command."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
