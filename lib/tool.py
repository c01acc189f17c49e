"""Runs of the command line tool: files, command lines, and what can be found afterwards."""
import csv
import hashlib
import io
import json
import os
import pty
import random
import re
import shutil
import signal
import struct
import subprocess
import tempfile
import termios
import threading
from concurrent.futures import ThreadPoolExecutor

METRICS = ["psnr", "apsnr", "psnrhvs", "ssim", "msssim", "ciede"]
KEYS = {"psnr": "psnr", "apsnr": "apsnr", "psnr_hvs": "psnrhvs", "ssim": "ssim", "msssim": "msssim", "ciede2000": "ciede"}
LABELS = {"psnr": "psnr", "apsnr": "apsnr", "psnrhvs": "psnrhvs", "ssim": "ssim", "msssim": "msssim", "ciede2000": "ciede"}
EXPORTS = {"text": "--export-file", "json": "--export-json", "csv": "--export-csv", "md": "--export-markdown"}
NAN = [2146959360, 0]
NOBODY = 65534
TIMEOUT = 60


def bits(x):
    """A double as in the traces of the harness"""
    hi, lo = struct.unpack(">ii", struct.pack(">d", x))
    return [hi, lo]


# ------------------------------------------------------------------------ input files
def clip(fmt, w, h, frames, seed, what):
    """The bytes of a y4m file"""
    wide = "p1" in fmt
    depth = 12 if "p12" in fmt else 10 if wide else 8
    dx, dy = (1, 0) if fmt.startswith("422") else (0, 0) if fmt.startswith("444") else (1, 1)
    chroma = 0 if fmt == "mono" else 2 * ((w + dx) >> dx) * ((h + dy) >> dy)
    n = w * h + chroma
    r = random.Random(seed)
    out = [f"YUV4MPEG2 W{w} H{h} F25:1 C{fmt}\n".encode()]
    for _ in range(frames):
        v = [r.randrange(1 << depth) for _ in range(n)]
        if what == "near":
            v = [x ^ 1 if r.randrange(3) == 0 else x for x in v]
        elif what == "black":
            v = [0] * n
        out.append(b"FRAME\n")
        out.append(struct.pack(f"<{n}H", *v) if wide else bytes(v))
    return out


def content(s, f, base):
    """The bytes of a file of a scenario, or None if it cannot be opened"""
    what, fmt, w, h, n = f["what"], s["fmt"], s["w"], s["h"], s["frames"]
    seed = s["seed"]
    if what in ("missing", "directory"):
        return None
    if what == "empty":
        return b""
    if what == "text":
        return b"This is no video.\n" * 5
    if what == "badheader":
        return b"YUV4MPEG2 W0 H16 F25:1\n" + b"FRAME\n" + bytes(400)
    if what == "cuthead":
        return b"YUV4MPEG2 W16 H1"
    if what == "noise":
        seed = f["seed"]
    elif what == "short":
        n -= 1
    elif what == "longer":
        n += 2
    elif what == "width":
        w += 2
    elif what == "height":
        h += 1
    elif what == "depth":
        fmt = {"420p10": "420jpeg", "422p10": "422", "444p12": "444"}.get(fmt, {"422": "422p10", "444": "444p12"}.get(fmt, "420p10"))
    elif what == "cs":
        fmt = {"420p10": "444p10", "422p10": "444p10", "444p12": "420p12", "422": "444", "444": "422"}.get(fmt, "444")
    elif what == "mono":
        fmt = "mono"
    parts = clip(fmt, w, h, n, seed, what)
    if what == "cut":
        parts[-1] = parts[-1][:len(parts[-1]) // 2]
    elif what == "noframes":
        parts = parts[:1]
    elif what == "badframe":
        parts[-2] = b"FRAMX\n"
    return b"".join(parts)


LOST = ("missing", "directory", "empty", "text", "badheader", "cuthead")


# ------------------------------------------------------------------------ reports
ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")
NUMBER = r"[-+]?(?:inf|NaN|nan|\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)"


def bad(why):
    return {"state": "bad", "base": False, "entries": [], "why": why}


def refuse(constant):
    raise ValueError("no JSON: " + constant)


def unique(pairs):
    if len({k for k, _ in pairs}) != len(pairs):
        raise ValueError("repeated key in " + repr(pairs))
    return dict(pairs)


def parse_json(text, base, names):
    try:
        d = json.loads(text, parse_constant=refuse, object_pairs_hook=unique)
        entries = []
        for i, c in enumerate(d["comparisons"]):
            scores = {m: [] for m in METRICS}
            for key, m in KEYS.items():
                if key in c:
                    v = c[key]
                    v = [v["y"], v["u"], v["v"], v["avg"]] if isinstance(v, dict) else [v]
                    scores[m] = [NAN if x is None else bits(float(x)) for x in v]
            entries.append({"named": i < len(names) and c["filename"] == names[i], "scores": scores})
        return {"state": "entries", "base": d["base"] == base, "entries": entries}
    except (ValueError, KeyError, TypeError) as e:
        return bad(repr(e))


def table(rows, names, same):
    try:
        columns = [KEYS.get(c.strip()) for c in rows[0][1:]]
        if rows[0][0].strip() != "filename" or set(columns) != set(METRICS):
            return bad("columns " + repr(rows[0]))
        entries = []
        for i, r in enumerate(rows[1:]):
            if len(r) != len(columns) + 1:
                return bad("row " + repr(r))
            entries.append({"named": i < len(names) and same(r[0], names[i]),
                            "scores": {m: [bits(float(v))] for m, v in zip(columns, r[1:])}})
        return {"state": "entries", "base": True, "entries": entries}
    except (ValueError, IndexError) as e:
        return bad(repr(e))


def parse_csv(text, _base, names):
    try:
        rows = [r for r in csv.reader(io.StringIO(text, newline=""), strict=True) if r]
    except csv.Error as e:
        return bad(repr(e))
    return table(rows, names, lambda a, b: a == b)


PUNCTUATION = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"


def md_cells(line):
    """The cells of a table row, as GitHub's reference implementation splits it: a pipe ends a cell
    unless it is escaped, and a backslash may be escaped itself."""
    cells, cell, i = [], "", 1
    while i < len(line):
        if line[i] == "|":
            cells.append(cell)
            cell = ""
        elif line[i] == "\\" and i + 1 < len(line) and line[i + 1] in PUNCTUATION:
            cell += line[i:i + 2]
            i += 1
        else:
            cell += line[i]
        i += 1
    return cells if not cell.strip() else None


def md_shows(cell, name):
    """Whether a cell shows a name, with or without escapes of characters other than the pipe"""
    plain = cell.replace("\\|", "|")
    decoded = re.sub(r"\\([%s])" % re.escape(PUNCTUATION), r"\1", cell)
    # How a line end is shown in a table is open
    return name.strip() in (plain.strip(), decoded.strip()) or "\n" in name or "\r" in name


def parse_md(text, _base, names):
    rows = []
    lines = re.split(r"\r\n|\n|\r", text)
    while lines and not lines[-1].strip():
        lines.pop()
    for line in lines:
        line = line.strip(" ")
        cells = md_cells(line) if line.startswith("|") else None
        if cells is None:
            return bad("line " + repr(line))
        rows.append(cells)
    # A delimiter row of another length makes it no table
    if len(rows) < 2 or len(rows[0]) != len(rows[1]) or any(not re.fullmatch(r" *:?-+:? *", c) for c in rows[1]):
        return bad("no table")
    return table([rows[0]] + rows[2:], names, md_shows)


def parse_text(text, base, names):
    text = ANSI.sub("", text)
    at = text.find("Comparing " + base)
    found = [at >= 0]
    starts = []
    pos = max(at, 0) + len("Comparing " + base)
    for name in names:
        k = text.find("Results for " + name + ":", pos)
        if k < 0:
            break
        starts.append((k, k + len("Results for " + name + ":")))
        pos = starts[-1][1]
    entries = []
    for i, (_, start) in enumerate(starts):
        end = starts[i + 1][0] if i + 1 < len(starts) else len(text)
        scores = {m: [] for m in METRICS}
        for line in text[start:end].split("\n"):
            m = re.match(r"\s*([A-Za-z0-9 _-]+?)\s*→(.*)$", line)
            if not m:
                continue
            label = LABELS.get(re.sub(r"[ _-]", "", m.group(1)).lower())
            if label is None or scores[label]:
                return bad("label " + repr(line))
            scores[label] = [bits(float(v)) for v in re.findall(r":\s*(" + NUMBER + ")", m.group(2))]
        entries.append({"named": True, "scores": scores})
    if not found[0] and not entries:
        return bad("no report")
    return {"state": "entries", "base": found[0], "entries": entries}


PARSERS = {"json": parse_json, "csv": parse_csv, "md": parse_md, "text": parse_text, "stdout": parse_text}


# What the files of the exports hold before, in some runs
STALE_WORD = b"left-by-an-earlier-run"
STALE = (STALE_WORD + b"\n") * 2000


def parse(d, data, base, names):
    if data is None:
        return {"state": "absent", "base": False, "entries": []}
    if not data:
        return {"state": "empty", "base": False, "entries": []}
    if data == STALE:
        return {"state": "absent", "base": False, "entries": []}
    if STALE_WORD in data:
        return bad("remains of an earlier file")
    try:
        return PARSERS[d](data.decode("utf-8"), base, names)
    except UnicodeDecodeError as e:
        return bad(repr(e))


# ------------------------------------------------------------------------ runs
def drain(fd, into):
    try:
        while True:
            b = os.read(fd, 65536)
            if not b:
                break
            into.append(b)
    except OSError:
        pass
    os.close(fd)


def raw_pty():
    master, slave = pty.openpty()
    a = termios.tcgetattr(slave)
    a[1] &= ~termios.OPOST
    a[3] &= ~termios.ECHO
    termios.tcsetattr(slave, termios.TCSANOW, a)
    return master, slave


def as_nobody():
    os.setsid()
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


def listing(top):
    out = {}
    for root, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                out[p] = "link"
                continue
            with open(p, "rb") as h:
                out[p] = hashlib.sha1(h.read()).hexdigest()
        for f in dirs:
            out[os.path.join(root, f)] = "dir"
    return out


class Run:
    """A scenario of ToolGen.tla in a directory of its own"""

    def __init__(self, s, top):
        self.s = s
        self.dir = os.path.join(top, str(s["id"]))
        os.makedirs(os.path.join(self.dir, "sub dir"))
        specs = [dict(s["base"])] + [dict(f) for f in s["files"]]
        used = {}
        self.names, self.paths, self.lost = [], [], []
        r = random.Random(s["seed"])
        for i, f in enumerate(specs):
            if i > 1 and r.randrange(6) == 0 and f["what"] not in LOST and specs[1]["what"] not in LOST:
                f = specs[i] = specs[1]      # the same file once more
            name = f["name"]
            place = r.randrange(6)
            if place == 0:
                name = "sub dir/" + name
            elif place == 1:
                name = os.path.join(self.dir, name)
            elif name.startswith("-") or place == 2:
                name = "./" + name
            path = os.path.normpath(os.path.join(self.dir, name))
            key = json.dumps({k: f[k] for k in ("what", "seed")})
            if used.get(path, key) != key:
                name, path = f"{name} {i}", f"{path} {i}"
            if path not in used:
                used[path] = key
                data = content(s, f, s["base"])
                if data is not None:
                    with open(path, "wb") as h:
                        h.write(data)
                elif f["what"] == "directory":
                    os.makedirs(path)
            self.names.append(name)
            self.paths.append(path)
            if f["what"] in LOST:
                self.lost.append(i)
        if s["stale"]:
            for d in EXPORTS:
                if s["broken"] != d:
                    with open(os.path.join(self.dir, "out." + d), "wb") as h:
                        h.write(STALE)
        if os.getuid() == 0:
            for root, dirs, files in os.walk(self.dir):
                os.chown(root, NOBODY, NOBODY)
                for f in files:
                    os.chown(os.path.join(root, f), NOBODY, NOBODY)

    def go(self, exe):
        s = self.s
        exports, wanted = {}, []
        for d in EXPORTS:
            if not s[d]:
                continue
            wanted.append(d)
            path = "out." + d
            if s["broken"] == d:
                path = {"full": "full." + d, "nodir": "no/such/dir." + d, "isdir": "dir." + d}[s["how"]]
                if s["how"] == "full":
                    os.symlink("/dev/full", os.path.join(self.dir, path))
                elif s["how"] == "isdir":
                    os.makedirs(os.path.join(self.dir, path))
            exports[d] = path
        if not s["quiet"]:
            wanted.append("stdout")
        options = []
        for d, path in exports.items():
            options.append([EXPORTS[d], path] if s["order"] % 2 else [EXPORTS[d] + "=" + path])
        if s["quiet"]:
            options.append(["--quiet"])
        if s["count"]:
            options.append(["--frames"])
        if s["metric"] != "all":
            options.append(["--metric", s["metric"] + ("2000" if s["metric"] == "ciede" else "")])
        if s["usage"] == "metric":
            options = [o for o in options if o[0] != "--metric"] + [["--metric", "vmaf"]]
        elif s["usage"] == "option":
            options.append(["--verbose-please"])
        random.Random(s["seed"]).shuffle(options)
        options = [a for o in options for a in o]
        files = self.names if s["usage"] != "nofiles" else self.names[:1]
        args = files + options if s["order"] < 2 else options + files
        before = listing(self.dir)
        out, err = [], []
        if s["tty"]:
            (m1, s1), (m2, s2) = raw_pty(), raw_pty()
        else:
            (m1, s1), (m2, s2) = os.pipe(), os.pipe()
            if s["broken"] == "stdout":
                os.close(s1)
                if s["how"] == "full":
                    s1 = os.open("/dev/full", os.O_WRONLY)
                else:
                    os.close(m1)
                    m1, s1 = os.pipe()
                    os.close(m1)
                    m1 = None
        p = subprocess.Popen([exe, *args], cwd=self.dir, stdin=subprocess.DEVNULL, stdout=s1, stderr=s2,
                             preexec_fn=as_nobody, env={"PATH": "/usr/bin:/bin", "TERM": "xterm", "LANG": "C.UTF-8", "RUST_BACKTRACE": "0"})
        os.close(s1)
        os.close(s2)
        readers = [threading.Thread(target=drain, args=(fd, into)) for fd, into in ((m1, out), (m2, err)) if fd is not None]
        for t in readers:
            t.start()
        try:
            status = "ok" if p.wait(TIMEOUT) == 0 else "error"
        except subprocess.TimeoutExpired:
            status = "hang"
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        for t in readers:
            t.join()
        out, err = b"".join(out), b"".join(err)
        after = listing(self.dir)
        own = {os.path.join(self.dir, e) for e in exports.values()}
        bystanders = {k: v for k, v in before.items() if k not in own} == {k: v for k, v in after.items() if k not in own}
        reports = {}
        for d in [*EXPORTS, "stdout"]:
            data = None
            if d == "stdout":
                data = out
            elif d in exports and s["broken"] != d:
                path = os.path.join(self.dir, exports[d])
                if os.path.isfile(path):
                    with open(path, "rb") as h:
                        data = h.read()
            if s["broken"] == d:
                reports[d] = {"state": "unknown", "base": False, "entries": []}
                if d == "stdout" and s["quiet"]:
                    reports[d]["state"] = "empty"
                elif d != "stdout" and not s[d]:
                    reports[d]["state"] = "absent"
                continue
            reports[d] = parse(d, data, self.names[0], self.names[1:])
        return {"id": s["id"], "scn": s, "args": args, "status": status, "bystanders": bystanders,
                "stderr": err.decode("utf-8", "replace")[-300:],
                "run": {"usage": s["usage"] == "ok", "wanted": wanted, "broken": [s["broken"]] if s["broken"] != "no" else [],
                        "lost": self.lost, "metric": s["metric"], "n": len(self.names) - 1},
                "reports": reports}


def record(c, exe, harness, scen):
    """Traces of scenarios: the runs, and the scores of the library"""
    top = tempfile.mkdtemp(prefix="avm-tool-")
    try:
        os.chmod(top, 0o755)
        copy = os.path.join(top, "av-metrics-tool")
        shutil.copy(exe, copy)
        os.chmod(copy, 0o755)
        runs = [Run(s, top) for s in scen]
        asked, where = [], {}
        for r in runs:
            for i in range(1, len(r.paths)):
                if 0 in r.lost or i in r.lost:
                    continue
                key = (r.paths[0], r.paths[i])
                if key not in where:
                    where[key] = len(asked)
                    asked.append({"id": len(asked), "base": key[0], "file": key[1]})
        got = c.record(harness, "scores", asked, timeout=300,
                       crashed=lambda s: {"id": s["id"], "scores": {m: [] for m in METRICS}}, tag="-scores")
        lib = {t["id"]: t["scores"] for t in got}
        with ThreadPoolExecutor(8) as ex:
            traces = list(ex.map(lambda r: r.go(copy), runs))
        none = {m: [] for m in METRICS}
        for r, t in zip(runs, traces):
            t["lib"] = [lib[where[(r.paths[0], p)]] if (r.paths[0], p) in where else none for p in r.paths[1:]]
        return traces
    finally:
        shutil.rmtree(top, ignore_errors=True)
