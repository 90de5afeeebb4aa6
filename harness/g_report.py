"""C21: what mseed3details and mseed2details print."""
import contextlib
import fcntl
import io
import json
import math
import os
import re
import shutil
import struct
import subprocess
import sys
from datetime import datetime

import vlib
from vlib import drive, outcome
from rec3lib import cps, lay, values
from g_rec3 import rand_regex
from g_ehtool import IDS, ast, damage, doc, eh_asts, esc, leaf, pointer_into
from g_time import inst
import g_ms2

import numpy as np
import simplemseed.mseed3details as details3
import simplemseed.mseed2details as details2
from simplemseed import encodeSteim1, encodeSteim2

TIME = r"(\d{1,4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(?:\.\d+)?(?:Z|[+-]\d\d:?\d\d)?)"
SUM = re.compile(r"^(\S+) " + TIME + " " + TIME + r" \((\d+) pts\)$")
TOTAL = re.compile(r"^Total (\d+) samples in (\d+) records$")
HEAD = re.compile(r"^\s*(\S+), (?:version|quality) (\S*), (\d+) bytes \(format: (\d)\)$")


# ---------------------------------------------------------------- reading the reports
def when(t):
    dt = datetime.fromisoformat(t)
    return inst(dt) if dt.tzinfo is not None else inst(dt)[:3] + [0]


def le8(n):
    return list(int(n).to_bytes(8, "little"))


def sum_row(line):
    m = SUM.match(line)
    if not m:
        return None
    return dict(k="sum", id=cps(m[1]), start=when(m[2]), end=when(m[3]), n=le8(m[4]))


def label(text, name, rx, n=0):
    found = re.findall(r"(?m)^\s*" + re.escape(name) + r":\s*" + rx + r"\s*$", text)
    return found[n]


def det_row(text, fmt, enc_of):
    m = HEAD.match(text.split("\n", 1)[0])
    rate = struct.pack(">d", float(label(text, "sample rate (Hz)", r"(\S+)")))
    row = dict(id=cps(m[1]), size=int(m[3]), start=when(label(text, "start time", TIME + r"(?: \(\d+\))?")),
               n=le8(label(text, "number of samples", r"(\d+)")), rate=list(rate),
               flags=[int(x, 2) for x in re.findall(r"(?m)^\s*flags:\s*\[([01]{8})\]", text)],
               day=int(label(text, "start time", TIME + r" \((\d+)\)")[1]), fmt=int(m[4]),
               bits=[dict(bit=int(b), says=w) for b, w in re.findall(r"(?m)^\s*\[Bit (\d)\] *(.*?)\s*$", text)],
               encname=label(text, "payload encoding", r"(.*)\(val: \d+\)").strip(),
               enc=int(label(text, "payload encoding", r".*\(val: (\d+)\)")), smp=dict(k="none"))
    head, *data = re.split(r"\n\s*data:", text, maxsplit=1)
    if data:
        toks = data[0].split()
        enc = 1 if row["enc"] == 32 else row["enc"]
        if enc in (4, 5):
            arr = np.array([float(t) for t in toks], dtype=np.float32 if enc == 4 else np.float64)
        else:
            arr = np.array([int(t) for t in toks], dtype=np.int64)
        row["smp"] = dict(k="ok", v=values(arr, enc))
    if fmt == 3:
        row.update(pub=int(m[2]), crc=list(int(label(text, "CRC", r"0x([0-9A-Fa-f]+)"), 16).to_bytes(4, "little")),
                   ehlen=int(label(text, "extra header length", r"(\d+) bytes")),
                   dlen=int(label(text, "data payload length", r"(\d+) bytes")), eh=dict(k="none"))
        after = head.split("extra headers:", 1)[1].strip()
        if after:
            row["eh"] = dict(k="doc", v=ast(json.loads(after)))
    else:
        row["quality"] = cps(m[2])
        rest = head.split("payload encoding:", 1)[1].split("\n")[1:]
        row["blks"] = []
        for ln in rest:
            if ln.strip():
                t = re.search(r"(\d+)", ln)
                row["blks"].append(int(t[1]) if t and int(t[1]) in (100, 1000, 1001) else 0)
    return row


def parse_list(text, c):
    """-> rows, total"""
    lines = text.split("\n")
    total = []
    if lines and lines[-1] == "":
        lines.pop()
    if lines and TOTAL.match(lines[-1]):
        m = TOTAL.match(lines.pop())
        total = [dict(records=int(m[2]), samples=le8(m[1]))]
    if c["mode"] == "summary":
        rows = [sum_row(ln) for ln in lines]
        if None in rows:
            raise ValueError("not a summary line: " + lines[rows.index(None)][:100])
        return rows, total
    starts = [i for i, ln in enumerate(lines) if HEAD.match(ln)]
    if lines and (not starts or starts[0] != 0):
        raise ValueError("text before the first record: " + lines[0][:100])
    return [det_row("\n".join(lines[a:b]), c["fmt"], c) for a, b in zip(starts, starts[1:] + [len(lines)])], total


def value_row(text):
    if text.strip() == "" or "not found" in text:
        return dict(k="value", found=0, v=ast({}))
    return dict(k="value", found=1, v=ast(json.loads(text)))


def parse_get(text, names):
    rows = []
    for ln in text.split("\n")[:-1]:
        s = sum_row(ln)
        if ln.startswith("file: ") and ln[6:] in names:
            rows.append(dict(k="file", file=names.index(ln[6:]) + 1))
        elif s is not None:
            rows.append(s)
        else:
            rows.append(value_row(ln))
    return rows


# ---------------------------------------------------------------- running the tools
def argv_of(c, names, outfn):
    a = ["mseed3details" if c["fmt"] == 3 else "mseed2details"]
    o = []
    if c["verbose"]:
        o.append(["-v"])
    if c["regex"] is not None:
        o.append(["--match=" + c["regex"]])
    if c["mode"] == "summary":
        o.append(["--summary"])
    if c["eh"]:
        o.append(["--eh"])
    if c["data"]:
        o.append(["--data"])
    if c["mode"] in ("get", "getall"):
        o.append(["--" + c["mode"], c["ptr"]])
    if c["outfile"]:
        o.append(["-o", outfn] if c["perm"] % 2 else ["--outfile=" + outfn])
    k = c["perm"] % (len(o) + 1)
    o = o[k:] + o[:k]
    return a + [x for y in o for x in y] + (["--"] if c["perm"] % 3 == 0 else []) + names


def listing(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for fn in files:
            p = os.path.join(root, fn)
            with open(p, "rb") as fp:
                out[p] = (fp.read(), os.stat(p).st_mtime_ns)
        for fn in dirs:
            out[os.path.join(root, fn)] = None
    return out


def run(c, argv):
    """-> stdout, ok"""
    tool = details3 if c["fmt"] == 3 else details2
    if c["sub"]:
        env = dict(os.environ, PYTHONPATH=os.path.join(vlib.REPO, "src"), PYTHONIOENCODING="utf-8", PYTHONWARNINGS="ignore")
        p = subprocess.run([sys.executable, "-m", tool.__name__] + argv[1:], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60)
        return p.stdout.decode("utf-8"), p.returncode == 0
    old = sys.argv
    sys.argv = argv
    buf = io.StringIO()
    ok = True
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            try:
                ok = tool.main() in (None, 0, False)
            except SystemExit as e:
                ok = e.code in (None, 0)
            except Exception as e:
                ok = False
                c["_err"] = repr(e)[:200]
    finally:
        sys.argv = old
    return buf.getvalue(), ok


def run_report(c):
    d = c["dir"]
    os.makedirs(os.path.join(d, "in"))
    names = []
    for i, b in enumerate(c["files"]):
        fn = os.path.join(d, "in", f"f{i}.ms{c['fmt']}")
        with open(fn, "wb") as fp:
            fp.write(b)
        names.append(fn)
    use = [names[i] for i in c["order"]]
    outfn = os.path.join(d, "values.txt")
    argv = argv_of(c, use, outfn)
    if c["outfile"] and c["perm"] % 4 < 2:
        with open(outfn, "w") as fp:
            fp.write('"left from before"\n' * 7)
    before = listing(os.path.join(d, "in"))
    e = dict(fmt=c["fmt"], mode=c["mode"], filter=c["filter"], eh=c["eh"], data=c["data"], ptr=cps(c["ptr"]),
             verbose=c["verbose"], outfile=c["outfile"],
             files=[dict(bytes=list(c["files"][i]), ehs=eh_asts(c["files"][i]) if c["fmt"] == 3 else []) for i in c["order"]],
             _argv=argv[1:-len(use)], _sub=c["sub"])

    def go():
        text, ok = run(c, argv)
        out = dict(k="ok" if ok else "failed", file=[], total=[], rows=[])
        e["_text"] = text[:1500]
        if c["mode"] in ("summary", "details"):
            if not ok and c["mode"] == "details" and text and not text.endswith("\n"):
                text += "\n"
            out["rows"], out["total"] = parse_list(text, c)
        else:
            out["rows"] = parse_get(text, use)
            if c["outfile"] and os.path.exists(outfn):
                with open(outfn, encoding="utf-8") as fp:
                    out["file"] = [value_row(ln) for ln in fp.read().split("\n")[:-1]]
        return out
    out, err = outcome(go, secs=60)
    e["out"] = out if err is None else dict(k="unreadable: " + err, rows=[], file=[], total=[])
    e["_err"] = c.get("_err", "")
    e["out"]["same"] = 1 if listing(os.path.join(d, "in")) == before else 0
    shutil.rmtree(d, ignore_errors=True)
    return e


PIPE = 4096


def run_pipe(c):
    """The reader of the output goes away after some bytes."""
    d = c["dir"]
    os.makedirs(d)
    names = []
    for i, b in enumerate(c["files"]):
        names.append(os.path.join(d, f"f{i}.ms{c['fmt']}"))
        with open(names[-1], "wb") as fp:
            fp.write(b)
    tool = details3 if c["fmt"] == 3 else details2
    argv = [sys.executable, "-m", tool.__name__] + (["--summary"] if c["mode"] == "summary" else []) + names * c["times"]
    env = dict(os.environ, PYTHONPATH=os.path.join(vlib.REPO, "src"), PYTHONIOENCODING="utf-8", PYTHONWARNINGS="ignore")
    before = listing(d)
    e = dict(mode="pipe", of=c["mode"], take=c["take"], _argv=argv[1:])

    def go():
        full = subprocess.run(argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        fine, every = full.returncode == 0, full.stdout
        r, w = os.pipe()
        fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, PIPE)
        got = b""
        with open(os.path.join(d, "err"), "wb") as ef:
            p = subprocess.Popen(argv, env=env, stdout=w, stderr=ef)
            os.close(w)
            try:
                while len(got) < c["take"]:
                    b = os.read(r, c["take"] - len(got))
                    if not b:
                        break
                    got += b
            finally:
                os.close(r)
                try:
                    status = p.wait(60)
                finally:
                    p.kill()
        with open(os.path.join(d, "err"), "rb") as ef:
            err = ef.read()
        os.unlink(os.path.join(d, "err"))
        return dict(k="ok", fine=1 if fine else 0, got=list(got), all=list(every[:len(got)]), size=len(every), room=c["take"] + PIPE,
                    status=min(abs(status), 255), silent=0 if b"Traceback" in err else 1, _err=err[-500:].decode("utf-8", "replace"))
    v, err = outcome(go, secs=150)
    e["out"] = v if err is None else dict(k=err)
    e["same"] = 1 if listing(d) == before else 0
    shutil.rmtree(d, ignore_errors=True)
    return e


# ---------------------------------------------------------------- cases
def floats(rng, enc, n):
    out = []
    while len(out) < n:
        v = rng.choice([0.0, 1.5, -0.1, 1e-30, 3.4e38, 123456.789, -7.0, 1e300 if enc == 5 else 1e30, 5e-324 if enc == 5 else 1e-45,
                        rng.uniform(-1e6, 1e6)])
        out.append(v)
    return struct.pack(f"<{n}{'f' if enc == 4 else 'd'}", *out)


def rec3(rng, ident, eh, data):
    enc = rng.choice([3, 3, 1, 4, 5, 10, 11] + ([] if data else [0, 19, 100, 32]))
    n = rng.choice([0, 1, 2, 9, 10, 11, 20, 35])
    if enc == 1:
        payload = struct.pack(f"<{n}h", *[rng.choice([0, -32768, 32767, rng.randint(-999, 999)]) for _ in range(n)])
    elif enc == 3:
        payload = struct.pack(f"<{n}i", *[rng.choice([0, -2 ** 31, 2 ** 31 - 1, rng.randint(-99999, 99999)]) for _ in range(n)])
    elif enc in (4, 5):
        payload = floats(rng, enc, n)
    elif enc in (10, 11):
        n = max(n, 1)
        payload = bytes((encodeSteim1 if enc == 10 else encodeSteim2)([rng.randint(-5000, 5000) for _ in range(n)]))
    else:
        payload = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 3, 64])))
        n = rng.choice([0, 5, 86400, 2 ** 24, 3 * 10 ** 9, 2 ** 32 - 1])
    rate = rng.choice([100.0, 20.0, 1.0, 0.1, -10.0, -0.5, 40.0, 1e6 / 3, 0.0, 12.5, -2.0])
    if n > 10 ** 6 and abs(rate) < 1.1:
        rate = 1000.0
    if n > 10 ** 6 and rate < 0:
        rate = 0.0
    leap = rng.random() < 0.1
    f = dict(flags=rng.choice([0, 1, 2, 4, 255, rng.randrange(256)]), nanosecond=rng.choice([0, 999999999, 123456789, rng.randrange(10 ** 9)]),
             year=rng.choice([2, 1900, 1970, 2024, 2023, 9900]) if rng.random() < 0.3 else rng.randint(1900, 2100),
             dayOfYear=rng.choice([1, 59, 60, 61, 365, rng.randint(1, 365)]), hour=rng.randint(0, 23), minute=rng.randint(0, 59),
             second=60 if leap else rng.randint(0, 59), encoding=enc, rate=list(struct.pack("<d", rate)), numSamples=n,
             publicationVersion=rng.choice([0, 1, 3, 255]))
    kw = rng.choice([dict(), dict(separators=(",", ":")), dict(ensure_ascii=False), dict(indent=1)])
    ehb = b"" if eh is None else json.dumps(eh, **kw).encode()
    return lay(f, ident.encode(), ehb, payload)


MORE_IDS = ["FDSN:XX_ABC_00_LONGBAND_S_SUB", "FDSN:CO_BIRD_00_H_H_Z2", "XFDSN:foo/bar", "FDSN:é_ABC__B_H_Z"]


def case3(rng):
    c = dict(fmt=3, mode=rng.choice(["summary", "summary", "details", "details", "get", "getall", "getall"]))
    data = c["mode"] == "details" and rng.random() < 0.5
    ids = rng.sample(IDS + MORE_IDS, rng.randint(1, 4))
    docs = [doc(rng) for _ in range(3)]
    c["files"] = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        recs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            r = rng.random()
            eh = None if r < 0.15 else {} if r < 0.22 else docs[0] if r < 0.6 else rng.choice(docs) if r < 0.9 else doc(rng)
            recs.append(rec3(rng, rng.choice(ids), eh, data))
        c["files"].append(b"".join(recs))
    r = rng.random()
    if r < 0.4:
        c["filter"], c["regex"] = dict(t="none"), None
    elif r < 0.7:
        w = rng.choice(["BIRD", "H_Z", "JSC", "^FDSN:CO", "CO_BIRD_00_H_H_Z", "L_O_G$", "nothing", "é", ""])
        k = [dict(t="bos") if ch == "^" else dict(t="eos") if ch == "$" else dict(t="lit", c=ord(ch)) for ch in w]
        c["filter"], c["regex"] = dict(t="cat", k=k), w
    else:
        c["filter"], c["regex"] = rand_regex(rng, ids)
    r = rng.random()
    c["ptr"] = "" if r < 0.08 else "/" if r < 0.14 else rng.choice(["a", "/~", "/~2", "#/a", "//"]) if r < 0.2 \
        else pointer_into(rng, docs[0])
    if c["mode"] not in ("get", "getall"):
        c["ptr"] = ""
    c.update(eh=1 if c["mode"] == "details" and rng.random() < 0.6 else 0, data=1 if data else 0,
             outfile=1 if c["mode"] in ("get", "getall") and rng.random() < 0.35 else 0)
    if rng.random() < 0.08:
        i = rng.randrange(len(c["files"]))
        c["files"][i] = damage(rng, c["files"][i])
    return c


def plain2(r):
    """Finite floats and samples that can be printed."""
    k = [x for x in r["blks"] if x["t"] == 1000][0]
    if k["enc"] in (4, 5) and r["payload"]:
        w = 4 if k["enc"] == 4 else 8
        n = len(r["payload"]) // w
        ch = (">" if k["order"] == 1 else "<") + f"{n}{'f' if w == 4 else 'd'}"
        vals = struct.unpack(ch, bytes(r["payload"]))
        r["payload"] = list(struct.pack(ch, *[v if math.isfinite(v) else 0.5 for v in vals]))
    return k["enc"] in (1, 3, 4, 5, 10, 11, 32) and (r["doff"] or r["n"] == 0)


def in_range(r):
    """Whether the last sample is before the year 9999."""
    rates = [struct.unpack(">f", bytes(k["rate"]))[0] for k in r["blks"] if k["t"] == 100]
    f, m = r["factor"], r["mult"]
    rates.append(0 if f == 0 or m == 0 else (f if f > 0 else -1 / f) * (m if m > 0 else -1 / m))
    return all(x == 0 or r["n"] / abs(x) < 7000 * 365 * 86400 for x in rates)


def case2(rng):
    c = dict(fmt=2, mode=rng.choice(["summary", "details", "details"]), ptr="", eh=0, outfile=0)
    files, every = [], []
    data = c["mode"] == "details" and rng.random() < 0.5
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        recs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = g_ms2.rand_rec(rng, us=rng.choice([0, 0, 1, 50, 99, 127]))
            while not in_range(r) or data and not plain2(r):
                r = g_ms2.rand_rec(rng, us=0)
            k = [x for x in r["blks"] if x["t"] == 1000][0]
            if not data and k["enc"] in (0, 16, 19, 30, 100) and rng.random() < 0.7:
                r["n"] = rng.choice([65535, 32768, 4096, 60000])
                r["n"] = r["n"] if in_range(r) else 0
            recs.append(r)
        files.append(b"".join(g_ms2.lay2(r) for r in recs))
        every += recs
    c["files"] = files
    c["data"] = 1 if data else 0
    if every and rng.random() < 0.5:
        c["filter"], c["regex"] = g_ms2.sid_filter(rng, every)
    else:
        c["filter"], c["regex"] = dict(t="none"), None
    return c


def from_machine(rng, g):
    """A scenario like a beginning of the reporting machine."""
    c = dict(fmt=3, mode=g["mode"], ptr="", eh=0, data=0, outfile=0)
    if c["mode"] == "list":
        c["mode"] = rng.choice(["summary", "details"])
        c["fmt"] = rng.choice([2, 3])
        c["eh"] = rng.randint(0, 1) if c["mode"] == "details" and c["fmt"] == 3 else 0
    else:
        c["ptr"] = rng.choice(["/FDSN/x", "/a/1", "/z", "/FDSN"])
        c["outfile"] = 1 if rng.random() < 0.2 else 0
    good = {"/FDSN/x": [{"FDSN": {"x": 1, "y": 2}}, {"FDSN": {"x": {"k": []}}, "x": 3}, {"FDSN": {"x": None}}],
            "/a/1": [{"a": [1, 2]}, {"a": [0, False, 7]}, {"a": {"1": "s"}}], "/z": [{"z": "v"}, {"z": []}, {"a": 1, "z": 0}],
            "/FDSN": [{"FDSN": {}}, {"FDSN": ""}], "": [None]}[c["ptr"]]
    bad = [None, {}, {"FDSNx": 1}, {"b": {"z": 1}, "a": []}]
    c["files"] = []
    for recs in g["files"]:
        out = []
        for r in recs:
            if c["fmt"] == 3:
                out.append(rec3(rng, IDS[0] if r["sel"] else IDS[2], rng.choice(good if r["has"] else bad), False))
            else:
                k = g_ms2.rand_rec(rng, us=0)
                while not in_range(k):
                    k = g_ms2.rand_rec(rng, us=0)
                k["sta"] = "BIRD" if r["sel"] else rng.choice(["JSC", "BIR", "BIRX"])
                out.append(g_ms2.lay2(k))
        c["files"].append(b"".join(out))
    c["filter"], c["regex"] = dict(t="cat", k=[dict(t="lit", c=ord(x)) for x in "BIRD"]), "BIRD"
    c["verbose"] = 1 if g["verbose"] else 0
    return c


def cases_of(ctx, n3, n2, nsub, gen=()):
    rng = ctx.rng
    out = [from_machine(rng, g) for g in gen] + [case3(rng) for _ in range(n3)] + [case2(rng) for _ in range(n2)]
    subs = set(rng.sample(range(len(out)), nsub))
    for i, c in enumerate(out):
        k = len(c["files"])
        c["order"] = list(range(k))
        c.setdefault("verbose", 1 if rng.random() < 0.35 else 0)
        if rng.random() < 0.1 and not c["verbose"]:
            c["order"] = [rng.randrange(k) for _ in range(rng.randint(1, 3))]
        c.update(perm=rng.randrange(30), dir=ctx.path(f"r{i}"), sub=1 if i in subs else 0)
    return out


def check_C21(ctx):
    ctx.model_check("ReportRun.tla", "ReportRun_MC.cfg")
    ctx.model_check("ReportRun.tla", "ReportRun_Reach.cfg", expect_violation="NoLateGet")
    gen = ctx.generate("ReportRun_Gen.tla", "ReportRun_Gen.cfg", exhaustive=True) \
        + ctx.generate("ReportRun_Gen.tla", "ReportRun_Gen3.cfg", exhaustive=True)
    gen = ctx.rng.sample(gen, min(len(gen), ctx.scale(1200, 10 ** 6)))
    cases = cases_of(ctx, ctx.scale(2500, 15000), ctx.scale(1000, 8000), ctx.scale(24, 200), gen)
    ctx.judge("Report_Trace.tla", drive(run_report, cases))
    whole = [c for c in cases if c["mode"] in ("summary", "details") and c["regex"] is None and not c.get("bad") and len(b"".join(c["files"])) > 300]
    pipes = []
    for i, c in enumerate(ctx.rng.sample(whole, min(len(whole), ctx.scale(16, 120)))):
        pipes.append(dict(fmt=c["fmt"], mode=c["mode"], files=c["files"], times=ctx.rng.choice([1, 60, 200]),
                          take=ctx.rng.choice([0, 1, 100, 700, 3000, 9000]), dir=ctx.path(f"p{i}")))
    ctx.judge("Report_Trace.tla", drive(run_pipe, pipes))
    ctx.assumptions += ["identifiers without blanks, extra headers without duplicate keys, NaN or infinities",
                        "times within the years 1 to 9999", "printed samples of numeric encodings, without NaN or infinities",
                        "miniSEED 2 records without the known finding of C16"]
