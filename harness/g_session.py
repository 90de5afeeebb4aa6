"""C25: sessions with files and all the tools."""
import contextlib
import datetime
import importlib
import io
import json
import os
import re
import shutil
import signal
import struct
import sys

import numpy as np

import vlib
from vlib import drive, outcome
from rec3lib import *
from g_ehtool import Watch
from g_ms2 import f8, lay2, sid_filter
from g_time import inst

from simplemseed import MiniseedHeader, MiniseedRecord, encodeSteim1, encodeSteim2, readMSeed3Records
from simplemseed.miniseed import readMiniseed2Records

convert = importlib.import_module("simplemseed.mseed2to3")
merge = importlib.import_module("simplemseed.mseed3merge")
details3 = importlib.import_module("simplemseed.mseed3details")
details2 = importlib.import_module("simplemseed.mseed2details")

EPOCH = datetime.datetime(1, 1, 1)
# hertz as p / q, microseconds from sample to sample, factor and multiplier
RATES = [(100, 1, 10000, 100, 1), (20, 1, 50000, 20, 1), (40, 1, 25000, 40, 1), (1, 1, 10 ** 6, 1, 1), (1, 10, 10 ** 7, -10, 1),
         (8, 1, 125000, 4, 2), (200, 1, 5000, 200, 1), (50, 1, 20000, 100, -2), (1, 4, 4 * 10 ** 6, -4, 1), (25, 2, 80000, 25, -2),
         (1, 2, 2 * 10 ** 6, -2, 1), (500, 1, 2000, 500, 1), (1, 60, 60 * 10 ** 6, -60, 1)]
PERIODS = [[p, q, us // 10 ** 6, us % 10 ** 6] for p, q, us, _, _ in RATES]
CHANS = [("CO", "BIRD", "00", "HHZ"), ("CO", "BIRD", "00", "HHN"), ("CO", "JSC", "", "BHZ"), ("XX", "A", "10", "LHE")]
W = {1: "h", 3: "i", 4: "f", 5: "d"}
DT = {1: "i2", 3: "i4", 4: "f4", 5: "f8"}


def sid_of(ch):
    n, s, loc, c = ch
    return f"FDSN:{n}_{s}_{loc}_{c[0]}_{c[1]}_{c[2]}"


def data_of(rec, big):
    if rec["enc"] in (10, 11):
        return bytes((encodeSteim1 if rec["enc"] == 10 else encodeSteim2)(rec["vals"]))
    return struct.pack((">" if big else "<") + f"{len(rec['vals'])}{W[rec['enc']]}", *rec["vals"])


def array_of(rec):
    return list(rec["vals"]) if rec["kind"] == "list" else np.array(rec["vals"], dtype=DT[rec["enc"]])


def bytes3(rec, start):
    """A miniseed3 record, by the library or laid out."""
    p, q, us, _, _ = RATES[rec["rate"]]
    rate = p / q if p >= q else -q / p
    sid, d = sid_of(rec["ch"]), start
    if rec["lib"]:
        h = MSeed3Header()
        h.starttime = d.replace(tzinfo=datetime.timezone.utc)
        h.sampleRatePeriod = rate
        h.publicationVersion = 4
        h.encoding = rec["enc"]
        data = data_of(rec, False) if rec["enc"] in (10, 11) else array_of(rec)
        if rec["enc"] in (10, 11):
            h.numSamples = len(rec["vals"])
        r = MSeed3Record(h, sid, data)
        if rec["eh"] is not None:
            r.eh = rec["eh"]
        return bytes(r.pack())
    f = dict(flags=0, nanosecond=d.microsecond * 1000, year=d.year, dayOfYear=d.timetuple().tm_yday, hour=d.hour, minute=d.minute,
             second=d.second, encoding=rec["enc"], rate=list(struct.pack("<d", rate)), numSamples=len(rec["vals"]),
             publicationVersion=4)
    return lay(f, sid.encode(), b"" if rec["eh"] is None else json.dumps(rec["eh"]).encode(), data_of(rec, False))


def bytes2(rec, start):
    """A miniseed2 record, by the library or laid out; starts at a tenth of a millisecond."""
    p, q, us, factor, mult = RATES[rec["rate"]]
    n, s, loc, c = rec["ch"]
    d = start
    payload = data_of(rec, rec["big"])
    exp = 7
    while 2 ** exp < 128 + len(payload):
        exp += 1
    if rec["lib"] and 1 in (p, q):    # other rates are near what is asked for
        h = MiniseedHeader(n, s, loc, c, d.replace(tzinfo=datetime.timezone.utc), len(rec["vals"]), p / q, encoding=rec["enc"], sequence_number=rec["seq"],
                           byteorder=1 if rec["big"] or rec["enc"] in (10, 11) else 0)
        h.recordLengthExp = exp
        h.recordLength = 2 ** exp
        if rec["enc"] in (10, 11):
            r = MiniseedRecord(h, None, encodedDataBytes=data_of(rec, True))
        else:
            r = MiniseedRecord(h, array_of(rec))
        return bytes(r.pack())
    blks = [dict(t=1000, enc=rec["enc"], order=1 if rec["big"] or rec["enc"] in (10, 11) else 0, len=exp)]
    if rec["us"]:
        blks.append(dict(t=1001, q=100, us=rec["us"], fc=0))
    return lay2(dict(net=n, sta=s, loc=loc, cha=c, big=rec["big"], seq=rec["seq"], q="D",
                     bt=[d.year, d.timetuple().tm_yday, d.hour, d.minute, d.second, d.microsecond // 100], n=len(rec["vals"]),
                     factor=factor, mult=mult, act=0, io=rec["seq"] % 64, qual=0, tc=0, exp=exp, blks=blks, gaps=[0] * len(blks),
                     boff=48, doff=64 if len(blks) == 1 else 128, payload=payload))


def whole3(b):
    at = 0
    while at < len(b):
        h = b[at:at + 40]
        if len(h) < 40 or h[:3] != b"MS\x03":
            return False
        n = 40 + h[33] + h[34] + 256 * h[35] + struct.unpack_from("<I", h, 36)[0]
        r = b[at:at + n]
        if len(r) < n or crc(r[:28] + bytes(4) + r[32:]) != struct.unpack_from("<I", r, 28)[0]:
            return False
        at += n
    return True


class Session:
    def __init__(self, c):
        self.rng = vlib.random.Random(c["seed"])
        self.moves, self.d = c["moves"], c["dir"]
        rng = self.rng
        day = rng.choice([datetime.datetime(2019, 12, 31), datetime.datetime(2020, 2, 28), datetime.datetime(2020, 12, 31),
                          datetime.datetime(1999, 5, 6), datetime.datetime(2016, 12, 31)])
        self.day, self.base = day, (day - EPOCH).days
        self.t0 = rng.choice([86399, 86340, 0, 43200]) * 10 ** 6 + rng.choice([0, 100, 999900, 500000])
        self.us = rng.choice([0, 0, 0, 1, 37, 99]) if c["micro"] else 0
        self.clock = {}
        self.home = {k: rng.randrange(len(RATES)) for k in range(len(CHANS))}
        self.encs = {k: rng.choice([1, 3, 4, 5, 10, 11]) for k in range(len(CHANS))}
        self.last = rng.randrange(len(CHANS))
        self.x = 0
        self.contents, self.index, self.steps = [], {}, []
        self.names = [os.path.join(self.d, n) for n in rng.sample(["a.ms", "b.ms3", "out", "c.mseed", "-d.ms", "e f.ms2", "%s.x", "z"], 4)]
        self.kind = ["none"] * 4    # format, as far as it matters for what is done next
        self.whole2 = [True] * 4

    # ------------------------------------------------------------ records
    def record(self, fmt):
        rng = self.rng
        k = self.last if rng.random() < 0.65 else rng.randrange(len(CHANS))
        self.last = k
        if rng.random() < 0.1:
            self.home[k] = rng.randrange(len(RATES))
        if rng.random() < 0.15:
            self.encs[k] = rng.choice([1, 3, 4, 5, 10, 11])
        enc, us = self.encs[k], RATES[self.home[k]][2]
        n = rng.choice([1, 1, 2, 3, 4, 5, 8, 13])
        # number of samples since the start of the session; all on one grid
        g = self.clock.get((k, self.home[k]), rng.randrange(5))
        g = max(0, g + rng.choice([0] * 12 + [1, 2, 10, 3600, -1, -2, -5]))
        self.clock[k, self.home[k]] = g + n
        vals = []
        for _ in range(n):
            self.x += 1
            vals.append(self.x * rng.choice([1, 1, -1]))
        if enc in (3, 10, 11, 5) and rng.random() < 0.2:
            vals = [v * 1024 for v in vals]
        # without samples of the previous record written twice
        t = self.t0 + self.us + g * us
        rec = dict(ch=CHANS[k], rate=self.home[k], enc=enc, vals=vals, t=t, lib=rng.random() < 0.5, us=self.us, big=rng.random() < 0.5,
                   seq=rng.choice([0, 1, 1, 7, self.x % 1000000]), eh=rng.choice([None, None, {"n": self.x}, {"FDSN": {"Time": {"Quality": 90}}}]),
                   kind="list" if enc == 3 and rng.random() < 0.5 else "array")
        if fmt == 2 and self.us:
            rec["lib"] = False
        start = self.day + datetime.timedelta(microseconds=t - (self.us if fmt == 2 else 0))
        b = (bytes2 if fmt == 2 else bytes3)(rec, start)
        p, q = RATES[rec["rate"]][:2]
        return b, [cps(sid_of(rec["ch"])), [t // 10 ** 6, t % 10 ** 6], [p, q], vals]

    # ------------------------------------------------------------ files
    def slurp(self, f):
        if not os.path.exists(self.names[f]):
            return None
        with open(self.names[f], "rb") as fp:
            return fp.read()

    def put(self, f, b, mode="wb"):
        with open(self.names[f], mode) as fp:
            fp.write(b)

    def torn(self, f):
        b = self.slurp(f)
        if not b:
            return False
        return not whole3(b) if b[:2] == b"MS" else not self.whole2[f]

    def fmt(self, f):
        b = self.slurp(f)
        return "none" if b is None else "empty" if b == b"" else "three" if b[:2] == b"MS" else "two"

    def step(self, op, i, o, k, **kw):
        obs = []
        for f in range(4):
            b = self.slurp(f)
            if b is None:
                obs.append(0)
                continue
            if b not in self.index:
                self.contents.append(list(b))
                self.index[b] = len(self.contents)
            obs.append(self.index[b])
        self.steps.append(dict(op=op, i=i + 1, o=o + 1, k=k, obs=obs, **kw))

    # ------------------------------------------------------------ tools
    def main(self, mod, argv):
        """-> "ok" or how it failed, what it printed"""
        out = io.StringIO()

        def call():
            old = sys.argv
            sys.argv = argv
            here = os.getcwd()
            os.chdir(self.d)
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        rc = mod.main()
                    except SystemExit as x:
                        rc = x.code
                    if rc not in (None, 0, False):
                        raise RuntimeError("exit status")
            finally:
                os.chdir(here)
                sys.argv = old
        _, err = outcome(call, secs=20)
        return "ok" if err is None else err, out.getvalue()

    def killed(self, mod, argv):
        """Runs in a process of its own that is killed somewhere."""
        r, w = os.pipe()
        at = int(10 ** self.rng.uniform(0.5, 3.3))
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.setitimer(signal.ITIMER_REAL, 0)
                watch = Watch([], at=at, how="kill", look=False)
                watch.start()
                k, _ = self.main(mod, argv)
                watch.stop()
                os.write(w, k.encode()[:500])
            finally:
                os._exit(0)
        os.close(w)
        got = b""
        while True:
            part = os.read(r, 4096)
            if not part:
                break
            got += part
        os.close(r)
        os.waitpid(pid, 0)
        return got.decode() or "killed"

    def path(self, f):
        """As the user types it: with the directory or, in it, without; a leading dash needs one."""
        n = self.names[f]
        b = os.path.basename(n)
        return b if not b.startswith("-") and self.rng.random() < 0.3 else os.path.join(".", b) if self.rng.random() < 0.2 else n

    def filter(self, i):
        rng = self.rng
        if rng.random() < 0.4:
            return dict(t="none"), None
        return sid_filter(rng, [dict(zip(("net", "sta", "loc", "cha"), ch)) for ch in CHANS])

    def do(self, m):
        rng = self.rng
        op, i, o = m["op"], m["i"] - 1, m["o"] - 1
        if op in ("write2", "write3"):
            have = self.fmt(o)
            if have in ("two", "three"):
                op = "write2" if have == "two" else "write3"
            if self.torn(o):
                op = "remove"
            else:
                n = rng.choice([1, 2, 2, 3, 4])
                made, err = outcome(lambda: [self.record(2 if op == "write2" else 3) for _ in range(n)])
                if err is None:
                    self.put(o, b"".join(b for b, _ in made), "ab")
                    self.whole2[o] = True
                self.step(op, -1, o, "ok" if err is None else err, recs=[r for _, r in made] if err is None else [])
                return
        if op == "remove":
            if self.slurp(o) is not None:
                os.unlink(self.names[o])
            self.whole2[o] = True
            self.step(op, -1, o, "ok")
        elif op in ("convert", "merge", "kill convert", "kill merge"):
            kill, tool = op.startswith("kill"), op.split()[-1]
            pi, po = self.path(i), self.path(o)
            v = ["-v"] if rng.random() < 0.15 else []
            if tool == "convert":
                argv = rng.choice([["-2", pi, "-3", po], ["--ms3", po, "--ms2", pi]]) + v
                mod = convert
            else:
                argv = rng.choice([["-o", po, pi], ["--outfile", po, pi], [pi, "-o", po]]) + (["--decomp"] if rng.random() < 0.2 else []) + v
                mod = merge
            k = self.killed(mod, [tool] + argv) if kill else self.main(mod, [tool] + argv)[0]
            self.step(tool, i, o, k, killed=1 if k == "killed" else 0)
        elif op == "edit":
            flt, pat = self.filter(i)
            a = ["-v"] if rng.random() < 0.1 else []
            if pat is not None:
                a.append("--match=" + pat)
            a += [rng.choice(["--set", "--setall"])] + rng.choice([["/n", "7"], ["/new", '{"a": [1]}'], ["", '{"r": "é"}'], ["/FDSN", "null"]])
            k, _ = self.main(details3, ["mseed3details"] + a + [self.path(i)])
            self.step("edit", i, -1, k, filter=flt, killed=0)
        elif op == "select":
            if self.fmt(i) == "none" or self.torn(i):
                return
            flt, pat = self.filter(i)
            read = readMiniseed2Records if self.fmt(i) == "two" else readMSeed3Records
            whole = self.whole2[i]

            def call():
                with open(self.names[i], "rb") as fi, open(self.names[o], "wb") as fo:
                    for r in read(fi, matchsid=pat):
                        if self.touch < 0.3:
                            r.decompress()
                        fo.write(r.pack())
            self.touch = rng.random()
            _, err = outcome(call)
            self.whole2[o] = whole
            self.step("select", i, o, "ok" if err is None else err, filter=flt)
        elif op == "cat":
            if self.fmt(i) == "none" or self.fmt(o) == "none" or self.torn(i) or self.torn(o):
                return
            if {self.fmt(i), self.fmt(o)} == {"two", "three"}:
                return
            self.put(o, self.slurp(i), "ab")
            self.whole2[o] = True
            self.step("cat", i, o, "ok")
        elif op == "report":
            fmt = self.fmt(i)
            if fmt not in ("two", "three") or rng.random() < 0.1:
                fmt = rng.choice(["two", "three"])
            flt, pat = (dict(t="none"), None) if self.torn(i) else self.filter(i)
            a = ["--match=" + pat] if pat is not None else []
            a += rng.choice([["--summary"], [], ["--data"]] + ([["--eh"]] if fmt == "three" else []))
            k, text = self.main(details3 if fmt == "three" else details2, ["details"] + a + [self.path(i)])
            m = re.findall(r"^Total (\d+) samples in (\d+) records$", text, re.M)
            self.step("report", i, -1, k, filter=flt, fmt=fmt, total=int(m[0][0]) if len(m) == 1 else -1)
        elif op == "view":
            if self.fmt(i) == "none":
                return
            read = readMiniseed2Records if self.fmt(i) == "two" else readMSeed3Records
            got = []

            def call():
                with open(self.names[i], "rb") as fp:
                    for r in read(fp):
                        v = [int(x) if x == int(x) and abs(x) < 2 ** 31 else 2 * 10 ** 9 + 1 for x in r.decompress()]
                        t = inst(r.starttime() if read is readMiniseed2Records else r.header.starttime)[:3]
                        got.append([cps(str(r.identifier)), t, f8(r.header.sampleRate), v])
            _, err = outcome(call)
            self.step("view", i, -1, "ok" if err is None else "raise", recs=got)
        elif op == "hurt":
            b = self.slurp(i)
            if not b or self.torn(i):
                return
            if b[:2] == b"MS":
                b = bytearray(b)
                if rng.random() < 0.5:
                    # a few bytes are no miniseed2 record either
                    b = b[:rng.randrange(min(48, len(b) - 1), len(b))]
                else:
                    at = rng.randrange(1, len(b))
                    b[at] ^= 1 << rng.randrange(8)
            else:
                starts, at = [], 0
                while at < len(b):
                    starts.append(at)
                    at += 2 ** self.length2(b, at)
                s = rng.choice(starts)
                n = 2 ** self.length2(b, s)
                b = b[:s + rng.choice([48, n - 1, n - 64, rng.randrange(48, n)])]
                self.whole2[i] = False
            self.put(i, bytes(b))
            self.step("hurt", i, -1, "ok")
        else:
            raise vlib.CheckError(op)

    def length2(self, b, at):
        """Exponent of the record length, from blockette 1000."""
        big = 1900 <= b[at + 20] * 256 + b[at + 21] <= 2050
        bo = ">" if big else "<"
        k = struct.unpack_from(bo + "H", b, at + 46)[0]
        while True:
            t, nxt = struct.unpack_from(bo + "HH", b, at + k)
            if t == 1000:
                return b[at + k + 6]
            k = nxt

    def run(self):
        os.makedirs(self.d)
        try:
            for m in self.moves:
                self.do(m)
        finally:
            shutil.rmtree(self.d, ignore_errors=True)
        return dict(op="session", base=self.base, periods=PERIODS, contents=self.contents, steps=self.steps)


def run_session(c):
    return Session(c).run()


def check_C25(ctx):
    ctx.model_check("SessionRun.tla", ctx.scale("SessionRun_MC.cfg", "SessionRun_MC4.cfg"))
    ctx.model_check("SessionRun.tla", "SessionRun_Reach.cfg", expect_violation="Unreached")
    for way, inv in (("careless", "Kept"), ("silent", "Kept"), ("forgets", "Kept"), ("mixes", "Part")):
        ctx.model_check("SessionRun.tla", f"SessionRun_{way}.cfg", expect_violation=inv)
    rng = ctx.rng
    short = ctx.generate("Session_Gen.tla", "Session_GenAll.cfg", exhaustive=True)
    walks = ctx.generate("Session_Gen.tla", "Session_GenWalk.cfg", num=ctx.scale(900, 9000), depth=60, shards=8)
    gen = rng.sample(short, min(len(short), ctx.scale(500, 6000))) + walks
    cases = [dict(moves=g, seed=rng.random(), micro=rng.random() < 0.3, dir=ctx.path(f"s{i}")) for i, g in enumerate(gen)]
    evs = [e for e in drive(run_session, cases) if e["steps"]]
    ctx.counts["steps"] = sum(len(e["steps"]) for e in evs)
    done = [x for e in evs for x in e["steps"]]
    for op in ("convert", "merge", "edit", "select", "report", "view"):
        ctx.counts[f"{op} done"] = sum(x["op"] == op and x["k"] == "ok" for x in done)
    ctx.counts["tool killed"] = sum(x["k"] == "killed" for x in done)
    ctx.judge("Session_Trace.tla", evs)
    ctx.assumptions += ["samples of all records of a session are on one grid of times per rate, so that merging never moves one",
                        "a killed process leaves what the operating system was given",
                        "damage to a miniSEED 2 file leaves 48 bytes of the record it cuts"]
