"""C23: miniSEED 2 record objects through histories of operations."""
import copy
import io
import struct
from datetime import datetime, timedelta, timezone

import vlib
from vlib import drive, outcome
from rec3lib import cps
import g_ms2
from g_ms2 import convtool, f4bytes, f8
from g_time import inst
from g_hist import digest, shown

from simplemseed.miniseed import (Blockette100, Blockette1001, BlocketteUnknown, BTime, readMiniseed2Records,
                                  unpackMiniseedRecord)

ATTR = dict(seq="sequence_number", quality="dataquality", network="network", station="station", location="location",
            channel="channel", act="actFlag", io="ioFlag", qual="qualFlag", timeCorr="timeCorr", n="numSamples")
RATES = [1.0, 20.0, 100.0, 0.25, 40.0, 0.1, 12.5, 1 / 60, 200.0, 39.99, 31999.0, 1 / 3600, 0.0]


def good(rng, k):
    return {"seq": lambda: rng.choice([0, 1, 7, 999999, rng.randrange(10 ** 6)]), "quality": lambda: rng.choice("DRQM"),
            "network": lambda: rng.choice(["CO", "X", "IU", "X "]), "station": lambda: rng.choice(["JSC", "BIRD", "HODGE", "A", "JSC  "]),
            "location": lambda: rng.choice(["00", "", "1", "10", "  ", "0 "]), "channel": lambda: rng.choice(["BHZ", "HNE", "LOG"]),
            "act": lambda: rng.randrange(256), "io": lambda: rng.randrange(256), "qual": lambda: rng.randrange(256),
            "timeCorr": lambda: rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randint(-99999, 99999)])}[k]()


def bad(rng, k):
    return {"seq": lambda: rng.choice([10 ** 6, 10 ** 9]), "quality": lambda: rng.choice(["DD", "QR"]),
            "network": lambda: "ABC", "station": lambda: rng.choice(["ABCDEF", "LONGSTATION"]), "location": lambda: "000",
            "channel": lambda: rng.choice(["BHZZ", "BHZ_9"]), "act": lambda: rng.choice([256, -1]),
            "io": lambda: rng.choice([256, -1]), "qual": lambda: rng.choice([300, -128]),
            "timeCorr": lambda: rng.choice([2 ** 31, -2 ** 31 - 1]), "n": lambda: rng.choice([65536, 70000, -1])}[k]()


def enc_val(k, v):
    if k in ("seq", "act", "io", "qual", "n"):
        return v
    if k == "timeCorr":
        return list(struct.pack(">i", v))
    return cps(v.rstrip(" "))


def view(r, other=None):
    """What a record shows, of what is independent of having been packed; durations if other has the same rate."""
    h = r.header
    same = other is not None and shown(lambda: other.header.sampleRate) == shown(lambda: h.sampleRate)
    smp = not h.numSamples or 0
    return [shown(f) for f in (
        r.codes, lambda: r.codes(sep="_"), h.codes, lambda: str(r.identifier), lambda: str(h.fdsnSourceId()), lambda: int(h.numSamples),
        lambda: same and repr(r.endtime() - r.starttime()), lambda: same and repr(r.next_starttime() - r.starttime()),
        lambda: same and repr(h.samplesDuration(7)), lambda: smp or repr(r.decompress().tolist()),
        lambda: smp or repr(r.decompressed().tolist()), lambda: same and r.summary().split(" ")[0],
        lambda: smp or repr(convtool.mseed2to3(r).decompress().tolist()), lambda: str(convtool.mseed2to3(r).identifier),
        lambda: h.encoding)]


class History:
    def __init__(self, rng, moves):
        self.rng, self.moves = rng, moves
        self.rec = [None] * 5
        self.spoilt = [{} for _ in range(5)]
        self.contents, self.index, self.steps, self.diffs = [], {}, [], []

    def content(self, b):
        b = bytes(b)
        if b not in self.index:
            self.contents.append(list(b))
            self.index[b] = len(self.contents)
        return self.index[b]

    def observe(self, x):
        obs, start, rate, shows, again = [], [], [], [], []
        for r in self.rec[1:]:
            if r is None:
                obs.append(0), start.append([]), rate.append([]), shows.append(""), again.append("")
                continue
            b, err = outcome(lambda: bytes(copy.deepcopy(r).pack()))
            obs.append(self.content(b) if err is None else -1)
            shows.append(""), again.append("")
            if err is None:
                q, err = outcome(lambda: unpackMiniseedRecord(b))
                if err is None:
                    v, w = view(copy.deepcopy(r), q), view(q, r)
                    if v[9] == "refused":     # bytes given that are too few, filled up when packed
                        v[9] = v[10] = v[12] = w[9] = w[10] = w[12] = None
                    if v[-2] == "refused":    # not converted until it has a blockette 1000
                        v[-3] = v[-2] = w[-3] = w[-2] = None
                    shows[-1], again[-1] = digest(v), digest(w)
                    if v != w:
                        self.diffs.append([len(self.steps), v, w])
            st, err = outcome(lambda: inst(r.starttime())[:3])
            start.append(st if err is None else [])
            rate.append(f8(r.header.sampleRate))
        x.update(obs=obs, start=start, rate=rate, shows=shows, again=again)

    def create(self, x, t):
        rng = self.rng
        c = g_ms2.rt_case(rng)
        c["exp"] = rng.choice([7, 8, 8, 9]) if "exp" not in c["unset"] else 9
        c["blks"] = [b for b in c["blks"] if b["t"] != 1000][:2]
        c["noblks"] = c["noblks"] and not c["blks"]
        for b in c["blks"]:
            if b["t"] == 100:
                b["rate"] = f4bytes(rng.choice([1.0, 20.0, 99.5]))
        self.rec[t] = g_ms2.make_record(c)[0]
        st, err = outcome(lambda: g_ms2.start_of(c))
        x.update(at0=st, hz=[] if c["rate"] == 0 else f8(c["rate"]))

    def read(self, x, t):
        rng = self.rng
        c = g_ms2.rand_rec(rng, exps=[7, 8, 8, 9], us=rng.choice([0, 1, 50, 99]))
        for b in c["blks"]:
            if b["t"] == 100:
                b["rate"] = f4bytes(rng.choice([1.0, 20.0, 99.5]))
        b = g_ms2.lay2(c)
        x["c"] = self.content(b)
        self.rec[t] = unpackMiniseedRecord(b) if rng.random() < 0.5 else next(iter(readMiniseed2Records(io.BytesIO(b))))

    def look(self, r):
        h = r.header
        for fn in (r.summary, lambda: str(r), r.details, lambda: r.details(showData=True), r.decompress, r.decompressed,
                   r.codes, lambda: r.codes(sep="_"), lambda: str(r.identifier), r.starttime, r.endtime, r.next_starttime,
                   lambda: convtool.mseed2to3(r), lambda: convtool.mseed2to3(r).pack(), h.pack, h.codes, h.fdsnSourceId,
                   h.calcSeedMultipilerFactor, lambda: h.samplesDuration(7), r.createB1000, r.createB100, r.createB1001):
            if self.rng.random() < 0.6:
                outcome(fn)

    def blockette(self, r, x):
        """adds one; where it is counts without the blockette 1000"""
        rng = self.rng
        kind = rng.choice(["made100", "made1001", "made1001", "made1000", 100, 1001, "unk", "unk"])
        has = [b.blocketteNum for b in r.blockettes]
        if kind == "made1000" and 1000 in has:
            kind = "made1001"
        if kind == "made1001" and 1001 in has:
            kind = "unk"
        if kind == "made100":
            if not r.header.sampleRate > 0:
                kind = "unk"
        if kind == "made1000":
            b, x["blk"] = r.createB1000(), dict(t=1000)
        elif kind == "made100":
            b, x["blk"] = r.createB100(), dict(t=100, made=1)
        elif kind == "made1001":
            b, x["blk"] = r.createB1001(), dict(t=1001, made=1)
        elif kind == 100:
            f = f4bytes(rng.choice([1.0, 20.0, 33.25]))
            b, x["blk"] = Blockette100(100, 0, struct.unpack(">f", bytes(f))[0]), dict(t=100, rate=f)
        elif kind == 1001:
            k = dict(t=1001, q=rng.randrange(101), us=rng.choice([0, 1, 37, 99]), fc=rng.choice([0, 7]))
            b, x["blk"] = Blockette1001(1001, 0, k["q"], k["us"], k["fc"]), k
        else:
            k = g_ms2.rand_blk_unknown(rng)
            k["raw"] = k["raw"][:rng.choice([0, 4, 8])]
            b, x["blk"] = BlocketteUnknown(k["t"], 0, struct.pack(r.header.endianChar + "HH", k["t"], 0) + bytes(k["raw"])), k
        i = rng.choice([0, len(r.blockettes), rng.randint(0, len(r.blockettes))])
        x["at"] = sum(1 for k in has[:i] if k != 1000)
        r.blockettes.insert(i, b)

    def do(self, m):
        rng = self.rng
        o, s, t = m["op"], m["s"], m["t"]
        x = dict(op=o, s=s, t=t, k="ok")
        r = self.rec[s] if s else None
        if s and r is None:
            return None
        if o in ("create", "read"):
            self.rec[t], self.spoilt[t] = None, {}
            _, err = outcome(lambda: self.create(x, t) if o == "create" else self.read(x, t))
            if not err and o == "create":
                _, err = outcome(lambda: copy.deepcopy(self.rec[t]).pack())   # C15 decides whether it should
            x["k"] = err or "ok"
            if err:
                self.rec[t] = None
        elif o in ("setf", "mend"):
            k = rng.choice([k for k in ATTR if k != "n"])
            if o == "mend":
                if not self.spoilt[s]:
                    return None
                k = rng.choice(list(self.spoilt[s]))
            if k == "rate":
                return self.do(dict(op="rate", s=s, t=0))
            old = self.spoilt[s].pop(k, None)
            v = old if k == "n" else good(rng, k)
            setattr(r.header, ATTR[k], v)
            x.update(op="setf", name=k, v=enc_val(k, v))
        elif o == "time":
            dt = datetime(rng.randint(1901, 2050), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                          rng.randint(0, 59), rng.choice([0, rng.randrange(10 ** 6), rng.randrange(10 ** 4) * 100, 999999]))
            form = rng.randrange(5)
            if form == 4:
                dt = dt.replace(microsecond=dt.microsecond // 100 * 100)
            y = dt.timetuple()
            v = [dt, dt.replace(tzinfo=timezone.utc), dt.isoformat() + "Z",
                 (dt + timedelta(hours=2)).replace(tzinfo=timezone(timedelta(hours=2))),
                 BTime(dt.year, y.tm_yday, dt.hour, dt.minute, dt.second, dt.microsecond // 100)][form]
            _, err = outcome(lambda: r.header.setStartTime(v))
            x.update(k=err or "ok", at0=inst(dt.replace(tzinfo=timezone.utc))[:3])
        elif o == "rate":
            v = rng.choice(RATES)
            _, err = outcome(lambda: r.header.setSampleRate(v))
            self.spoilt[s].pop("rate", None)
            x.update(k=err or "ok", v=f8(v))
        elif o == "grow":
            e = min(10, r.header.recordLengthExp + rng.choice([0, 1, 1]))
            r.header.recordLengthExp, r.header.recordLength = e, 2 ** e
            x["exp"] = e
        elif o == "addb":
            _, err = outcome(lambda: self.blockette(r, x))
            x["k"] = err or "ok"
        elif o == "delb":
            if not r.blockettes:
                return None
            i = rng.randrange(len(r.blockettes))
            x["at"] = 0 if r.blockettes[i].blocketteNum == 1000 else sum(1 for b in r.blockettes[:i + 1] if b.blocketteNum != 1000)
            del r.blockettes[i]
        elif o == "spoil":
            k = rng.choice(list(ATTR) + ["rate"])
            if k == "rate":
                r.header.setSampleRate(rng.choice([-5.0, -100.0]))
                self.spoilt[s][k] = 0
            else:
                self.spoilt[s].setdefault(k, getattr(r.header, ATTR[k]))
                setattr(r.header, ATTR[k], bad(rng, k))
            x["what"] = k
        elif o == "look":
            self.look(r)
        elif o == "pack":
            b, err = outcome(lambda: bytes(r.pack()))
            if err:
                x["k"] = err
            else:
                x["c"] = self.content(b)
        elif o in ("clone", "reread", "restream"):
            def call():
                if o == "clone":
                    return r.clone()
                if o == "reread":
                    return unpackMiniseedRecord(bytes(r.pack()))
                return list(readMiniseed2Records(io.BytesIO(bytes(r.pack()) + bytes(self.rng.choice([0, 7])))))[0]
            self.rec[t], err = outcome(call)
            x["k"] = err or "ok"
            self.spoilt[t] = {}
        elif o == "free":
            self.rec[s], self.spoilt[s] = None, {}
        else:
            raise vlib.CheckError(o)
        self.observe(x)
        return x

    def step(self, m):
        x = self.do(m)
        if x is None and m["t"]:
            x = self.do(dict(op="free", s=m["t"], t=0))
        if x is not None:
            self.steps.append(x)

    def run(self):
        for m in [dict(op="create" if self.rng.random() < 0.5 else "read", s=0, t=1)] + self.moves:
            self.step(m)
        for s in range(1, 5):
            if self.rec[s] is not None:
                self.steps.append(self.do(dict(op="pack", s=s, t=0)))
        return dict(op="history", contents=self.contents, steps=self.steps, _diffs=self.diffs)


def run_history(c):
    return History(vlib.random.Random(c["seed"]), c["moves"]).run()


def check_C23(ctx):
    ctx.model_check("Ms2Rep.tla", "Ms2Rep_MC.cfg" if ctx.thorough else "Ms2Rep_Small.cfg")
    ctx.model_check("Ms2Rep.tla", "Ms2Rep_Reach.cfg", expect_violation="Unreached")
    for cfg in ("Stale", "Share", "Twice"):
        ctx.model_check("Ms2Rep.tla", f"Ms2Rep_{cfg}.cfg", expect_violation="Consistent")
    short = ctx.generate("Ms2Life_Gen.tla", "Ms2Life_GenAll.cfg", exhaustive=True)
    walks = ctx.generate("Ms2Life_Gen.tla", "Ms2Life_GenWalk.cfg", num=ctx.scale(1200, 12000), depth=120, shards=8)
    if not ctx.thorough:
        short = ctx.rng.sample(short, min(len(short), 1200))
    cases = [dict(moves=m, seed=ctx.rng.random()) for m in short + walks]
    ev = drive(run_history, cases)
    ctx.counts["operations"] = sum(len(e["steps"]) for e in ev)
    for e in ev:
        for x in e["steps"]:
            k = "op:" + x["op"] + ("" if x["k"] == "ok" else "/" + x["k"])
            ctx.counts[k] = ctx.counts.get(k, 0) + 1
    ctx.judge("Ms2Life_Trace.tla", ev, cfg="Ms2Life_Trace.cfg")
    ctx.assumptions += ["what a record packs to is observed as deepcopy(record).pack()",
                        "content of a new record is taken as seen when made (C15, C16 decide it)",
                        "a blockette 100 is packed as it is, also when the rate of the header is set later"]
