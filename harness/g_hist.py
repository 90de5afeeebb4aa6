"""C14: record objects through histories of operations."""
import array
import copy
import datetime
import hashlib
import io
import json
import struct

import numpy as np

import vlib
from vlib import drive, outcome
from rec3lib import *
from g_ehtool import ast, BADEH, doc, leaf
from g_rec3 import steim1_plain
from g_time import inst

from simplemseed import (EncodedDataSegment, FDSNSourceId, MSeed3Header, MSeed3Record, encodeSteim1, encodeSteim2,
                         mseed3merge, readMSeed3Records, unpackMSeed3Record)
from simplemseed.mseed3 import areCompatible

IDS = ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:XX_ABC__L_O_G", "FDSN:CO_JSC_00_H_H_N", "odd é id", ""]


def eh_of(b):
    nid, neh = b[33], b[34] + 256 * b[35]
    eh = b[40 + nid:40 + nid + neh]
    v, err = outcome(lambda: ast(json.loads(eh.decode("utf-8"))) if eh else ast({}))
    return v if err is None else BADEH


def good_fields(rng):
    return dict(flags=rng.choice([0, 1, 4, 255]), nanosecond=rng.randrange(10 ** 6) * 1000, year=rng.randint(1950, 2090),
                dayOfYear=rng.randint(1, 365), hour=rng.randint(0, 23), minute=rng.randint(0, 59), second=rng.randint(0, 59),
                publicationVersion=rng.choice([0, 1, 2, 255]))


def some_eh(rng):
    d = doc(rng, 2)
    if rng.random() < 0.7:
        d["deep"] = {"list": [1, {"x": 2}], "k": "v"}
    return d


def digest(parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:12]


def shown(fn):
    v, err = outcome(fn)
    return v if err is None else "refused"


def view(r):
    """What a record shows, of what is independent of having been packed."""
    h = r.header
    smp = not h.numSamples or 0    # a record made without data has none to show, a read one has 0 samples
    return [shown(f) for f in (
        lambda: str(r.identifier), lambda: str(r.parseIdentifier()), r.summary, lambda: str(r), lambda: inst(r.starttime),
        lambda: inst(r.endtime), lambda: inst(h.starttime), lambda: inst(h.endtime), lambda: repr(float(h.sampleRate)),
        lambda: repr(float(h.samplePeriod)), lambda: int(h.numSamples), lambda: bool(r.hasExtraHeaders()) or bool(r.eh), r.encodingName,
        lambda: bool(h.sanityCheck()), lambda: bool(r.details(showData=not smp)), lambda: json.dumps(r.eh or {}, sort_keys=True), lambda: smp or repr(r.decompress().tolist()),
        lambda: smp or repr(r.decompressedRecord().decompress().tolist()), lambda: smp or bytes(r.encodedDataBytes()).hex())]


class History:
    def __init__(self, rng, moves):
        self.rng = rng
        self.moves = moves
        self.rec = [None] * 5
        self.contents, self.views, self.diffs = [], [], []
        self.index = {}
        self.steps = []

    def content(self, b):
        b = bytes(b)
        if b not in self.index:
            v = shown(lambda: view(unpackMSeed3Record(b)))
            self.contents.append(dict(bytes=list(b), eh=eh_of(b) if len(b) >= 40 else BADEH, shows=digest(v)))
            self.views.append(v)
            self.index[b] = len(self.contents)
        return self.index[b]

    def observe(self, x):
        obs, shows = [], []
        for r in self.rec[1:]:
            if r is None:
                obs.append(0), shows.append("")
                continue
            v = view(copy.deepcopy(r))
            b, err = outcome(lambda: bytes(copy.deepcopy(r).pack()))
            obs.append(self.content(b) if err is None else -1)
            shows.append(digest(v))
            if err is None and self.contents[obs[-1] - 1]["shows"] != shows[-1]:
                self.diffs.append([len(self.steps), v, self.views[obs[-1] - 1]])
        x["obs"], x["shows"] = obs, shows

    def data(self, n=None):
        rng = self.rng
        n = rng.choice([1, 2, 5, 9]) if n is None else n
        vals = [rng.randint(-30000, 30000) for _ in range(n)]
        k = rng.randrange(9)
        if k == 0:
            return vals, rng.choice([1, 3, 4, 5])
        if k == 1:
            return np.array(vals, dtype=rng.choice(["i2", "i4", "f4", "f8", ">i4", ">f8", "i8"])), -1
        if k == 2:
            return array.array(rng.choice("hifd"), vals), -1
        if k in (3, 4):
            return EncodedDataSegment(rng.choice([10, 11]), b"", n, False), vals
        if k == 5:
            return EncodedDataSegment(3, struct.pack(f"<{n}i", *vals), n, True), -1
        if k == 6:
            return bytearray(struct.pack(f"<{n}i", *vals)), (3, n)
        if k == 7:
            return bytes(rng.getrandbits(8) for _ in range(7)), (rng.choice([0, 19, 100]), n)
        return None, -1

    def create(self, x, t, base=None):
        rng = self.rng
        h = MSeed3Header()
        f = good_fields(rng)
        rate = rng.choice([100.0, 20.0, -10.0, 1.0, 0.0])
        ident = rng.choice(IDS)
        data, enc = self.data()
        if base is not None:
            # goes on where base ends
            b = copy.deepcopy(base)
            arr, err = outcome(lambda: np.asarray(b.decompress()))
            per = outcome(lambda: b.header.samplePeriod * (b.header.numSamples if b.header.numSamples else 1))[0]
            if err is None and len(arr) and per is not None:
                nxt = outcome(lambda: b.header.starttime + datetime.timedelta(seconds=per))[0]
                if nxt is not None:
                    y = nxt.timetuple()
                    f.update(year=y.tm_year, dayOfYear=y.tm_yday, hour=y.tm_hour, minute=y.tm_min, second=y.tm_sec,
                             nanosecond=nxt.microsecond * 1000, publicationVersion=b.header.publicationVersion)
                    rate, ident = float(b.header.sampleRatePeriod), str(b.identifier)
                    vals = [int(v) for v in range(1, 4)]
                    kind = {1: "i2", 3: "i4", 4: "f4", 5: "f8", 10: "i4", 11: "i4"}.get(b.header.encoding, "i4")
                    data, enc = np.array(vals, dtype=kind), -1
        for k, v in f.items():
            setattr(h, k, v)
        h.sampleRatePeriod = rate
        if isinstance(enc, tuple):
            h.encoding, h.numSamples = enc
        elif isinstance(enc, list):
            e = encodeSteim1 if data.compressionType == 10 else encodeSteim2
            data = EncodedDataSegment(data.compressionType, bytes(e(enc)), len(enc), False)
        elif enc != -1:
            h.encoding = enc
        k = rng.randrange(4)
        eh = None if k == 0 else some_eh(rng)
        idv = ident
        if ident.startswith("FDSN:") and rng.random() < 0.4:
            idv = FDSNSourceId.parse(ident)
        rec = MSeed3Record(h, idv, data, eh if k < 3 else json.dumps(eh))
        x.update(sets=self.sets(f) + [["rate", list(struct.pack("<d", rate))]], id=list(ident.encode()),
                 eh=ast({} if eh is None else eh))
        self.rec[t] = rec

    @staticmethod
    def sets(f):
        return [[k, list(v.to_bytes(WIDTHS[k], "little"))] for k, v in f.items()]

    def unpack(self, x, t):
        rng = self.rng
        f = dict(good_fields(rng), rate=list(struct.pack("<d", rng.choice([100.0, -10.0, 0.5]))))
        n = rng.choice([1, 3])
        vals = [rng.randint(-1000, 1000) for _ in range(n)]
        enc = rng.choice([1, 3, 4, 5, 10, 100])
        if enc == 10:
            payload = bytes(steim1_plain(vals))
        elif enc == 100:
            payload = b"opaque"
        else:
            payload = struct.pack(f"<{n}{ {1: 'h', 3: 'i', 4: 'f', 5: 'd'}[enc]}", *vals)
        f.update(encoding=enc, numSamples=n)
        k = rng.randrange(3)
        eh = b"" if k == 0 else json.dumps(some_eh(rng), indent=rng.choice([None, 1])).encode()
        b = lay(f, rng.choice(IDS).encode(), eh, payload)
        x["c"] = self.content(b)
        self.rec[t] = unpackMSeed3Record(b) if rng.random() < 0.6 else next(iter(readMSeed3Records(io.BytesIO(b))))

    def look(self, r):
        for fn in (lambda: r.summary(), lambda: str(r), lambda: r.getSize(), lambda: r.starttime, lambda: r.endtime,
                   lambda: r.hasExtraHeaders(), lambda: r.encodedDataBytes(), lambda: r.parseIdentifier(),
                   lambda: r.encodingName(), lambda: r.header.pack(), lambda: r.header.sanityCheck(),
                   lambda: r.header.recordSize(), lambda: r.header.sampleRate, lambda: r.header.samplePeriod,
                   lambda: areCompatible(r, r), lambda: r.header.crcAsHex(), lambda: r.header.endtime):
            if self.rng.random() < 0.7:
                outcome(fn)

    def do(self, m):
        rng = self.rng
        o, s, t, u = m["op"], m["s"], m["t"], m["u"]
        x = dict(op=o, s=s, t=t, u=u, k="ok")
        r = self.rec[s] if s else None
        if s and r is None:
            return None
        if o in ("dec", "merge", "follow") and outcome(lambda: copy.deepcopy(r).pack())[1]:
            return None
        if o in ("create", "unpack"):
            self.rec[t] = None
            _, err = outcome(lambda: self.create(x, t) if o == "create" else self.unpack(x, t))
            x["k"] = err or "ok"
        elif o == "follow":
            _, err = outcome(lambda: self.create(x, t, base=r))
            x["k"] = err or "ok"
            if err:
                self.rec[t] = None
        elif o == "set":
            f = good_fields(rng)
            k = rng.choice(list(f))
            if s and rng.random() < 0.2:
                f["nanosecond"], f["year"] = rng.choice([1, 999999999, 2 ** 32 - 1]), rng.choice([0, 65535])
            f = {k: f[k]}
            for k, v in f.items():
                setattr(r.header, k, v)
            x["sets"] = self.sets(f)
        elif o == "time":
            dt = datetime.datetime(rng.randint(1, 9998), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                                   rng.randint(0, 59), rng.randint(0, 59), rng.randrange(10 ** 6))
            form = rng.randrange(4)
            v = dt.replace(tzinfo=datetime.timezone.utc) if form == 0 else dt.isoformat() + "Z" if form == 1 else \
                dt.isoformat() if form == 2 else (dt + datetime.timedelta(hours=2)).replace(
                    tzinfo=datetime.timezone(datetime.timedelta(hours=2)))
            r.header.starttime = v
            x["sets"] = self.sets(dict(year=dt.year, dayOfYear=dt.timetuple().tm_yday, hour=dt.hour, minute=dt.minute,
                                       second=dt.second, nanosecond=dt.microsecond * 1000))
            # these are set too, so they are good again
        elif o in ("rate", "period"):
            v = rng.choice([1.0, 20.0, 0.25, 100.0])
            if o == "rate":
                if rng.random() < 0.5:
                    r.header.sampleRate = v
                else:
                    v = rng.choice([v, -v, 0.0])
                    r.header.sampleRatePeriod = v
            else:
                r.header.samplePeriod = v
                v = -v
            x["sets"] = [["rate", list(struct.pack("<d", v))]]
        elif o == "ident":
            v = rng.choice(IDS)
            r.identifier = FDSNSourceId.parse(v) if v.startswith("FDSN") and rng.random() < 0.5 else v
            x["id"] = list(v.encode())
        elif o == "ehtext":
            d = some_eh(rng)
            if rng.random() < 0.2:
                d, v = {}, rng.choice(["", "{}", " {}\n"])
            else:
                v = json.dumps(d, ensure_ascii=rng.random() < 0.5)
            r.eh = v
            x["eh"] = ast(d)
        elif o == "ehdict":
            d = some_eh(rng) if rng.random() < 0.85 else {}
            x["eh"] = ast(d)
            r.eh = d
        elif o in ("ehnone", "ehdel"):
            if o == "ehnone":
                r.eh = None
            else:
                del r.eh
            x["eh"] = ast({})
        elif o == "geteh":
            v, err = outcome(lambda: copy.deepcopy(r.eh))
            x["k"] = err or "ok"
            x["eh"] = ast({} if v is None else v)
        elif o in ("mut", "mutdeep"):
            x.update(toks=[], v=ast(None))

            def edit():
                if r.eh is None:
                    r.eh = {}
                e, toks = r.eh, []
                while o == "mutdeep":
                    kids = [k for k in (e if isinstance(e, dict) else range(len(e))) if isinstance(e[k], (dict, list)) and len(e[k])]
                    if not kids or (toks and rng.random() < 0.4):
                        break
                    k = rng.choice(kids)
                    toks.append(cps(str(k)))
                    e = e[k]
                v = leaf(rng)
                k = rng.choice(["new", "a", "deep", "k"]) if isinstance(e, dict) else rng.randrange(len(e))
                e[k] = copy.deepcopy(v)
                x.update(toks=toks + [cps(str(k))], v=ast(v))
            _, err = outcome(edit)
            x["k"] = err or "ok"
        elif o == "pack":
            b, err = outcome(lambda: bytes(r.pack()))
            if err:
                x["k"] = err
            else:
                x["c"] = self.content(b)
                hp, e2 = outcome(lambda: list(bytes(r.header.pack())))
                x["hp"] = hp if e2 is None else []
        elif o == "look":
            self.look(r)
        elif o == "details":
            outcome(lambda: r.details(showExtraHeaders=True, showData=rng.random() < 0.5))
        elif o == "decompress":
            outcome(r.decompress)
            if rng.random() < 0.5:
                outcome(r.decompressedRecord)
        elif o == "hclone":
            was = shown(lambda: bytes(r.header.pack()).hex())
            h, err = outcome(r.header.clone)
            x.update(k=err or "ok", was=was, now=shown(lambda: bytes(h.pack()).hex()) if err is None else err)
            if err is None:
                h.flags, h.year, h.publicationVersion, h.sampleRatePeriod, h.crc, h.numSamples = 77, 1901, 33, 3.25, 1, 9
        elif o == "spoilf":
            k = rng.choice(NUMS)
            setattr(r.header, k, rng.choice([-1, 256 ** WIDTHS[k], 10 ** 30]))
            x["what"] = k
        elif o == "spoilrate":
            r.header.sampleRatePeriod = rng.choice(["fast", None, [1.0]])
            x["what"] = "rate"
        elif o == "spoilid":
            r.identifier = "x" * rng.choice([256, 300, 2000])
            x["what"] = "id"
        elif o == "spoileh":
            r.eh = rng.choice([5, [1, 2], 1.5, True])
        elif o in ("clone", "reread", "restream"):
            def call():
                if o == "clone":
                    return r.clone()
                if o == "reread":
                    return unpackMSeed3Record(bytes(r.pack()))
                return list(readMSeed3Records(io.BytesIO(bytes(r.pack()))))[0]
            self.rec[t], err = outcome(call)
            x["k"] = err or "ok"
        elif o == "dec":
            self.rec[t], err = outcome(r.decompressedRecord)
            x["k"] = err or "ok"
        elif o == "merge":
            q = self.rec[t]
            if q is None or outcome(lambda: copy.deepcopy(q).pack())[1]:
                return None
            v, err = outcome(lambda: mseed3merge(r, q))
            self.rec[u] = v[0] if err is None and len(v) == 1 else None
            x["k"] = err or ("one" if len(v) == 1 else "two")
        elif o == "free":
            self.rec[s] = None
        else:
            raise vlib.CheckError(o)
        self.observe(x)
        return x

    def step(self, m):
        x = self.do(m)
        if x is None:
            # not possible here: the slot that was to get the result is free
            t = m["u"] or m["t"]
            x = self.do(dict(op="free", s=t, t=0, u=0)) if t else None
        if x is not None:
            self.steps.append(x)

    def run(self):
        for m in [dict(op="create" if self.rng.random() < 0.6 else "unpack", s=0, t=1, u=0)] + self.moves:
            if m["op"] == "merge" and self.rng.random() < 0.7:
                # something it may be merged with
                self.step(dict(op="follow", s=m["s"], t=m["t"], u=0))
            self.step(m)
        # whatever is left is really packed at the end
        for s in range(1, 5):
            if self.rec[s] is not None:
                self.steps.append(self.do(dict(op="pack", s=s, t=0, u=0)))
        return dict(op="history", contents=self.contents, steps=self.steps, _diffs=self.diffs)


def run_history(c):
    return History(vlib.random.Random(c["seed"]), c["moves"]).run()


def check_C14(ctx):
    ctx.model_check("RecordRep.tla", "RecordRep_MC.cfg")
    ctx.model_check("RecordRep.tla", "RecordRep_Reach.cfg", expect_violation="Unreached")
    for cfg in ("CloneEh", "CloneH", "DecH", "Merge", "Self"):
        ctx.model_check("RecordRep.tla", f"RecordRep_{cfg}.cfg", expect_violation="Consistent")
    short = ctx.generate("Life_Gen.tla", "Life_GenAll.cfg", exhaustive=True)
    walks = ctx.generate("Life_Gen.tla", "Life_GenWalk.cfg", num=ctx.scale(1600, 16000), depth=120, shards=8)
    cases = [dict(moves=m, seed=ctx.rng.random()) for m in short * ctx.scale(1, 4) + walks]
    ev = drive(run_history, cases)
    ctx.counts["operations"] = sum(len(e["steps"]) for e in ev)
    for e in ev:
        for x in e["steps"]:
            k = "op:" + x["op"] + ("" if x["k"] in ("ok", "one") else "/" + x["k"])
            ctx.counts[k] = ctx.counts.get(k, 0) + 1
    ctx.judge("Life_Trace.tla", ev, cfg="Life_Trace.cfg")
    ctx.assumptions += ["what a record packs to is observed as deepcopy(record).pack()",
                        "extra headers of a record and of its decompressedRecord may be the same object, and are not edited in place",
                        "content of a decompressed or merged record is taken as seen when made (C03, C10 decide it)"]
