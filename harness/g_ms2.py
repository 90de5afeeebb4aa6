"""C15, C16, C17: miniSEED 2 records, streams and conversion to miniSEED 3."""
import contextlib
import copy
import importlib
import io
import json
import os
import struct
import sys
from datetime import datetime, timedelta, timezone

import numpy as np

import vlib
from vlib import drive, outcome
from rec3lib import cps, num, values, rand_ints, rand_len, rand_pattern
from g_rec3 import build_data, rand_data, rand_regex
from g_time import inst

from simplemseed import EncodedDataSegment, MiniseedHeader, MiniseedRecord, encodeSteim1, encodeSteim2, mseed2to3
from simplemseed import miniseed as ms2mod
from simplemseed.miniseed import (Blockette100, Blockette1000, Blockette1001, BlocketteUnknown, BTime,
                                  readMiniseed2Records, unpackMiniseedHeader, unpackMiniseedRecord)

convtool = importlib.import_module("simplemseed.mseed2to3")  # the package has a function of this name


# ---------------------------------------------------------------- presenting records
def byte(v):
    v = int(v)
    return v if 0 <= v <= 255 else -1


def f8(v):
    r, err = outcome(lambda: list(struct.pack(">d", v)))
    return r if err is None else [255] * 8


def proj_blk(b):
    k = type(b).__name__
    if k == "Blockette100":
        return dict(t=int(b.blocketteNum), rate=f8(b.sampleRate))
    if k == "Blockette1000":
        return dict(t=int(b.blocketteNum), enc=int(b.encoding), order=int(b.byteorder), len=int(b.recLength))
    if k == "Blockette1001":
        return dict(t=int(b.blocketteNum), q=int(b.timeQuality), us=int(b.microseconds) % 256, fc=int(b.frameCount))
    return dict(t=int(b.blocketteNum), raw=list(bytes(b.rawBytes))[4:])


def proj2(rec, samples=True):
    h = rec.header
    smp, err = outcome(lambda: rec.decompress() if samples else None)
    if err is not None:
        smp = dict(k="refused", why=err)
    elif smp is None:
        smp = dict(k="none")
    else:
        smp = dict(k="ok", v=values(smp, 1 if h.encoding == 32 else h.encoding))
    tc = int(h.timeCorr)
    return dict(seq=int(h.sequence_number), q=cps(h.dataquality), net=cps(h.network), sta=cps(h.station),
                loc=cps(h.location), cha=cps(h.channel), sid=cps(str(rec.identifier)), n=int(h.numSamples),
                act=int(h.actFlag), io=int(h.ioFlag), qual=int(h.qualFlag),
                tc=list(tc.to_bytes(4, "big", signed=True)) if -2 ** 31 <= tc < 2 ** 31 else [-1],
                enc=int(h.encoding), order=int(h.byteorder), exp=int(h.recordLengthExp), len=int(h.recordLength),
                factor=int(h.sampRateFactor), mult=int(h.sampRateMult), rate=f8(h.sampleRate),
                start=inst(rec.starttime())[:3], blks=[proj_blk(b) for b in rec.blockettes],
                hasData=0 if rec.encodedDataBytes is None else 1,
                pl=[] if rec.encodedDataBytes is None else list(bytes(rec.encodedDataBytes)), smp=smp)


# ---------------------------------------------------------------- laying out foreign records
def blk_bytes(k, nxt, bo):
    t = k["t"]
    h = struct.pack(bo + "HH", t, nxt)
    if t == 100:
        return h + struct.pack(bo + "I", int.from_bytes(bytes(k["rate"]), "big")) + bytes(k.get("tail", [0] * 4))
    if t == 1000:
        return h + bytes([k["enc"], k["order"], k["len"], k.get("res", 0)])
    if t == 1001:
        return h + bytes([k["q"], k["us"], k.get("res", 0), k["fc"]])
    return h + bytes(k["raw"])


def lay2(c):
    """Bytes of a record, independently of the library."""
    bo = ">" if c["big"] else "<"
    out = bytearray(48)
    code = lambda s, n: s.encode().ljust(n)
    struct.pack_into(bo + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", out, 0, b"%06d" % c["seq"], c["q"].encode(),
                     c.get("res", b" "), code(c["sta"], 5), code(c["loc"], 2), code(c["cha"], 3), code(c["net"], 2),
                     *c["bt"], c["n"], c["factor"], c["mult"], c["act"], c["io"], c["qual"], len(c["blks"]), c["tc"],
                     c["doff"], c["boff"])
    off = c["boff"]
    fill = c.get("fill", 0)
    out += bytes([fill]) * (off - 48)
    for i, k in enumerate(c["blks"]):
        size = len(blk_bytes(k, 0, bo))
        last = i == len(c["blks"]) - 1
        nxt = 0 if last else off + size + c["gaps"][i]
        out += blk_bytes(k, nxt, bo)
        if not last:
            out += bytes([fill]) * c["gaps"][i]
        off = nxt
    size = 2 ** c["exp"]
    if c["doff"]:
        assert len(out) <= c["doff"], (len(out), c["doff"])
        out += bytes(c["doff"] - len(out)) + bytes(c["payload"])
    assert len(out) <= size, (len(out), size)
    return bytes(out) + bytes(size - len(out))


def head_size(c):
    off = c["boff"]
    for i, k in enumerate(c["blks"]):
        off += len(blk_bytes(k, 0, ">")) + (c["gaps"][i] if i < len(c["blks"]) - 1 else 0)
    return off


NETS = ["CO", "XX", "IU", "G", "7A"]
STAS = ["JSC", "BIRD", "A", "ANMO1", "HODGE"]
CHANS = ["BHZ", "HHN", "LOG", "VM1", "BHE"]


def rand_codes(rng):
    return dict(net=rng.choice(NETS), sta=rng.choice(STAS), loc=rng.choice(["", "00", "10", "A1", "1"]),
                cha=rng.choice(CHANS))


def rand_bt(rng):
    y = rng.choice([1801, 1900, 1970, 1999, 2000, 2016, 2024, 2047, 2048, 2054, rng.randint(1801, 2054)])
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    doy = rng.choice([1, 59, 60, 365, 366 if leap else 365, rng.randint(1, 365)])
    if y in (1801, 2054):
        doy = rng.choice([59, 60, 200])    # stays away from the years whose byte order cannot be told
    r = rng.random()
    if r < 0.2:
        return [y, doy, 23, 59, rng.choice([59, 60]), rng.choice([9999, 9998, 0])]
    if r < 0.3:
        return [y, doy, 0, 0, 0, 0]
    return [y, doy, rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice([0, 1, 9999, rng.randrange(10000)])]


def f4bytes(v):
    return list(struct.pack(">f", v))


RATES4 = [20.0, 100.0, 0.1, 1.0, 0.01, 39.99, 1000.0, 4000.0, 12.5, 1e-4, 200.00002, 33.333332]


def rand_fm(rng):
    r = rng.random()
    if r < 0.55:
        return rng.choice([(20, 1), (100, 1), (1, 1), (200, -1), (-10, 1), (-100, -1), (1, -3), (-3, 1), (32767, -32767),
                           (-32768, -32768), (32767, 32767), (-32768, 1), (1, -32768), (20000, -800), (0, 0), (0, 1),
                           (0, -1), (-1, -1), (-1, 1), (255, 256), (-256, 255)])
    f, m = [rng.choice([-1, 1]) * rng.choice([rng.randint(1, 100), rng.randint(1, 32767)]) for _ in range(2)]
    return f, m


def rand_blk_unknown(rng):
    t = rng.choice([200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 2000, 999, 1002, 65535, 1])
    n = rng.choice([0, 1, 4, 8, 12, 16, 48, 56])
    return dict(t=t, raw=[rng.choice([0, 3, 0xE8, 7, 100, rng.randrange(256)]) for _ in range(n)])


def rand_payload(rng, room, little, want_data=True):
    """-> enc, order, payload, n for a data region of `room` bytes"""
    enc = rng.choice([1, 1, 3, 3, 4, 5, 10, 11, 11, 10, 0, 32, 30, 16, 19, 100])
    if enc in (10, 11):
        order = 1
        frames = room // 64
        if frames == 0:
            return 1, order, [], 0
        x, items = rng.randint(-1000, 1000), []
        for _ in range(rng.randint(1, min(frames * 40, 300))):
            x += rng.choice([0, 1, -1, 7, -8, 31, -32, 100, -500, 2000, -30000, 2 ** 20 if rng.random() < 0.1 else 3])
            items.append(x)
        for _ in range(40):
            b = bytes((encodeSteim1 if enc == 10 else encodeSteim2)(items))
            if len(b) <= room:
                break
            items = items[:max(1, len(items) * 2 // 3)]
        if len(b) > room:
            return 1, order, [], 0
        return enc, order, list(b), len(items)
    w = {1: 2, 32: 2, 3: 4, 4: 4, 5: 8}.get(enc)
    if w is None:
        n = rng.choice([0, 0, rng.randint(1, max(1, room))]) if enc else rng.randint(0, room)
        return enc, little, [rng.randrange(256) for _ in range(min(room, rng.randint(0, 60)))], n
    n = rng.choice([0, room // w, rng.randint(0, room // w), min(3, room // w)])
    if enc in (1, 32):
        pl = struct.pack(f">{n}h", *rand_ints(rng, 1, n))
    elif enc == 3:
        pl = struct.pack(f">{n}i", *rand_ints(rng, 3, n))
    else:
        pl = b"".join(bytes(rand_pattern(rng, w)) for _ in range(n))
    pl = list(pl)
    if little == 0:
        pl = [v for i in range(0, len(pl), w) for v in pl[i:i + w][::-1]]
    return enc, little, pl, n


def rand_rec(rng, exps=None, us=None):
    c = rand_codes(rng)
    c.update(big=rng.random() < 0.5, seq=rng.choice([0, 1, 999999, rng.randrange(10 ** 6)]), q=rng.choice("DRQMD"),
             bt=rand_bt(rng), act=rng.choice([0, 1, 2, 4, 8, 16, 32, 64, 128, 255, rng.randrange(256)]),
             io=rng.choice([0, 1, 2, 16, 32, 64, 223, 255, rng.randrange(256)]),
             qual=rng.choice([0, 1, 64, 128, 127, 255, rng.randrange(256)]),
             tc=rng.choice([0, 0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randint(-10 ** 5, 10 ** 5)]))
    c["factor"], c["mult"] = rand_fm(rng)
    exp = c["exp"] = rng.choice(exps or [7, 8, 8, 9, 9, 9, 10, 12])
    order = rng.randint(0, 1)
    b1000 = dict(t=1000, enc=0, order=order, len=exp, res=rng.choice([0, 0, 1]))
    blks = [b1000]
    room = 2 ** exp - 64
    left = room - (0 if rng.random() < 0.3 else rng.choice([0, 64]))
    if rng.random() < 0.4:
        blks.append(dict(t=100, rate=f4bytes(rng.choice(RATES4)), tail=[rng.randrange(256)] + [0] * 3))
    if rng.random() < 0.5:
        u = us if us is not None else rng.choice([0, 1, 50, 99, 127, 100, rng.randrange(128), 206, 255, 128])
        blks.append(dict(t=1001, q=rng.choice([0, 1, 90, 100, 255]), us=u, fc=rng.choice([0, 7, 255]),
                         res=rng.choice([0, 0, 9])))
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        blks.append(rand_blk_unknown(rng))
    if exp >= 10 and rng.random() < 0.4:
        # far before or after the blockette 1000
        for _ in range(rng.choice([1, 1, 2])):
            blks.append(dict(t=rng.choice([2000, 4000, 999, 300]), raw=[rng.choice([0, 3, 0xE8])] * rng.choice([300, 470, 600])))
    rng.shuffle(blks)
    if rng.random() < 0.5:
        blks.remove(b1000)
        blks.insert(0, b1000)
    c["boff"] = 48 + rng.choice([0, 0, 0, 4, 8, 16, 1])
    c["fill"] = rng.choice([0, 0, 0xFF, 0x03])
    gaps = [rng.choice([0, 0, 0, 4, 2, 9]) for _ in blks]
    c.update(blks=blks, gaps=gaps)
    while head_size(c) > 2 ** exp:
        k = rng.randrange(len(blks))
        if blks[k] is not b1000:
            del blks[k], gaps[k]
        else:
            c["boff"] = 48
            gaps[:] = [0] * len(gaps)
    h = head_size(c)
    c["payload"], c["doff"], c["n"] = [], 0, 0
    if rng.random() < 0.85:
        at = (h + 63) // 64 * 64 if rng.random() < 0.6 else h + rng.choice([0, 1, 2, 8, 24])
        size = 2 ** exp
        if at <= size:
            if at % 64 and rng.random() < 0.5 or at == size:
                enc, order, pl, n = 1, order, [], 0
                for _ in range(5):
                    enc, order, pl, n = rand_payload(rng, size - at, order)
                    if enc not in (10, 11):
                        break
                else:
                    enc, pl, n = 1, [], 0
            else:
                if at % 64:
                    at = (at + 63) // 64 * 64
                if at > size:
                    at = size
                enc, order, pl, n = rand_payload(rng, size - at, order)
            b1000["enc"], b1000["order"] = enc, order
            c.update(payload=pl, doff=at if at < size else 0, n=n if at < size else 0)
    else:
        b1000["enc"] = rng.choice([0, 1, 10, 11, 3])
    return c


def lens_of(c):
    return [len(k.get("raw", [])) for k in c["blks"]]


# ---------------------------------------------------------------- C16
def run_read(c):
    recs = c["recs"]
    bs = [lay2(r) for r in recs]
    stream = b"".join(bs) + bytes(c["tail"])
    starts, at = [], 0
    for b in bs:
        starts.append(at)
        at += len(b)
    e = dict(op="read", bytes=list(stream), filter=c["filter"][0], starts=starts, lens=[lens_of(r) for r in recs])
    e["_note"] = [c["filter"][1], [{k: v for k, v in r.items() if k != "payload"} for r in recs]]
    got = []
    end = "eof"

    def read():
        nonlocal end
        it = readMiniseed2Records(io.BytesIO(stream), matchsid=c["filter"][1]) if c["filter"][1] is not None \
            else readMiniseed2Records(io.BytesIO(stream))
        for r in it:
            got.append(proj2(r))
            if len(got) > len(recs) + 3:
                end = "endless"
                return
    _, err = outcome(read)
    if err is not None:
        end = "raise"
        e["_note"].append(err)
    e["out"] = dict(recs=got, end=end)
    return e


def read_cases(ctx, n):
    rng = ctx.rng
    out = []
    for i in range(n):
        k = rng.choice([1, 1, 2, 3, 4])
        recs = [rand_rec(rng) for _ in range(k)]
        if rng.random() < 0.3:
            for r in recs:
                r["sta"] = recs[0]["sta"]
        f = ({"t": "none"}, None) if rng.random() < 0.6 else sid_filter(rng, recs)
        out.append(dict(recs=recs, filter=f, tail=[]))
    return out


def sid(c):
    return f"FDSN:{c['net']}_{c['sta']}_{c['loc']}_{c['cha'][0]}_{c['cha'][1]}_{c['cha'][2]}"


def lit(s):
    return dict(t="cat", k=[dict(t="lit", c=ord(x)) for x in s])


def sid_filter(rng, recs):
    s = sid(rng.choice(recs))
    r = rng.random()
    if r < 0.25:
        return lit(s), s
    if r < 0.4:
        p = s[5:].split("_")[1]
        return lit("_" + p + "_"), "_" + p + "_"
    if r < 0.55:
        return dict(t="cat", k=[lit(s[-1]), dict(t="eos")]), s[-1] + "$"
    if r < 0.7:
        n = s[5:].split("_")[0]
        return dict(t="cat", k=[dict(t="bos"), lit("FDSN:" + n + "_")]), "^FDSN:" + n + "_"
    if r < 0.8:
        return dict(t="cat", k=[dict(t="bos"), lit(s), dict(t="eos")]), "^" + s + "$"
    return rand_regex(rng, [sid(c) for c in recs])


def check_C16(ctx):
    ctx.model_check("Mseed2_MC.tla", "Mseed2_MC.cfg")
    ctx.model_check("Mseed2_MC.tla", "Mseed2_OneOrder.cfg", expect_violation="OneOrder")
    cases = read_cases(ctx, ctx.scale(1500, 12000))
    ctx.judge("Ms2_Trace.tla", drive(run_read, cases))
    ctx.assumptions += ["records have a blockette 1000 and a year from which the byte order can be told (1801..2054)",
                        "Steim data are big endian", "start time is the recorded one, the time correction field is not applied"]


# ---------------------------------------------------------------- C17
def x3(b, at):
    """Extra headers of the miniSEED 3 record at `at`, and its size."""
    nid, neh, nda = struct.unpack_from("<BHI", b, at + 33)
    eh = bytes(b[at + 40 + nid:at + 40 + nid + neh])
    x = dict(dq=[], tq=-1, leap=0, other=0)
    try:
        d = json.loads(eh.decode("utf-8")) if eh else {}
        f = d.get("FDSN", {})
        q = f.get("DataQuality", "")
        x["dq"] = cps(q) if isinstance(q, str) else [-1]
        t = f.get("Time", {}).get("Quality", -1)
        x["tq"] = t if isinstance(t, int) and not isinstance(t, bool) else -3
        t = f.get("Time", {}).get("LeapSecond", 0)
        x["leap"] = t if isinstance(t, int) and not isinstance(t, bool) else -3
        known = {("FDSN", "DataQuality"), ("FDSN", "Time", "Quality"), ("FDSN", "Time", "LeapSecond")}

        def others(v, path):
            if path in known:
                return 0
            if isinstance(v, dict) and (v or path == ()):
                return sum(others(w, path + (k,)) for k, w in v.items())
            return 1
        x["other"] = others(d, ())
    except (ValueError, AttributeError):
        x = dict(dq=[-1], tq=-3, leap=-3, other=-1)
    return x, 40 + nid + neh + nda


def run_conv(c):
    b = lay2(c)
    e = dict(op="conv", bytes=list(b), _note={k: v for k, v in c.items() if k != "payload"})

    def conv():
        rec = unpackMiniseedRecord(b) if c.get("how", 0) == 0 else next(readMiniseed2Records(io.BytesIO(b + b)))
        if c.get("touch"):
            outcome(rec.decompress)
        r3 = mseed2to3(rec)
        out = bytes(r3.pack())
        return dict(k="ok", bytes=list(out), x=x3(out, 0)[0])
    r, err = outcome(conv)
    e["out"] = r if err is None else dict(k=err)
    return e


def run_made(c):
    """Convert a record made with the library, never packed; its bytes tell what it is but for time and rate."""
    if c["d"]["src"] == "bytes":
        return None
    e = dict(op="conv", start=start_of(c), _note=str(c))
    if c["rate"] != 0 and not any(k["t"] == 100 for k in c["blks"]):
        e["rate"] = f8(c["rate"])

    def conv():
        rec, _ = make_record(c)
        b = bytes(copy.deepcopy(rec).pack())
        e["bytes"] = list(b)
        if not any(k.blocketteNum == 1000 for k in rec.blockettes):
            rec.blockettes.insert(0, rec.createB1000())
        out = bytes(mseed2to3(rec).pack())
        return dict(k="ok", bytes=list(out), x=x3(out, 0)[0])
    r, err = outcome(conv)
    if "bytes" not in e:
        return None
    e["out"] = r if err is None else dict(k=err)
    return e


def run_tool(c):
    recs = c["recs"]
    stream = b"".join(lay2(r) for r in recs)
    if "cut" in c:
        stream = stream[:c["cut"]]
    e = dict(op="tool", bytes=list(stream), cut=1 if "cut" in c else 0, _note=[{k: v for k, v in r.items() if k != "payload"} for r in recs])
    d = vlib.CTX.path(f"tool-{c['i']}")
    os.makedirs(d)
    f2, f3 = os.path.join(d, "in.ms2"), os.path.join(d, "out.ms3")
    with open(f2, "wb") as f:
        f.write(stream)
    if c["old"]:
        with open(f3, "wb") as f:
            f.write(b"MS\x03 something older" * 200)
    argv = sys.argv
    opts = [["-2", f2, "-3", f3], ["--ms3", f3, "--ms2", f2], ["-v", "-2", f2, "-3", f3]][c["style"]]

    def tool():
        sys.argv = ["mseed2to3"] + opts
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                rc = convtool.main()
            except SystemExit as x:
                rc = x.code
            except Exception as x:
                if not e["cut"]:
                    raise
                rc = repr(x)
        if rc and not e["cut"]:
            raise ValueError(f"exit {rc}")
        with open(f3, "rb") as f:
            out = f.read()
        with open(f2, "rb") as f:
            same = 1 if f.read() == stream else 0
        xs, at = [], 0
        while at + 40 <= len(out) and len(xs) <= len(recs):
            x, n = x3(out, at)
            xs.append(x)
            at += n
        return dict(k="ok" if not rc else "failed", bytes=list(out), xs=xs, same=same)
    r, err = outcome(tool, secs=20)
    sys.argv = argv
    e["out"] = r if err is None else dict(k=err)
    import shutil
    shutil.rmtree(d)
    return e


def check_C17(ctx):
    rng = ctx.rng
    ctx.model_check("Mseed2_MC.tla", "Mseed2_MC.cfg")
    cases = []
    for i in range(ctx.scale(2500, 20000)):
        c = rand_rec(rng)
        if rng.random() < 0.3:
            # one flag bit at a time
            c["act"], c["io"], c["qual"] = 0, 0, 0
            c[rng.choice(["act", "io", "qual"])] = 1 << rng.randrange(8)
        c["how"], c["touch"] = rng.randrange(2), rng.random() < 0.3
        cases.append(c)
    ev = drive(run_conv, cases)
    ev += [x for x in drive(run_made, [rt_case(rng) for _ in range(ctx.scale(500, 4000))]) if x]
    tools = [dict(recs=[rand_rec(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))], i=i, style=rng.randrange(3),
                  old=rng.random() < 0.5) for i in range(ctx.scale(120, 1200))]
    ev += drive(run_tool, tools)
    ctx.judge("Ms2_Trace.tla", ev)
    ctx.assumptions += ["records have a blockette 1000 and a year from which the byte order can be told (1801..2054)",
                        "Steim data are big endian", "start time is the recorded one, the time correction field is not applied"]


# ---------------------------------------------------------------- C15
def rand_rate2(rng):
    """-> kind, k, value"""
    r = rng.random()
    if r < 0.3:
        k = rng.choice([1, 20, 40, 100, 200, 500, 1000, 4000, 32000, 31999, rng.randint(1, 32000)])
        return "hz", k, float(k)
    if r < 0.5:
        k = rng.choice([1, 2, 3, 7, 10, 60, 3600, 32000, 31999, rng.randint(1, 32000)])
        return "period" if k > 1 else "hz", k, 1.0 / k
    if r < 0.9:
        v = rng.choice([0.1, 0.5, 12.5, 39.99, 33.3333, 1.0000001, 0.99999, 32000.0, 1 / 32000, 1.5, 2 / 3, 181.0 / 7,
                        16383.5, 31999.9, 10 ** rng.uniform(-4.5, 4.5), 10 ** rng.uniform(-4.5, 4.5), rng.uniform(0.5, 2),
                        rng.uniform(1, 400)])
        return "any", 0, v
    return "any", 0, rng.choice([32000.5, 32765.0, 32766.0, 32767.0, 40000.0, 1e6, 1e-6, 1 / 32001, 1 / 32766, 1 / 40000, -1.0,
                                 -20.0, float("nan"), float("inf"), 1e300, 5e-324])


def rt_case(rng, spoil=False):
    c = rand_codes(rng)
    d = rand_data(rng)
    while d["src"] in ("i8", "u4", "u8") and rng.random() < 0.9:
        d = rand_data(rng)
    if d["src"] == "bytes":
        d["enc"] = rng.choice([0, 1, 3, 4, 5, 10, 11, 19, 30, 100, 255])
    rb = rand_bt(rng)
    t = datetime(rb[0], 1, 1, tzinfo=timezone.utc) + timedelta(days=rb[1] - 1, seconds=rb[2] * 3600 + rb[3] * 60 + min(rb[4], 59),
                                                            microseconds=rb[5] * 100 + rng.choice([0, 0, 1, 50, 99, 37]))
    kind, k, rate = rand_rate2(rng)
    factor = mult = 0
    if rng.random() < 0.25:
        while factor == 0:
            factor, mult = rand_fm(rng)
        kind, k, rate = "any", 0, 0.0
    c.update(d=d, t=t, bt=None, rate=rate, rk=kind, rkk=k, factor=factor, mult=mult, bo=rng.randint(0, 1),
             seq=rng.choice([0, 1, 42, 999999, rng.randrange(10 ** 6)]), q=rng.choice("DRQMD"),
             act=rng.choice([0, 1, 2, 255, rng.randrange(256)]), io=rng.choice([0, 32, 255, rng.randrange(256)]),
             qual=rng.choice([0, 128, 255, rng.randrange(256)]), tc=rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 12345, -99999]),
             exp=rng.choice([7, 8, 9, 9, 9, 10, 11, 12]), n=0, tz=rng.random() < 0.3, how=rng.randrange(3))
    if rng.random() < 0.2:
        c["bt"] = rb
        c["t"] = None
    if d["src"] == "bytes":
        c["n"] = rng.choice([0, 1, 5, 65535, 1000])
    elif rng.random() < 0.3:
        c["n"] = d["count"]
    blks = []
    if rng.random() < 0.3:
        blks.append(dict(t=1000))
    if rng.random() < 0.3:
        blks.append(dict(t=100, rate=f4bytes(rng.choice(RATES4))))
    if rng.random() < 0.4:
        blks.append(dict(t=1001, q=rng.choice([0, 100, 255]), us=rng.choice([0, 1, 50, 99]), fc=rng.choice([0, 7, 255])))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        blks.append(rand_blk_unknown(rng))
    rng.shuffle(blks)
    c["blks"] = blks
    c["noblks"] = not blks and rng.random() < 0.5
    if rng.random() < 0.25:
        # around the capacity of the record
        fit(rng, c)
    c["unset"] = []
    if rng.random() < 0.3:
        # fields that the program does not set
        c["unset"] = [k for k in list(FRESH) + ["exp"] if rng.random() < 0.5]
        c.update({k: v for k, v in FRESH.items() if k in c["unset"]})
        if "exp" in c["unset"]:
            c["exp"] = 9
    if spoil:
        spoil2(rng, c)
    return c


# a header of which only the codes, start, count and rate are given: big endian, quality D, 512 byte records
FRESH = dict(act=0, io=0, qual=0, tc=0, seq=0, q="D", bo=1)
ARGS = dict(act="actFlag", io="ioFlag", qual="qualFlag", tc="timeCorr", seq="sequence_number", q="dataquality", bo="byteorder")


def fit(rng, c):
    d = c["d"]
    c["exp"] = rng.choice([7, 8, 9])
    head = 48 + sum(len(blk_bytes(dict(k, **(dict(enc=0, order=0, len=0) if k["t"] == 1000 else {})), 0, ">")) for k in c["blks"])
    if not any(k["t"] == 1000 for k in c["blks"]):
        head += 8
    e = rng.choice([1, 3, 4, 5])
    w = {1: 2, 3: 4, 4: 4, 5: 8}[e]
    n = max(0, (2 ** c["exp"] - head) // w + rng.choice([0, 0, -1, 1, 2]))
    d.update(src=rng.choice(["list", {1: "i2", 3: "i4", 4: "f4", 5: "f8"}[e]]), enc=e, count=n, wide=0, segenc=0, payload=[])
    if e in (1, 3):
        d.update(kind="int", items=rand_ints(rng, e, n))
    else:
        d.update(kind="pat", items=[rand_pattern(rng, w) for _ in range(n)])
    c["n"] = 0


def spoil2(rng, c):
    d = c["d"]
    w = rng.randrange(13)
    if w == 0:
        k, v = rng.choice([("net", "ABC"), ("sta", "ABCDEF"), ("loc", "000"), ("cha", "BHZZ"), ("sta", "LONGSTATION"), ("cha", "BHZ9_")])
        c[k] = v
    elif w == 1:
        c["seq"] = rng.choice([10 ** 6, 10 ** 6 + 5, 2 ** 31])
    elif w == 2:
        c["q"] = rng.choice(["DD", "QR", "D "])
    elif w == 3:
        k = rng.choice(["act", "io", "qual"])
        c[k] = rng.choice([256, -1, 300, 511])
    elif w == 4:
        c["tc"] = rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 32])
    elif w == 5 and d["src"] != "none":
        c["n"] = max(1, d["count"] + rng.choice([1, -1, 65536, 65535])) if d["src"] != "bytes" else rng.choice([65536, 70000, 2 ** 32])
    elif w == 6:
        c["exp"] = 7
        c["blks"] = [rand_blk_unknown(rng) for _ in range(3)] + c["blks"]
        c["noblks"] = False
    elif w == 7:
        d.update(src="list", kind="int", enc=1, segenc=0, payload=[], items=[0, rng.choice([32768, -32769, 65535, 32767, -32768]), 5], count=3)
        c["n"] = 0
    elif w == 8:
        raw = [1, 2, rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 40]), 4]
        d.update(src="list", kind="int", enc=3, wide=1, items=[0] * 4, raw=raw, count=4, segenc=0, payload=[])
        c["n"] = 0
    elif w == 9:
        c["blks"] = [b for b in c["blks"] if b["t"] != 1001] + [dict(t=1001, q=rng.choice([0, 256, -1]), us=rng.choice([0, 50]),
                                                                    fc=rng.choice([256, 300, 0]))]
        c["noblks"] = False
    elif w == 12:
        # an encoding in the header that is not the one of the data
        src, enc, items = rng.choice([
            ("i4", 1, [1, 40000, -3]), ("i4", 1, [1, 2, -3]), ("i2", 3, [1, 2, -3]), ("arr:i", 1, [5, -40000, 7]), ("i4", 4, [16777217, 1, 2]),
            ("i4", 11, [1, 2, 3]), ("i4", 10, [1, 2, 3]), ("i4", 5, [1, 2, 3]), ("arr:h", 4, [1, 2, 3])])
        kind = "int"
        if rng.random() < 0.4:
            src, enc, items = rng.choice([("f4", 3, [1.5, 2.25, 1e9]), ("f4", 1, [1.5, 70000.0, 1.0]), ("f8", 4, [1e300, 0.1, 1.0]),
                                          ("f8", 3, [0.5, 1e10, 1.0]), ("arr:d", 1, [0.5, 1.0, 1.0]), ("arr:f", 3, [0.25, 1.0, 3.0])])
            kind, items = "pat", [list(struct.pack(">f" if src in ("f4", "arr:f") else ">d", x)) for x in items]
        d.update(src=src, kind=kind, enc=enc, items=items, count=3, wide=0, segenc=0, payload=[])
        c["n"] = 0
    elif w == 11:
        # floats that integers cannot hold
        d.update(src="list", kind="pat", enc=rng.choice([1, 3]), segenc=0, payload=[], count=2, wide=0,
                 items=[f4bytes(1.5), f4bytes(rng.choice([2.0, -0.25]))])
        c["n"] = 0
    elif w == 10:
        # data that need more than the record has
        n = rng.choice([100, 300, 600])
        d.update(src=rng.choice(["list", "i4"]), kind="int", enc=3, items=rand_ints(rng, 3, n), count=n, segenc=0, payload=[])
        c["exp"], c["n"] = rng.choice([7, 8, 9]), 0
    return c


def make_record(c):
    d = c["d"]
    if c["bt"] is not None:
        start = BTime(*c["bt"])
    else:
        start = c["t"]
        if c["tz"]:
            start = start.astimezone(timezone(timedelta(hours=5, minutes=30)))
    unset = c.get("unset", [])
    kw = {a: c[k] for k, a in ARGS.items() if k not in unset or c[k] != FRESH[k]}
    if d["enc"] != -1 or not unset:
        kw["encoding"] = d["enc"]
    if c["factor"] != 0 or not unset:
        kw.update(sampRateFactor=c["factor"], sampRateMult=c["mult"])
    h = MiniseedHeader(c["net"], c["sta"], c["loc"], c["cha"], start, c["n"], c["rate"], **kw)
    if c["exp"] != 9 or "exp" not in unset:
        h.recordLengthExp = c["exp"]
        h.recordLength = 2 ** c["exp"]
    bo = h.endianChar
    bl = []
    for k in c["blks"]:
        if k["t"] == 1000:
            bl.append(None)
        elif k["t"] == 100:
            bl.append(Blockette100(100, 0, struct.unpack(">f", bytes(k["rate"]))[0]))
        elif k["t"] == 1001:
            bl.append(Blockette1001(1001, 0, k["q"], k["us"], k["fc"]))
        else:
            bl.append(BlocketteUnknown(k["t"], 0, struct.pack(bo + "HH", k["t"], 0) + bytes(k["raw"])))
    data = build_data(d)
    kw = {} if c["noblks"] else dict(blockettes=bl)
    if d["src"] == "bytes" and c["how"] == 1:
        rec = MiniseedRecord(h, None, encodedDataBytes=bytes(d["payload"]), **kw)
    else:
        rec = MiniseedRecord(h, data, **kw)
    for i, b in enumerate(bl):
        if b is None:
            bl[i] = rec.createB1000()
    return rec, data


def start_of(c):
    if c["bt"] is not None:
        y, doy, hh, mi, s, ten = c["bt"]
        st = datetime(y, 1, 1) + timedelta(days=doy - 1, hours=hh, minutes=mi, seconds=s, microseconds=ten * 100)
    else:
        st = c["t"].replace(tzinfo=None)
    return [st.toordinal() - 1, st.hour * 3600 + st.minute * 60 + st.second, st.microsecond]


def run_rt(c):
    d = c["d"]
    start = start_of(c)
    blks = [dict(k, enc=0, order=0, len=0) if k["t"] == 1000 else k for k in c["blks"]]
    e = dict(op="rt", net=cps(c["net"]), sta=cps(c["sta"]), loc=cps(c["loc"]), cha=cps(c["cha"]), seq=num(c["seq"]), q=cps(c["q"]),
             start=start, n=num(c["n"]), rate=[0] * 8 if c["rate"] == 0 else f8(c["rate"]), rk=c["rk"], rkk=c["rkk"], factor=c["factor"],
             mult=c["mult"], act=num(c["act"]), io=num(c["io"]), qual=num(c["qual"]), tc=num(c["tc"]), enc=d["enc"],
             exp=c["exp"], src=d["src"], kind=d["kind"], items=d["items"], wide=d["wide"], segenc=d["segenc"],
             payload=d["payload"], count=d["count"], blks=blks)

    def go():
        rec, data = make_record(c)
        if c["how"] == 2:
            outcome(rec.decompress)
        b = bytes(rec.pack())
        back = unpackMiniseedRecord(b)
        r = proj2(back)
        # the rate of the header, without blockette 100
        hh = unpackMiniseedHeader(b, ">" if 1801 <= b[20] * 256 + b[21] <= 2054 else "<")
        r["nrate"] = f8(hh.sampleRate)
        return dict(k="ok", bytes=list(b), r=r)
    r, err = outcome(go)
    e["out"] = r if err is None else dict(k=err)
    return e


def run_rate(c):
    kind, k, v = c
    e = dict(op="rate", rk=kind, rkk=k, rate=f8(v), _note=repr(v))

    def go():
        h = MiniseedHeader("CO", "JSC", "00", "BHZ", datetime(2024, 1, 1), 0, v, byteorder=k % 2)
        b = bytes(h.pack())
        hh = unpackMiniseedHeader(b, ">" if k % 2 == 1 else "<")
        f, m = struct.unpack_from((">" if k % 2 == 1 else "<") + "hh", b, 32)
        return dict(k="ok", f=f, m=m, x=f8(hh.sampleRate))
    r, err = outcome(go)
    e["out"] = r if err is None else dict(k=err)
    return e


def run_again(c):
    b = lay2(c)
    e = dict(op="again", bytes=list(b), lens=lens_of(c), _note={k: v for k, v in c.items() if k != "payload"})

    def go():
        rec = unpackMiniseedRecord(b)
        if c["touch"]:
            outcome(rec.decompress)
        if c["how"]:
            rec = rec.clone()
        out = bytes(rec.pack())
        return dict(k="ok", bytes=list(out))
    r, err = outcome(go)
    e["out"] = r if err is None else dict(k=err, bytes=list(b))
    return e


def check_C15(ctx):
    rng = ctx.rng
    ctx.model_check("Mseed2_MC.tla", "Mseed2_MC.cfg")
    ev = drive(run_rt, [rt_case(rng, spoil=i % 4 == 3) for i in range(ctx.scale(3000, 25000))])
    again = [dict(rand_rec(rng), touch=rng.random() < 0.3, how=rng.random() < 0.3) for _ in range(ctx.scale(1200, 10000))]
    ev += drive(run_again, again)
    ctx.judge("Ms2_Trace.tla", ev)
    rates = [("hz", k, float(k)) for k in range(1, 32001)] + [("period", k, 1.0 / k) for k in range(2, 32001)]
    if not ctx.thorough:
        rates = [r for r in rates if r[1] < 50 or r[1] > 31950 or rng.random() < 0.06]
    rates += [("any", i, 10 ** rng.uniform(-4.505, 4.505)) for i in range(ctx.scale(2000, 40000))]
    rates += [("any", i, 1.0 + rng.uniform(-0.01, 0.01)) for i in range(200)]
    ctx.judge("Ms2_Trace.tla", drive(run_rate, rates))
