"""C24: streams that are cut off or hold arbitrary bytes."""
import io
import os
import struct

import vlib
from vlib import drive, outcome
from rec3lib import WIDTHS, cps, le
import g_rec3
import g_ms2

from simplemseed import readMSeed3Records, readMiniseed2Records, unpackMSeed3Record, unpackMiniseedRecord

NF = (dict(t="none"), None)


def light2(rec):
    return g_ms2.proj2(rec, samples=False)


def light3(rec):
    f = {k: le(getattr(rec.header, k), w) for k, w in WIDTHS.items()}
    r, err = outcome(lambda: list(struct.pack("<d", rec.header.sampleRatePeriod)))
    f["rate"] = r if err is None else [-1]
    return dict(f=f, id=cps(str(rec.identifier)), pl=list(bytes(rec.encodedDataBytes())))


def run_damaged(c):
    data, fmt = c["bytes"], c["fmt"]
    e = dict(op=f"read{fmt}", bytes=list(data), filter=c["filter"][0], check=c.get("check", 0), _note=str(c.get("note", "")))
    got = []

    def read():
        kw = {} if c["filter"][1] is None else dict(matchsid=c["filter"][1])
        if fmt == 3:
            kw["check_crc"] = c.get("check", 0) == 1
        fp = io.BytesIO(data)
        if c.get("file"):
            with open(c["file"], "wb") as f:
                f.write(data)
            fp = open(c["file"], "rb", **(dict(buffering=0) if c["raw"] else {}))
        try:
            for r in (readMSeed3Records if fmt == 3 else readMiniseed2Records)(fp, **kw):
                got.append(light3(r) if fmt == 3 else light2(r))
                if len(got) > len(data) // 40 + 2:
                    return "endless"
            return "eof"
        finally:
            fp.close()
            if c.get("file"):
                os.unlink(c["file"])
    end, err = outcome(read, secs=20)
    e["out"] = dict(recs=got, end=end if err is None else "hangs" if err == "Timeout" else "raise")
    e["_note"] += f" {err}"
    return e


def run_single(c):
    data, fmt = c["bytes"], c["fmt"]
    e = dict(op=f"one{fmt}", bytes=list(data), check=c.get("check", 0), _note=str(c.get("note", "")))
    data = bytearray(data) if c.get("mutable") else bytes(data)
    if fmt == 3:
        r, err = outcome(lambda: light3(unpackMSeed3Record(data, check_crc=c.get("check", 0) == 1)))
    else:
        r, err = outcome(lambda: light2(unpackMiniseedRecord(data)))
    # a StopIteration is not an error, it would end the loop of the caller
    e["out"] = dict(k="ok", r=r) if err is None else dict(k="refused" if err not in ("Timeout", "StopIteration") else err)
    e["_note"] += f" {err}"
    return e


EDGE = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 47, 48, 52, 56, 60, 63, 64, 65, 100, 127, 128, 200, 254, 255]


def hurt(rng, b, starts, fmt):
    """-> bytes, what was done"""
    b = bytearray(b)
    s = rng.choice(starts)
    k = rng.choice(["cut", "cut", "edge", "byte", "byte", "bytes", "insert", "delete", "swap", "tail", "zero"])
    end = min(len(b), s + (110 if fmt == 2 else 60))
    if k == "cut":
        n = rng.choice([rng.randrange(len(b)), min(len(b), s + rng.randrange(0, 70)), max(0, len(b) - rng.randint(1, 5))])
        del b[n:]
    elif k == "edge":
        at = rng.choice([39, 44, 45, 46, 47, 50, 51, 54, 52, 58, 59, 62] if fmt == 2 else [33, 34, 35, 36, 37, 38, 39, 2])
        if s + at < len(b):
            b[s + at] = rng.choice(EDGE)
    elif k == "byte":
        b[rng.randrange(s, end)] = rng.choice(EDGE)
    elif k == "bytes":
        for _ in range(rng.randint(2, 4)):
            b[rng.randrange(s, end)] = rng.randrange(256)
    elif k == "insert":
        at = rng.randrange(s, end)
        b[at:at] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 3)))
    elif k == "delete":
        at = rng.randrange(s, end)
        del b[at:at + rng.randint(1, 70)]
    elif k == "swap":
        # two bytes of a 16 bit number
        at = rng.randrange(s, end - 1)
        b[at], b[at + 1] = b[at + 1], b[at]
    elif k == "zero":
        at = rng.randrange(s, end)
        n = rng.choice([1, 2, 4, 8, 60])
        b[at:at + n] = bytes(len(b[at:at + n]))
    elif k == "tail":
        b += bytes(rng.choice([0, 32, 255, rng.randrange(256)]) for _ in range(rng.choice([1, 20, 39, 40, 47, 48, 60, 512])))
    return bytes(b), k


def streams2(rng):
    recs = [g_ms2.rand_rec(rng, exps=[7, 7, 8, 8, 9]) for _ in range(rng.choice([1, 1, 2, 3]))]
    bs = [g_ms2.lay2(r) for r in recs]
    starts = [sum(len(x) for x in bs[:i]) for i in range(len(bs))]
    f = NF if rng.random() < 0.8 else g_ms2.sid_filter(rng, recs)
    return b"".join(bs), starts, f


POOL = ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_JSC_00_H_H_Z", "FDSN:XX_BIRD__L_H_E", "BIRD", ""]


def streams3(rng):
    f, ids = NF, [None] * 3
    if rng.random() < 0.4:
        ids = [rng.choice(POOL) for _ in ids]
        f = g_ms2.rand_regex(rng, POOL) if rng.random() < 0.5 else rng.choice([(g_ms2.lit(x), x) for x in ("BIRD", "FDSN", "_Z", "JSC")])
        ids = [i.encode() for i in ids]
    bs = [g_rec3.base_record(rng, small=True, ident=i) for i in ids[:rng.choice([1, 1, 2, 3])]]
    return b"".join(bs), [sum(len(x) for x in bs[:i]) for i in range(len(bs))], f


def cases24(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.scale(2600, 26000)):
        fmt = 2 if rng.random() < 0.7 else 3
        b, starts, f = (streams2 if fmt == 2 else streams3)(rng)
        note = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            b, k = hurt(rng, b, starts, fmt) if b else (b, "")
            starts = [s for s in starts if s + 48 < len(b)] or [0]
            note.append(k)
            if len(b) < 60:
                break
        c = dict(fmt=fmt, bytes=b, filter=f, note=note, check=rng.randint(0, 1))
        if set(note) <= {"cut", "tail"} and rng.random() < 0.3:
            c.update(file=ctx.path(f"damaged-{i}"), raw=rng.random() < 0.5)
        out.append(c)
    # a stream cut at every position
    for _ in range(ctx.scale(2, 12)):
        for fmt, mk in ((2, streams2), (3, streams3)):
            b, starts, f = mk(rng)
            step = max(1, len(b) // 256)
            out += [dict(fmt=fmt, bytes=b[:n], filter=f, note="every cut") for n in range(0, len(b), step)]
    # no record at all
    for _ in range(ctx.scale(150, 1500)):
        fmt = rng.choice([2, 3])
        b = bytearray(rng.choice([0, 255, 32, rng.randrange(256)]) if rng.random() < 0.5 else rng.randrange(256)
                      for _ in range(rng.choice([0, 1, 39, 40, 47, 48, 49, 64, 128, 600])))
        if fmt == 3 and rng.random() < 0.7:
            b[0:3] = b"MS\x03"
        if fmt == 2 and rng.random() < 0.7 and len(b) > 22:
            b[0:6] = b"000001"
            b[20:22] = rng.choice([b"\x07\xd0", b"\xd0\x07"])
        out.append(dict(fmt=fmt, bytes=bytes(b), filter=NF, note="no record"))
    return out


def check_C24(ctx):
    ctx.model_check("Damage_MC.tla", "Damage_MC.cfg")
    ctx.model_check("Damage_MC.tla", "Damage_Reach.cfg", expect_violation="NeverBroken")
    cases = cases24(ctx)
    ev = drive(run_damaged, cases)
    rng = ctx.rng
    ev += drive(run_single, [dict(c, mutable=rng.random() < 0.5) for c in cases if not c.get("file") and rng.random() < 0.5])
    ctx.judge("Damage_Trace.tla", ev)
    # the converter on files cut off
    tool = []
    for i in range(ctx.scale(150, 1500)):
        recs = [g_ms2.rand_rec(rng, exps=[7, 8, 9]) for _ in range(rng.choice([1, 2, 3]))]
        for k in (k for r in recs for k in r["blks"] if k["t"] == 1001):
            k["us"] %= 100      # see C17 for others
        size = sum(2 ** r["exp"] for r in recs)
        tool.append(dict(i=i, recs=recs, old=rng.random() < 0.5, style=rng.randrange(3),
                         cut=rng.choice([rng.randrange(size), size - 1, size - rng.randrange(1, 49), 2 ** recs[0]["exp"] - 1])))
    ctx.judge("Ms2_Trace.tla", drive(g_ms2.run_tool, tool))
    ctx.assumptions += ["less than 48 bytes after the last miniSEED 2 record may be ignored or refused",
                        "what is neither a conformant record nor cut or contradictory may be refused or read, and what follows it is not judged"]
