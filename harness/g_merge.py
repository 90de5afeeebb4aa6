"""C10: merging."""
import contextlib
import datetime
import io
import json
import os
import struct
import sys

import numpy as np

from vlib import drive, outcome
from rec3lib import *

from simplemseed import encodeSteim1, encodeSteim2, mseed3merge, readMSeed3Records, unpackMSeed3Record
import simplemseed.mseed3merge as tool

# rate or period field, sample period in microseconds (even)
RATES = [(100.0, 10000), (20.0, 50000), (40.0, 25000), (1.0, 10 ** 6), (-10.0, 10 ** 7), (-0.25, 250000), (1000.0, 1000),
         (8.0, 125000 * 1), (250000.0, 4), (500000.0, 2), (-1000.0, 10 ** 9), (-3600.0, 3600 * 10 ** 6), (31.25, 32000),
         (-0.5, 500000), (0.0, 0)]
RATES = [(r, p) for r, p in RATES if p % 2 == 0]
PERIODS = [[list(struct.pack("<d", r)), p // 10 ** 6, p % 10 ** 6] for r, p in RATES]
IDS = [b"FDSN:CO_BIRD_00_H_H_Z", b"FDSN:CO_BIRD_00_H_H_N", b"FDSN:CO_JSC_00_H_H_Z"]
EPOCH = datetime.datetime(1970, 1, 1)


def make_records(rng, moves):
    """-> list of (bytes, canonical extra headers), base day number"""
    day = rng.choice([datetime.datetime(2019, 12, 31), datetime.datetime(2020, 2, 28), datetime.datetime(2020, 12, 31),
                      datetime.datetime(1999, 5, 6), datetime.datetime(2100, 2, 28)])
    base = (day - datetime.datetime(1, 1, 1)).days
    t = rng.choice([86399, 86395, 0, 43200, 86340]) * 10 ** 6 + rng.choice([0, 1, 999999, 500000])
    rate, per = rng.choice(RATES)
    cur = dict(id=0, rate=rate, per=per, ver=rng.choice([0, 1, 4, 255]), flags=0)
    acc = None  # start and count of what a merging reader holds
    x = 0
    out = []
    for m in moves:
        for c in m["change"]:
            if c == "id":
                cur["id"] = (cur["id"] + rng.choice([1, 2])) % 3
            elif c == "rate":
                cur["rate"], cur["per"] = rng.choice([r for r in RATES if r[0] != cur["rate"]])
            elif c == "ver":
                cur["ver"] = (cur["ver"] + 1) % 256
            else:
                cur["flags"] = (cur["flags"] + 4) % 256
        n = rng.choice([1, 1, 2, 3, 5, rng.randint(4, 30)])
        if acc is not None:
            # the sampling of what went before, not of this record, says when it ends
            s, k, p = acc if rng.random() < 0.85 or last is None else last
            exp, end, h = s + k * p, s + (k - 1) * p, p // 2
            t = {"on time": exp, "micro late": exp + 1, "micro early": exp - 1, "just in": exp + h - 1,
                 "just out": exp + h + 1, "half": exp + h, "after last": end + 1, "at last": end, "before last": end - 1,
                 "same start": s, "far": exp + 10 * p + 7, "long before": s - 5 * p - 11}[m["gap"]]
        enc = m["enc"]
        ints = enc in (1, 3, 10, 11, 100)
        vals = []
        for _ in range(n):
            x = x + 1
            vals.append(x % 32000 - (65537 if enc == 3 and x % 5 == 0 else 0))
        if enc in (10, 11):
            payload = bytes((encodeSteim1 if enc == 10 else encodeSteim2)(vals))
        elif enc == 100:
            payload = bytes([i % 256 for i in vals]) + b"op"
        else:
            payload = struct.pack(f"<{n}{ {1: 'h', 3: 'i', 4: 'f', 5: 'd'}[enc]}", *vals)
            if rng.random() < 0.15:
                payload += bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 2, 8, 30])))
        sec, us = divmod(t, 10 ** 6)
        d = day + datetime.timedelta(seconds=sec)
        f = dict(flags=cur["flags"], nanosecond=us * 1000, year=d.year, dayOfYear=d.timetuple().tm_yday, hour=d.hour,
                 minute=d.minute, second=d.second, encoding=enc, rate=list(struct.pack("<d", cur["rate"])), numSamples=n,
                 publicationVersion=cur["ver"])
        if d.second == 0 and rng.random() < 0.3:
            p = d - datetime.timedelta(minutes=1)
            f.update(year=p.year, dayOfYear=p.timetuple().tm_yday, hour=p.hour, minute=p.minute, second=60)
        eh = rng.choice([None, {"n": x, "l": [1, {"k": "é"}]}, {"FDSN": {"Time": {"Quality": 100 + x % 7}}}])
        ehb = b"" if eh is None else json.dumps(eh).encode()
        out.append((lay(f, IDS[cur["id"]], ehb, payload), canon(eh)))
        last = (t, n, cur["per"])
        if acc is None or m["change"] or m["gap"] in ("half", "just out", "at last", "before last", "same start", "far", "long before"):
            acc = (t, n, cur["per"])
        else:
            acc = (acc[0], acc[1] + n, acc[2])
    return out, base


def ehs_of(packed):
    """Canonical extra headers of each record of packed bytes."""
    out = []
    for b in packed:
        nid, neh = b[33], b[34] + 256 * b[35]
        v, err = outcome(lambda: canon(json.loads(b[40 + nid:40 + nid + neh]) if neh else None))
        out.append(v if err is None else err)
    return out


def cut(b):
    """Record bytes of a file; whatever does not look like one is left whole."""
    out = []
    while len(b) >= 40:
        n = 40 + b[33] + b[34] + 256 * b[35] + struct.unpack_from("<I", b, 36)[0]
        out.append(b[:n])
        b = b[n:]
    return out + ([b] if b else [])


def lacking(rng, recs, how):
    """Some of the records without samples (2), or with fewer than they say (1)."""
    out = []
    for b, eh in recs:
        if rng.random() < 0.5 and (b[15] in (1, 3, 4, 5)):
            nid, neh = b[33], b[34] + 256 * b[35]
            d = bytearray(b)
            if how == 1:
                size = {1: 2, 3: 4, 4: 4, 5: 8}[b[15]] * struct.unpack_from("<I", b, 24)[0]
                d = d[:40 + nid + neh + size - rng.choice([1, 2, 3, 4, 8])]
            else:
                d[24:28] = bytes(4)
                d = d[:40 + nid + neh]
            if len(d) >= 40 + nid + neh:
                struct.pack_into("<I", d, 36, len(d) - 40 - nid - neh)
                struct.pack_into("<I", d, 28, 0)
                struct.pack_into("<I", d, 28, crc(bytes(d)))
                b = bytes(d)
        out.append((b, eh))
    return out


def event(op, recs, base, short=0):
    return dict(op=op, short=short, base=base, periods=PERIODS, ins=list(b"".join(b for b, _ in recs)), ehs=[e for _, e in recs])


def run_pair(c):
    recs = c["recs"]
    e = event("pair", recs, c["base"], c.get("short", 0))
    e["one"] = c.get("one", 0)
    held = []

    def call():
        a = unpackMSeed3Record(recs[0][0])
        b = unpackMSeed3Record(recs[-1][0])
        if c.get("touch"):
            a.eh, b.eh
        if e["one"] == 1:
            out = mseed3merge(a, None)
        elif e["one"] == 2:
            out = mseed3merge(None, b)
        else:
            out = mseed3merge(a, b)
        held.extend([a, b])
        return [bytes(x.pack()) for x in out]
    if e["one"]:
        e["ins"], e["ehs"] = list(recs[0 if e["one"] == 1 else -1][0]), [recs[0 if e["one"] == 1 else -1][1]]
    r, err = outcome(call)
    if err:
        e["out"] = dict(k=err)
        return e
    kept = outcome(lambda: canon_of(held))[0] == [canon_rec(recs[0][0]), canon_rec(recs[-1][0])]
    if e["one"] == 0 and len(r) == 2:
        # extra headers that were looked at may be written anew, as the same JSON
        if canon_rec(r[0]) == canon_rec(recs[0][0]) and canon_rec(r[1]) == canon_rec(recs[1][0]):
            r = [recs[0][0], recs[1][0]]
    if e["one"] and len(r) == 1 and canon_rec(r[0]) == canon_rec(bytes(e["ins"])):
        r = [bytes(e["ins"])]
    e["out"] = dict(k="ok", bytes=list(b"".join(r)), ehs=ehs_of(r), kept=1 if kept else 0)
    return e


def canon_rec(b):
    """Record with extra headers canonical and lengths and checksum aside."""
    nid, neh = b[33], b[34] + 256 * b[35]
    return (b[:28], b[32:34], b[36:40], b[40:40 + nid], canon(json.loads(b[40 + nid:40 + nid + neh]) if neh else None),
            b[40 + nid + neh:])


def canon_of(held):
    return [canon_rec(bytes(x.pack())) for x in held]


def run_read(c):
    recs = c["recs"]
    e = event(c["op"], recs, c["base"], c.get("short", 0))
    e["filter"] = dict(t="none")
    pat = None
    if c.get("filt"):
        e["filter"] = dict(t="cat", k=[dict(t="lit", c=ord(ch)) for ch in c["filt"]])
        pat = c["filt"]
    data = bytes(e["ins"])
    kept = True
    if c["op"] == "read":
        r, err = outcome(lambda: [bytes(x.pack()) for x in readMSeed3Records(io.BytesIO(data), matchsid=pat, merge=True)])
    else:
        inf, outf = c["file"] + ".in", c["file"] + ".out"
        with open(inf, "wb") as fp:
            fp.write(data)
        if c.get("old"):
            with open(outf, "wb") as fp:
                fp.write(b"what was here before" * 500)

        def call():
            argv = sys.argv
            sys.argv = ["mseed3merge"] + c["args"] + ["-o", outf, inf]
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    tool.main()
            finally:
                sys.argv = argv
            with open(outf, "rb") as fp:
                return cut(fp.read())
        r, err = outcome(call)
        with open(inf, "rb") as fp:
            kept = fp.read() == data
        for fn in (inf, outf):
            if os.path.exists(fn):
                os.unlink(fn)
    if err:
        e["out"] = dict(k=err)
        return e
    e["out"] = dict(k="ok", bytes=list(b"".join(r)), ehs=ehs_of(r), kept=1 if kept else 0)
    return e


def check_C10(ctx):
    ctx.model_check("Merge_MC.tla", "Merge_MC2.cfg" if ctx.thorough else "Merge_MC.cfg")
    ctx.model_check("Merge_MC.tla", "Merge_Reach.cfg", expect_violation="Unreached")
    rng = ctx.rng
    pairs = ctx.generate("Merge_Gen.tla", "Merge_GenPairs.cfg", exhaustive=True)
    walks = ctx.generate("Merge_Gen.tla", "Merge_GenWalk.cfg", num=ctx.scale(800, 8000), depth=20, shards=8)
    cases = []
    for i, m in enumerate(pairs * ctx.scale(1, 6)):
        recs, base = make_records(rng, m)
        cases.append((run_pair, dict(recs=recs, base=base, touch=i % 3 == 0)))
        if i % 4 == 0:
            cases.append((run_read, dict(op="read", recs=recs, base=base)))
        if i % 29 == 0:
            cases.append((run_pair, dict(recs=recs, base=base, one=1 + i % 2, touch=i % 3 == 0)))
        if i % 3 == 0 and len(recs) > 1:
            for how in (1, 2):
                less = lacking(rng, recs, how)
                cases.append((run_pair, dict(recs=less, base=base, short=how, touch=i % 2 == 0)))
                if i % 6 == 0:
                    cases.append((run_read, dict(op="read", recs=less, base=base, short=how)))
    for i, m in enumerate(walks):
        if i % 8 == 0:
            recs, base = make_records(rng, m[:6])
            how = 1 + i // 8 % 2
            cases.append((run_read, dict(op="read", recs=lacking(rng, recs, how), base=base, short=how)))
        recs, base = make_records(rng, m[:rng.choice([1, 2, 4, 6, 6, 6, 6, 6])])
        c = dict(op="read", recs=recs, base=base)
        if i % 5 == 0:
            c["filt"] = rng.choice(["BIRD", "H_Z", "JSC", "none of them"])
        cases.append((run_read, c))
        if i % 3 == 0:
            cases.append((run_read, dict(op="tool", recs=recs, base=base, file=ctx.path(f"m{i}"), old=i % 2 == 0,
                                         args=[["-v"], ["--decomp"], []][i % 3 if i % 7 == 0 else 2])))
    cases.append((run_read, dict(op="read", recs=[], base=0)))
    cases.append((run_read, dict(op="tool", recs=[], base=0, file=ctx.path("none"), args=[])))
    ev = drive(lambda fc: fc[0](fc[1]), cases)
    ctx.judge("Merge_Trace.tla", ev)
    ctx.assumptions += ["sample periods are whole even numbers of microseconds, so that half a period is one",
                        "with records that have no samples, or fewer than they say, only the samples as a whole are judged",
                        "identifiers of unpacked records (strings)"]
