"""C01, C02, C03, C08, C09: miniSEED 3 records, streams, uncompressed samples."""
import array
import io
import json
import os
import struct

import numpy as np

import vlib
from vlib import drive, outcome
from rec3lib import *

from simplemseed import (CodecException, EncodedDataSegment, FDSNSourceId, MSeed3Header, MSeed3Record, decompress,
                         encode, encodeSteim1, encodeSteim2, mseed3merge, readMSeed3Records, unpackMSeed3Record)
import simplemseed
import simplemseed.seedcodec as codec


# ---------------------------------------------------------------- making records (C01)
# a new header: 1970-001T00:00:00, 1 Hz, no flags, unknown publication version
FRESH = dict(flags=0, nanosecond=0, year=1970, dayOfYear=1, hour=0, minute=0, second=0, publicationVersion=0)


def rand_data(rng, good=True):
    """-> dict(src, kind, items, wide, enc, segenc, payload, count, le)"""
    n = rand_len(rng)
    src = rng.choice(["list", "list", "list", "i2", "i4", "i8", "u4", "u8", "f4", "f8", "arr:h", "arr:i", "arr:f",
                      "arr:d", "bytes", "bytes", "seg", "seg", "none"])
    d = dict(src=src, kind="int", items=[], wide=0, enc=-1, segenc=0, payload=[], count=n, be=rng.random() < 0.5)
    if src == "list":
        d["enc"] = e = rng.choice([-1, 1, 3, 4, 5])
        if e in (1, 3):
            d["items"] = rand_ints(rng, e, n)
        elif rng.random() < 0.4:
            d["items"] = [rng.randint(-2 ** 24 + 1, 2 ** 24 - 1) if e != 5 else rng.randint(-2 ** 31, 2 ** 31 - 1)
                          for _ in range(n)]
            d["items"] = [max(v, -2 ** 31 + 1) for v in d["items"]]
        else:
            d["kind"] = "pat"
            d["items"] = [rand_pattern(rng, 8 if e == 5 else 4) for _ in range(n)]
    elif src in ("i2", "arr:h"):
        d["items"] = rand_ints(rng, 1, n)
        d["enc"] = rng.choice([-1, 1])
    elif src in ("i4", "i8", "arr:i"):
        d["items"] = rand_ints(rng, 3, n)
        d["enc"] = rng.choice([-1, 3])
    elif src in ("u4", "u8"):
        d["items"] = [abs(v) % 2 ** 31 for v in rand_ints(rng, 3, n)]
        d["enc"] = rng.choice([-1, 3])
    elif src in ("f4", "f8", "arr:f", "arr:d"):
        w = 4 if src in ("f4", "arr:f") else 8
        d["kind"] = "pat"
        d["items"] = [rand_pattern(rng, w) for _ in range(n)]
        d["enc"] = rng.choice([-1, 4 if w == 4 else 5])
    elif src == "bytes":
        d["enc"] = rng.choice([0, 1, 3, 4, 5, 10, 11, 19, 30, 100, 255])
        d["payload"] = [rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5, 64, 128, 130]))]
    elif src == "seg":
        d["segenc"] = e = rng.choice([1, 3, 4, 5, 10, 11])
        d["enc"] = rng.choice([-1, e])
        if e in (10, 11):
            n = d["count"] = max(1, n)
            x, items = 0, []
            for _ in range(n):
                x += rng.choice([0, 1, -1, 7, -8, 100, -30000, 2 ** 20])
                items.append(x)
            d["items"] = items
            d["payload"] = list(bytes((encodeSteim1 if e == 10 else encodeSteim2)(items)))
        elif e in (4, 5):
            d["kind"] = "pat"
            d["items"] = [rand_pattern(rng, 4 if e == 4 else 8) for _ in range(n)]
        else:
            d["items"] = rand_ints(rng, e, n)
    elif src == "none":
        d["count"] = 0
    return d


def build_data(d):
    src, items, be = d["src"], d["items"], d["be"]
    bo = ">" if be else "<"
    py = [unpattern(p) for p in items] if d["kind"] == "pat" else items
    if src in ("list", "mixed"):
        return list(d.get("raw", py))
    if src in ("i2", "i4", "i8", "u4", "u8", "f4", "f8"):
        a = np.array(py, dtype=bo + src) if d["kind"] == "int" else \
            np.frombuffer(b"".join(bytes(p) for p in items), dtype=">" + src).astype(bo + src)
        if d.get("stride"):
            return np.repeat(a, 2)[::2]
        return a
    if src.startswith("arr:"):
        return array.array(src[4:], py)
    if src == "bytes":
        return bytearray(d["payload"]) if be else bytes(d["payload"])
    if src == "seg":
        e = d["segenc"]
        if e in (10, 11):
            return EncodedDataSegment(e, bytes(d["payload"]), len(items), False)
        c = {1: "h", 3: "i", 4: "f", 5: "d"}[e]
        raw = struct.pack(f"{bo}{len(py)}{c}", *py) if d["kind"] == "int" else \
            b"".join(bytes(p) if be else bytes(p[::-1]) for p in items)
        return EncodedDataSegment(e, raw, len(items), not be)
    if src == "none":
        return None
    raise vlib.CheckError(src)


def rand_fields(rng):
    f = dict(flags=rng.choice([0, 1, 4, 128, 255]), nanosecond=rng.choice([0, 1, 999999999, 2 ** 31, 2 ** 32 - 1]),
             year=rng.choice([0, 1, 1970, 2024, 9999, 65535]), dayOfYear=rng.choice([1, 60, 365, 366, 0, 65535]),
             hour=rng.choice([0, 23, 255]), minute=rng.choice([0, 59, 255]), second=rng.choice([0, 59, 60, 255]),
             publicationVersion=rng.choice([0, 1, 4, 255]))
    if rng.random() < 0.5:
        f.update(nanosecond=rng.randrange(10 ** 9), year=rng.randint(1900, 2100), dayOfYear=rng.randint(1, 366),
                 hour=rng.randint(0, 23), minute=rng.randint(0, 59), second=rng.randint(0, 59))
    return f


def rt_case(rng):
    c = dict(d=rand_data(rng), f=rand_fields(rng), id=rand_id(rng), idobj=rng.random() < 0.3, set_eh=rng.random() < 0.3)
    c["rate"] = rand_rate(rng)
    r = rng.random()
    c["ehk"] = "none" if r < 0.3 else "dict" if r < 0.7 else "text"
    c["eh"] = rand_eh(rng)
    c["style"] = rng.choice(["plain", "compact", "raw", "indent"])
    c["ns"] = 0
    if c["d"]["src"] == "bytes":
        c["ns"] = rng.choice([0, 1, 2, 10, 2 ** 31, 2 ** 32 - 1]) if c["d"]["enc"] not in (10, 11) else rng.choice([0, 1, 5])
    elif rng.random() < 0.4:
        c["ns"] = c["d"]["count"]
    c["unset"] = []
    if rng.random() < 0.3:
        # fields that the program does not set
        c["unset"] = [k for k in NUMS + ["rate"] if rng.random() < 0.5]
        c["f"].update({k: v for k, v in FRESH.items() if k in c["unset"]})
        if "rate" in c["unset"]:
            c["rate"] = (1.0, list(struct.pack("<d", 1.0)))
    return c


def spoil(rng, c):
    """Make the case something that cannot be held, or close to it."""
    d = c["d"]
    w = rng.randrange(10)
    if w == 0:
        f = rng.choice(NUMS)
        c["f"][f] = rng.choice([-1, 256 ** WIDTHS[f], 256 ** WIDTHS[f] + 5, -2 ** 31, 256 ** WIDTHS[f] - 1])
    elif w == 1:
        c["id"] = rng.choice(["x" * 256, "x" * 255, "é" * 127 + "a", "é" * 128, "€" * 85, "€" * 85 + "b", "😀" * 64, "x" * 511])
        c["idobj"] = False
    elif w == 2:
        c["ns"] = max(1, d["count"] + rng.choice([1, -1, 256, 2 ** 32]))
    elif w == 3:
        d["enc"] = rng.choice([-1, 0, 1, 3, 4, 5, 10, 11, 19, 100, 255, 256, -2])
        if d["src"] == "list" and d["kind"] == "pat" and d["enc"] in (1, 3):
            d["items"], d["count"] = [[0x3F, 0xC0, 0, 0]], 1
        elif d["src"] == "list" and d["kind"] == "pat" and d["enc"] in (4, 5, -1):
            wd = 8 if d["enc"] == 5 else 4
            d["items"] = [rand_pattern(rng, wd) for _ in d["items"]]
        elif d["src"] == "list" and d["kind"] == "int" and d["enc"] in (-1, 4):
            d["items"] = [v % 2 ** 24 for v in d["items"]]
        elif d["src"] == "list" and d["kind"] == "int" and d["enc"] == 5:
            d["items"] = [max(v, -2 ** 31 + 1) for v in d["items"]]
    elif w in (4, 5):
        # integers that do not fit
        big = rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 40, 2 ** 32 + 7, -2 ** 32])
        d.update(src=rng.choice(["list", "i8", "u8"]), kind="int", wide=1)
        d["enc"] = 3 if d["src"] == "list" else rng.choice([-1, 3])
        if d["src"] == "u8":
            big = abs(big) if big != -2 ** 31 - 1 else 2 ** 63 + 3
        raw = [1, 2, 3, big, 4]
        if rng.random() < 0.3:
            raw = [big]
        if rng.random() < 0.5 and len(raw) > 1:
            raw = raw + [0] * 40
        d.update(items=[0] * len(raw), raw=raw, count=len(raw))
        c["ns"] = 0
    elif w == 6:
        # 16 bit limits
        v = rng.choice([32768, -32769, 65535, 65536, 2 ** 31 - 1, 32767, -32768])
        d.update(src="list", kind="int", enc=1, items=[0, v, 5][:rng.choice([2, 3])])
        d["count"] = len(d["items"])
        c["ns"] = 0
    elif w == 7:
        c["ehk"] = "bad"
        c["eh"] = rng.choice([[1, 2], 5, 1.5, True, (1, 2), {1, 2}, {"a": {1, 2}}, {"a": b"x"}, b"{}", {(1, 2): 3}])
    elif w == 8:
        n = rng.choice([65535, 65536, 65534, 70000])
        if rng.random() < 0.5:
            c["ehk"] = "dict"
            c["eh"] = {"a": "x" * (n - rng.choice([8, 9, 7]))}
        else:
            c["ehk"] = "bigtext"
            c["style"] = rng.choice(["ascii", "utf8"])
            c["eh"] = n
    elif w == 9:
        # not supported kinds of data
        c["other"] = rng.choice(["i1", "u1", "u2", "?", "f2", "c8", "S3", "U2", "2d", "arr:l", "arr:b", "arr:q", "tuple",
                                 "obj", "nested"])
        d.update(src="other", kind="int", items=[1, 2, 3], count=3, enc=-1)
        c["ns"] = 0
    return c


def other_data(k):
    v = [1, 2, 3]
    if k == "2d":
        return np.array([[1, 2, 3]], dtype="i4")
    if k.startswith("arr:"):
        return array.array(k[4:], v)
    if k == "tuple":
        return (1, 2, 3)
    if k == "obj":
        return np.array([1, None, 3], dtype=object)
    if k == "nested":
        return [[1, 2], [3]]
    return np.array(v, dtype=k)


def eh_text(c):
    st, d = c["style"], c["eh"]
    if c["ehk"] == "bigtext":
        n = d
        if st == "ascii":
            return '{"a":"' + "x" * (n - 8) + '"}'
        return '{"a":"' + "é" * ((n - 8) // 2) + "y" * (n % 2) + '"}'
    if st == "compact":
        return json.dumps(d, separators=(",", ":"))
    if st == "raw":
        return json.dumps(d, ensure_ascii=False)
    if st == "indent":
        return "\n" + json.dumps(d, indent=3, ensure_ascii=False) + " \t"
    return json.dumps(d)


def run_rt(c):
    d = c["d"]
    h = MSeed3Header()
    for k, v in c["f"].items():
        if k not in c["unset"] or v != FRESH[k]:
            setattr(h, k, v)
    if "rate" not in c["unset"]:
        h.sampleRatePeriod = c["rate"][0]
    if d["enc"] != -1 or not c["unset"]:
        h.encoding = d["enc"]
    h.numSamples = c["ns"]
    text = None
    ehk = c["ehk"]
    ehmin = ehmax = 0
    if ehk in ("text", "bigtext"):
        ehk = "text"
        text = eh_text(c)
        ehc = canon(json.loads(text))
    elif ehk == "dict":
        ehc = canon(c["eh"])
        ehmin = len(json.dumps(c["eh"], separators=(",", ":"), ensure_ascii=False).encode("utf-8", "replace"))
        ehmax = len(json.dumps(c["eh"]))
        ehmin = min(ehmin, ehmax)
    else:
        ehc = "{}"
    e = dict(op="rt", f={k: num(v) for k, v in c["f"].items()}, rate=c["rate"][1], enc=d["enc"], ns=num(c["ns"]),
             src=d["src"], kind=d["kind"], items=d["items"], wide=d["wide"], segenc=d["segenc"], payload=d["payload"],
             count=d["count"], id=cps(c["id"]), ehk=ehk, eht=cps(text) if text is not None else [], ehc=ehc,
             ehmin=ehmin, ehmax=ehmax)
    e["_note"] = str(c.get("other", ""))
    ident = c["id"]
    if c["idobj"]:
        p, err = outcome(lambda: FDSNSourceId.parse(c["id"]))
        if err is None and str(p) == c["id"]:
            ident = p

    def make():
        if c.get("other"):
            data = other_data(c["other"])
        elif "raw" in d and d["src"] in ("i8", "u8"):
            data = np.array(d["raw"], dtype=(">" if d["be"] else "<") + d["src"])
        else:
            data = build_data(d)
        eh = text if text is not None else c["eh"] if ehk in ("dict", "bad") else None
        if c["set_eh"]:
            rec = MSeed3Record(h, ident, data)
            rec.eh = eh
        else:
            rec = MSeed3Record(h, ident, data, extraHeaders=eh)
        return bytes(rec.pack())
    b, err = outcome(make)
    if err:
        e["out"] = dict(k=err)
        return e
    r, err = outcome(lambda: unpackMSeed3Record(b if d["be"] else bytearray(b)))
    if err:
        e["out"] = dict(k="unpack " + err)
        return e
    nid, neh = b[33], b[34] + 256 * b[35]
    w, err = outcome(lambda: canon(json.loads(b[40 + nid:40 + nid + neh]) if neh else None))
    pr = proj(r)
    s, err2 = outcome(lambda: [proj(x) for x in readMSeed3Records(io.BytesIO(b))])
    e["out"] = dict(k="ok", bytes=list(b), r=pr, ehw=w if err is None else err,
                    stream="same" if s == [pr] else str(err2))
    return e


def check_C01(ctx):
    ctx.model_check("Rec3_MC.tla", "Rec3_MC.cfg")
    rng = ctx.rng
    cases = [rt_case(rng) for _ in range(ctx.scale(1500, 20000))]
    # spoiling may leave a case still fine, the specification decides
    cases += [spoil(rng, rt_case(rng)) for _ in range(ctx.scale(900, 10000))]
    for src in ("i2", "i4", "i8", "u4", "u8", "f4", "f8"):
        for be in (False, True):
            for stride in (False, True):
                c = rt_case(rng)
                w = 4 if src == "f4" else 8
                items = [rand_pattern(rng, w) for _ in range(9)] if src[0] == "f" else \
                    [32767, 1, 0, 258] if src[0] == "u" else [-32768, 32767, 1, 258, -2]
                c["d"] = dict(src=src, kind="pat" if src[0] == "f" else "int", items=items, wide=0, enc=-1, segenc=0,
                              payload=[], count=len(items), be=be, stride=stride)
                c["ns"] = 0
                cases.append(c)
    ev = drive(run_rt, cases)
    ctx.judge("Rec3_Trace.tla", ev)
    ctx.assumptions += ["NaN samples are compared as NaN, not by payload bits",
                        "list items given to 32 bit floats are representable in them",
                        "record payloads up to about 1 kB, extra headers and identifiers up to and over their limits"]


# ---------------------------------------------------------------- foreign records (C02)
def steim1_plain(items):
    """Steim1 with one difference per word, written independently."""
    out = b""
    diffs = [items[0]] + [b - a for a, b in zip(items, items[1:])]
    first = True
    while diffs or first:
        room = 13 if first else 15
        ws, diffs = diffs[:room], diffs[room:]
        ctl = 0
        lead = 2 if first else 0
        for i in range(len(ws)):
            ctl |= 3 << (30 - 2 * (1 + lead + i))
        body = [items[0], items[-1]] if first else []
        body += ws
        body += [0] * (15 - len(body))
        out += struct.pack(">I15i", ctl, *body)
        first = False
    return out


def foreign_parts(rng):
    f = rand_fields(rng)
    f["rate"] = rand_rate(rng)[1]
    enc = f["encoding"] = rng.choice([0, 1, 3, 4, 5, 10, 19, 100, 1, 3, 4, 5, 10, rng.getrandbits(8)])
    n = rand_len(rng)
    if enc in (1, 3):
        c = "h" if enc == 1 else "i"
        payload = struct.pack(f"<{n}{c}", *rand_ints(rng, enc, n))
    elif enc in (4, 5):
        payload = b"".join(bytes(rand_pattern(rng, 4 if enc == 4 else 8)[::-1]) for _ in range(n))
    elif enc == 10:
        n = max(1, n)
        items = [rng.randint(-2 ** 30, 2 ** 30 - 1) for _ in range(n)]
        payload = steim1_plain(items)
    else:
        payload = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 3, 40, 64])))
    f["numSamples"] = n
    if rng.random() < 0.12 and enc in (1, 3, 4, 5):
        payload += bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 2, 7, 64])))
    elif rng.random() < 0.06 and enc in (1, 3, 4, 5, 10):
        f["numSamples"] = n + rng.choice([1, 5, 1000])
    ident = rand_id(rng).encode()[:255]
    try:
        ident.decode()
    except UnicodeDecodeError:
        ident = ident[:100].decode("utf-8", "ignore").encode()
    r = rng.random()
    eh = b""
    if r < 0.6:
        c = dict(eh=rand_eh(rng), style=rng.choice(["plain", "compact", "raw", "indent"]), ehk="text")
        eh = eh_text(c).encode("utf-8")
    return f, ident, eh, payload


def run_unpack(c):
    b = c["bytes"]
    e = dict(op="unpack", bytes=list(b), check=1 if c["check"] else 0)
    if "ehc" in c:
        e["ehc"] = c["ehc"]
    data = bytes(b) if c.get("kind", 0) == 0 else bytearray(b)
    r, err = outcome(lambda: unpackMSeed3Record(data, check_crc=c["check"]))
    if err is None:
        p, err = outcome(lambda: proj(r))
    e["out"] = dict(k="ok", r=p) if err is None else dict(k=err)
    return e


def run_packed(c):
    """Bytes made by the library in other ways than packing a new record."""
    how = c["how"]
    b = c["bytes"]

    def call():
        rec = unpackMSeed3Record(b)
        if how == "clone":
            return [rec.clone().pack()]
        if how == "eh":
            rec.eh = c["eh"]
            return [rec.pack(), rec.clone().pack()]
        if how == "deleh":
            del rec.eh
            return [rec.pack()]
        if how == "touch":
            rec.eh
            rec.details()
            return [rec.pack()]
        if how == "ident":
            rec.identifier = c["ident"]
            return [rec.pack()]
        if how == "decompressed":
            return [rec.decompressedRecord().pack()]
        if how == "starttime":
            rec.header.starttime = "2023-04-05T06:07:08.123456Z"
            return [rec.pack()]
        if how == "merge":
            return [x.pack() for x in mseed3merge(rec, unpackMSeed3Record(c["bytes2"]))]
        raise vlib.CheckError(how)
    r, err = outcome(call)
    if err:
        if how in ("decompressed", "touch"):
            return []  # not decompressible, or times no calendar has
        return [dict(op="packed", bytes=[], exact=0, _note=how + " " + err)]
    return [dict(op="packed", bytes=list(bytes(x)), exact=1 if how == "decompressed" else 0, _note=how) for x in r]


def sane(rng, f):
    f.update(nanosecond=rng.randrange(10 ** 9), year=rng.randint(1970, 2100), dayOfYear=rng.randint(1, 365),
             hour=rng.randint(0, 23), minute=rng.randint(0, 59), second=rng.randint(0, 59))
    return f


def check_C02(ctx):
    ctx.model_check("Rec3_MC.tla", "Rec3_MC.cfg")
    rng = ctx.rng
    ev = []
    cases = []
    for _ in range(ctx.scale(900, 12000)):
        f, ident, eh, payload = foreign_parts(rng)
        b = lay(f, ident, eh, payload)
        cases.append(dict(bytes=b, check=rng.random() < 0.7, kind=rng.randint(0, 1),
                          ehc=canon(json.loads(eh) if eh else None)))
    # each field in turn with every byte different, and one record per sizes at limits
    for f0 in list(WIDTHS) + ["rate"]:
        if f0 in ("crc", "identifierLength", "extraHeadersLength", "dataLength"):
            continue
        f = dict(flags=0, nanosecond=0, year=0, dayOfYear=0, hour=0, minute=0, second=0, publicationVersion=0,
                 encoding=0, numSamples=0, rate=[0] * 8)
        w = 8 if f0 == "rate" else WIDTHS[f0]
        f[f0] = [9, 8, 7, 6, 5, 4, 3, 2] if f0 == "rate" else int.from_bytes(bytes(range(1, w + 1)), "little")
        cases.append(dict(bytes=lay(f, b"FDSN:A_B__C_D_E", b'{"a":1}', b"xyz"), check=True, ehc='{"a":1}'))
    for nid, neh, npl in ((255, 0, 0), (0, 65535, 0), (0, 255, 65537), (1, 256, 300), (254, 257, 70000)):
        f = foreign_parts(rng)[0]
        f["encoding"] = 3
        eh = b'{"k":"' + b"v" * (neh - 8) + b'"}' if neh else b""
        cases.append(dict(bytes=lay(f, b"i" * nid, eh, bytes(rng.getrandbits(8) for _ in range(npl))), check=True,
                          ehc=canon(json.loads(eh) if eh else None)))
    ev += drive(run_unpack, cases)
    # packed by the library
    rt = drive(run_rt, [rt_case(rng) for _ in range(ctx.scale(500, 6000))])
    ev += rt
    pk = []
    for _ in range(ctx.scale(500, 5000)):
        f, ident, eh, payload = foreign_parts(rng)
        sane(rng, f)
        c = dict(how=rng.choice(["clone", "eh", "deleh", "touch", "ident", "decompressed", "decompressed", "starttime"]),
                 bytes=lay(f, ident, eh, payload), eh=rng.choice([rand_eh(rng), "", '{"a": "é"}', None]),
                 ident=rng.choice(["FDSN:XX_S_L_B_S_S", "é€", "", FDSNSourceId.parse("FDSN:CO_BIRD_00_H_H_Z")]))
        pk.append(c)
    for _ in range(ctx.scale(150, 1500)):
        enc = rng.choice([1, 3, 4, 5])
        n, m = rng.randint(1, 12), rng.randint(1, 12)
        f = foreign_parts(rng)[0]
        f.update(encoding=enc, numSamples=n, rate=list(struct.pack("<d", 10.0)), year=2020, dayOfYear=5, hour=1,
                 minute=2, second=3, nanosecond=0, flags=0)
        w = {1: 2, 3: 4, 4: 4, 5: 8}[enc]
        g = dict(f, numSamples=m, second=3 + n // 10, nanosecond=(n % 10) * 10 ** 8)
        pk.append(dict(how="merge", bytes=lay(f, b"FDSN:X_Y__Z_Z_Z", rng.choice([b"", b'{"q":[1,2]}']), bytes(n * w + rng.choice([0, 0, 3]))),
                       bytes2=lay(g, b"FDSN:X_Y__Z_Z_Z", b"", bytes(m * w))))
    ev += [x for xs in drive(run_packed, pk) for x in xs]
    ctx.judge("Rec3_Trace.tla", ev)
    ctx.assumptions.append("foreign records have UTF-8 identifiers and JSON object extra headers")


# ---------------------------------------------------------------- damage (C03)
def base_record(rng, small=False, ident=None, neutral=None):
    f, i, eh, payload = foreign_parts(rng)
    if ident is not None:
        i = ident
    if small:
        eh, payload = rng.choice([b"", b'{"a":1}']), payload[:24]
    return lay(f, i, eh, payload)


def big_record(rng, n):
    f = foreign_parts(rng)[0]
    f.update(encoding=3, numSamples=n)
    return lay(f, b"FDSN:XX_ABC__H_H_Z", rng.choice([b"", b'{"a":1}']),
               struct.pack(f"<{n}i", *[rng.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(n)]))


def neutral4(state):
    """Four bytes that leave the running checksum as it is."""
    # run four zero bytes, then solve for the bytes bit by bit (the map is linear)
    want = state
    cols = []
    zero = crc_run(state, b"\0\0\0\0")
    for k in range(32):
        m = (1 << k).to_bytes(4, "little")
        cols.append(crc_run(state, m) ^ zero)
    target = zero ^ want
    sol = 0
    rows = [(c, 1 << k) for k, c in enumerate(cols)]
    for bit in range(32):
        piv = next((r for r in rows if r[0] >> bit & 1), None)
        if piv is None:
            continue
        rows = [r if not r[0] >> bit & 1 or r is piv else (r[0] ^ piv[0], r[1] ^ piv[1]) for r in rows if r is not piv]
        if target >> bit & 1:
            target ^= piv[0]
            sol ^= piv[1]
    b = sol.to_bytes(4, "little")
    return b if crc_run(state, b) == want else None


def crafted(rng, part):
    """Record whose last bytes of a part do not change its checksum."""
    f, ident, eh, payload = foreign_parts(rng)
    ident, eh, payload = b"FDSN:A_B_C_D_E_F", b'{"a":1}', b"12345678"
    n = dict(id=0, eh=1, payload=2)[part]
    f["numSamples"] = 1
    f["encoding"] = 3
    for _ in range(3):
        lens = [len(ident), len(eh), len(payload)]
        lens[n] += 4
        if n < 2:
            payload, lens[2] = b"", 0
        if n < 1:
            eh, lens[1] = b"", 0
        head = lay(f, ident, eh, payload, lens=tuple(lens))
        z = head[:28] + b"\0\0\0\0" + head[32:]
        q = neutral4(crc_run(0xFFFFFFFF, z))
        if q:
            try:
                if n < 2:
                    q.decode("utf-8")
            except UnicodeDecodeError:
                return None
            return z[:28] + struct.pack("<I", crc(z + q)) + z[32:] + q, len(z)
    return None


def flip(b, bits):
    x = bytearray(b)
    for k in bits:
        x[k // 8] ^= 1 << (k % 8)
    return bytes(x)


def run_read(c):
    data = c["bytes"]
    e = dict(op="read", bytes=list(data), check=1 if c["check"] else 0, filter=c["filter"], damaged=0)
    if c.get("clean") is not None:
        e.update(damaged=1, clean=list(c["clean"]), starts=c["starts"], dpos=c["dpos"])
    recs = []

    def call(fp):
        for r in readMSeed3Records(fp, check_crc=c["check"], matchsid=c["regex"], verbose=False):
            recs.append(proj(r, samples=c.get("samples", False), eh=False))
            if c.get("meddle"):
                # what is done to a record must not reach the next one
                r.header.flags, r.header.numSamples, r.header.crc = 77, 12345, 1
                r.header.year, r.header.publicationVersion = 1, 99
                r.identifier = "meddled"
                r.eh = {"meddled": 1}
                try:
                    held = r.encodedDataBytes()
                except Exception:  # a record that cannot give its bytes is judged elsewhere
                    held = None
                if isinstance(held, bytearray):
                    held[:] = bytes(len(held))
            if c.get("twin"):
                # another reader at work in between
                for _ in readMSeed3Records(io.BytesIO(c["twin"]), check_crc=False):
                    break
            if len(recs) > 60:
                break
    how = c.get("how", "bytesio")
    if how == "bytesio":
        _, err = outcome(lambda: call(io.BytesIO(data)), secs=20)
    else:
        fn = c["file"]
        with open(fn, "wb") as out:
            out.write(c.get("prefix", b"") + data)
        with open(fn, "rb", **(dict(buffering=0) if how == "raw" else {})) as fp:
            fp.seek(len(c.get("prefix", b"")))
            _, err = outcome(lambda: call(fp), secs=20)
        os.unlink(fn)
    e["out"] = dict(recs=recs, end="eof" if err is None else "raise" if err != "Timeout" else "hangs")
    e["_note"] = f"{c['regex']} {err}"
    return e


def damage_cases(ctx):
    rng = ctx.rng
    out = []
    unp = []
    nf = dict(t="none")

    def stream(n, idents=None):
        rs = [base_record(rng, small=True, ident=None if idents is None else rng.choice(idents)) for _ in range(n)]
        starts, p = [], 0
        for r in rs:
            starts.append([p, len(r)])
            p += len(r)
        return b"".join(rs), starts

    def add(b, fault_pos, clean, starts, filt=nf, regex=None):
        c = dict(bytes=b, check=True, filter=filt, regex=regex)
        if filt is not nf:
            c.update(clean=clean, starts=starts, dpos=fault_pos)
        out.append(c)
    # every single bit of one record, alone and as the second of three
    one = base_record(rng, small=True, ident=b"FDSN:XX_ABC__H_H_Z")
    for k in range(8 * len(one)):
        unp.append(dict(bytes=flip(one, [k]), check=True, kind=k % 2))
    s3, st3 = stream(3, [b"FDSN:XX_ABC__H_H_Z", b"FDSN:XX_DEF__H_H_N"])
    step = ctx.scale(3, 1)
    for k in range(rng.randrange(step), 8 * len(s3), step):
        add(flip(s3, [k]), k // 8, s3, st3)
    # every truncation
    for k in range(len(one)):
        unp.append(dict(bytes=one[:k], check=True, kind=k % 2))
    for k in range(len(s3)):
        add(s3[:k], k, s3, st3)
    # records of thousands of bytes
    for n in ctx.scale((1100, 2300, 5000), (1023, 1024, 1100, 2048, 2300, 4096, 5000, 16400, 20000)):
        b = big_record(rng, n)
        st = [[0, len(b)]]
        for _ in range(3):
            k = rng.randrange(8 * 40, 8 * len(b)) if rng.random() < 0.7 else rng.randrange(8 * (len(b) - 64), 8 * len(b))
            add(flip(b, [k]), k // 8, b, st)
            unp.append(dict(bytes=flip(b, [k]), check=True, kind=k % 2))
    # two and three bits, often in the header; bursts
    hot = list(range(8 * 33, 8 * 40)) + list(range(8 * 28, 8 * 33)) + list(range(0, 24))
    for _ in range(ctx.scale(700, 12000)):
        if rng.random() < 0.5:
            b, st = s3, st3
        else:
            b, st = stream(rng.randint(1, 3))
        base, ln = rng.choice(st)
        if rng.random() < 0.5:
            nb = rng.randint(2, 3)
            bits = {8 * base + (rng.choice(hot) if rng.random() < 0.4 else rng.randrange(8 * ln)) for _ in range(nb)}
        else:
            w = rng.randint(2, 32)
            at = rng.randrange(0, 8 * ln - w + 1)
            bits = {at, at + w - 1} | {at + i for i in range(w) if rng.random() < 0.5}
            # bits of a byte are sent lowest first
            bits = {8 * base + i for i in bits}
        add(flip(b, bits), min(bits) // 8, b, st)
        if len(st) == 1:
            unp.append(dict(bytes=flip(b, bits), check=True))
    # up to four neighbouring bytes overwritten with one value, as by a wiped field
    for b, st in ((one, [[0, len(one)]]), (s3, st3)):
        for base, ln in st:
            for at in range(ln):
                for n, v in ((1, 0), (4, 0), (1, 255), (4, 255), (2, 0), (2, 255), (4, rng.randrange(256))):
                    if at + n > ln or (at >= 40 and rng.random() < 0.7):
                        continue
                    if not ctx.thorough and at % n and rng.random() < 0.7:
                        continue
                    x = b[:base + at] + bytes([v]) * n + b[base + at + n:]
                    if x != b:
                        k = next(i for i in range(len(b)) if b[i] != x[i])
                        add(x, k, b, st)
                        if len(st) == 1:
                            unp.append(dict(bytes=x, check=True, kind=at % 2))
    # with a filter
    hz = dict(t="cat", k=[dict(t="lit", c=ord("H")), dict(t="lit", c=ord("_")), dict(t="lit", c=ord("Z")), dict(t="eos")])
    for _ in range(ctx.scale(500, 6000)):
        b, st = stream(rng.randint(2, 5), [b"FDSN:XX_ABC__H_H_Z", b"FDSN:XX_DEF__H_H_N"])
        base, ln = rng.choice(st)
        r = rng.random()
        if r < 0.2:
            k = rng.randrange(1, len(b))
            add(b[:k], k, b, st, hz, "H_Z$")
        else:
            bits = {8 * base + (rng.choice(hot) if rng.random() < 0.3 else rng.randrange(8 * ln)) for _ in range(rng.randint(1, 3))}
            add(flip(b, bits), min(bits) // 8, b, st, hz, "H_Z$")
    # records cut where the checksum cannot tell
    for part in ("payload", "eh", "id") * ctx.scale(8, 40):
        x = crafted(rng, part)
        if x is None:
            continue
        b, cut = x
        unp.append(dict(bytes=b, check=True))
        for k in (cut, cut + 1, cut + 3):
            unp.append(dict(bytes=b[:k], check=True))
            add(b[:k], k, b, [[0, len(b)]])
            add(b + b[:k], len(b) + k, b, [[0, len(b)]])
    # not a record
    for junk in (b"\0" * 40, b"MS" + b"\0" * 60, b"MS\x02" + b"\0" * 60, b"hello", b"000001D CO" + b" " * 60):
        unp.append(dict(bytes=junk, check=True))
        add(one + junk, len(one), one, [[0, len(one)]])
    # undamaged
    for _ in range(ctx.scale(60, 600)):
        b, st = stream(rng.randint(1, 5))
        out.append(dict(bytes=b, check=True, filter=nf, regex=None, samples=True))
    return out, unp


def check_C03(ctx):
    ctx.model_check("Reader3_MC.tla", "Reader3_MC2.cfg" if ctx.thorough else "Reader3_MC.cfg")
    ctx.model_check("Reader3_MC.tla", "Reader3_Reach.cfg", expect_violation="WithoutCheck")
    ctx.model_check("Crc_MC.tla", "Crc_MC.cfg", env={"CRC_BITS": ctx.scale("1000", "4200")})
    rd, unp = damage_cases(ctx)
    ev = drive(run_read, rd) + drive(run_unpack, unp)
    ctx.judge("Rec3_Trace.tla", ev)
    ctx.assumptions += ["a source id filter may hide a record whose identifier is damaged; it must then only not be delivered",
                        "whether damaged bytes still are a valid record is decided by the specification's own CRC"]


# ---------------------------------------------------------------- samples (C08)
def enc_cases(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.scale(1400, 15000)):
        src = rng.choice(["list", "i2", "i4", "f4", "f8", "arr:h", "arr:i", "arr:f", "arr:d"])
        n = rand_len(rng)
        d = dict(src=src, be=rng.random() < 0.5, le=rng.randint(0, 1), wide=0, kind="int")
        nat = {"i2": 1, "arr:h": 1, "i4": 3, "arr:i": 3, "f4": 4, "arr:f": 4, "f8": 5, "arr:d": 5}.get(src)
        if src == "list":
            nat = rng.choice([1, 3, 4, 5])
            enc = nat
        else:
            enc = rng.choice([-1, nat, nat])
        if nat in (1, 3):
            d["items"] = rand_ints(rng, nat, n)
        elif src == "list" and rng.random() < 0.3:
            d["items"] = [rng.randint(-2 ** 24 + 1, 2 ** 24 - 1) for _ in range(n)]
        else:
            d["kind"] = "pat"
            d["items"] = [rand_pattern(rng, 4 if nat == 4 else 8) for _ in range(n)]
        r = rng.random()
        if r < 0.12 and nat in (1, 3):
            # ints in another encoding
            enc = rng.choice([1, 3, 5])
            d["items"] = [max(v, -2 ** 31 + 1) for v in d["items"]]
        elif r < 0.2:
            enc = rng.choice([0, 2, 10, 11, 13, 16, 19, 30, 32, 33, 100, 255, 7])
        elif r < 0.25 and nat in (4, 5) and d["kind"] == "pat":
            # fractions into an integer encoding
            enc = rng.choice([1, 3])
            d["items"] = [[0x3F, 0xC0, 0, 0] if nat == 4 else [0x3F, 0xF8, 0, 0, 0, 0, 0, 0]] * max(1, n)
        elif r < 0.33:
            # ints too wide for 32 bits, not given to float
            enc = rng.choice([1, 3])
            d.update(src=rng.choice(["list", "i8"]), kind="int", wide=1,
                     raw=[0, rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 40]), 1], items=[0, 0, 0])
        elif r < 0.4:
            v = rng.choice([32768, -32769, 65536, 70000, -2 ** 31])
            d.update(src=rng.choice(["list", "i4", "arr:i"]), kind="int", items=[1, v, 2][:rng.randint(2, 3)])
            enc = 1
        d["enc"] = enc
        out.append(d)
    # every 16 bit value, and the edges of 32 bit
    for le in (0, 1):
        for part in range(4):
            out.append(dict(src=["list", "i2", "arr:h", "i2"][part], be=bool(le), le=le, wide=0, kind="int", enc=1,
                            items=list(range(-32768 + 16384 * part, -16384 + 16384 * part, ctx.scale(37, 1)))))
        pw = sorted({s * (2 ** k + o) for k in range(32) for o in (-1, 0, 1) for s in (1, -1)} & set(range(-2 ** 31, 2 ** 31))
                    if False else {v for k in range(32) for o in (-1, 0, 1) for v in (2 ** k + o, -2 ** k - o) if -2 ** 31 <= v < 2 ** 31})
        for src in ("list", "i4", "arr:i"):
            out.append(dict(src=src, be=bool(le), le=le, wide=0, kind="int", enc=3, items=pw))
        f4 = [list(((s << 31) | (x << 23) | m).to_bytes(4, "big")) for x in range(255) for m in (0, 1, 0x7FFFFF, 0x2AAAAA)
              for s in (0, 1)]
        f8 = [list(((s << 63) | (x << 52) | m).to_bytes(8, "big")) for x in list(range(0, 2047, 31)) + [2046]
              for m in (0, 1, (1 << 52) - 1) for s in (0, 1)]
        for src, items, enc in (("f4", f4, 4), ("arr:f", f4, -1), ("f8", f8, 5), ("arr:d", f8, -1), ("list", f8, 5), ("list", f4, 4)):
            out.append(dict(src=src, be=bool(le), le=le, wide=0, kind="pat", enc=enc, items=items))
    return out


def run_enc(d):
    e = dict(op="enc", enc=d["enc"], le=d["le"], src=d["src"], kind=d["kind"], items=d["items"], wide=d["wide"])

    def call():
        if "raw" in d and d["src"] == "i8":
            data = np.array(d["raw"], dtype=">i8" if d["be"] else "<i8")
        else:
            data = build_data(d)
        enc = (None if len(data) % 2 else -1) if d["enc"] == -1 else d["enc"]   # both mean to choose
        if d["le"] and d["be"]:
            return encode(data, enc)  # little endian is the default
        return encode(data, enc, littleEndian=bool(d["le"]))
    r, err = outcome(call)
    if err:
        e["out"] = dict(k=err)
        return e
    v, err = outcome(lambda: values(r.decode(), r.compressionType))
    v2, err2 = outcome(lambda: values(decompress(r.compressionType, r.dataBytes, r.numSamples, r.littleEndian),
                                      r.compressionType))
    ok = err is None and err2 is None and v == v2
    e["out"] = dict(k="ok", bytes=list(bytes(r.dataBytes)), n=r.numSamples, enc=r.compressionType,
                    le=1 if r.littleEndian else 0, dec=dict(k="ok", v=v) if ok else dict(k="refused", v=[]))
    return e


def run_dec(c):
    e = dict(op="dec", enc=c["enc"], le=c["le"], bytes=list(c["bytes"]), n=c["n"])
    data = bytes(c["bytes"]) if c["n"] % 2 else bytearray(c["bytes"])
    keep = bytes(data)
    r, err = outcome(lambda: values(decompress(c["enc"], data, c["n"], bool(c["le"])), {32: 1}.get(c["enc"], c["enc"])))
    if bytes(data) != keep:
        err, r = None, ["input changed"]
    e["out"] = dict(k="ok", v=r) if err is None else dict(k=err)
    return e


def dec_cases(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.scale(1500, 15000)):
        enc = rng.choice([1, 3, 4, 5, 1, 3, 4, 5, 32])
        w = {1: 2, 3: 4, 4: 4, 5: 8, 32: 2}[enc]
        n = rand_len(rng)
        extra = rng.choice([0, 0, 0, 1, 3, 8, 100])
        if enc in (4, 5):
            le = rng.randint(0, 1)
            b = b"".join(bytes(rand_pattern(rng, w)[::-1 if le else 1]) for _ in range(n)) + bytes(extra)
        else:
            le = rng.randint(0, 1)
            b = bytes(rng.choice([0, 255, 127, 128, rng.getrandbits(8)]) for _ in range(n * w + extra))
        r = rng.random()
        if r < 0.2:
            n2 = (len(b) // w) + rng.choice([1, 2, 50])
        elif r < 0.3 and b:
            b = b[:-1]
            n2 = n
        else:
            n2 = n
        out.append(dict(enc=enc, le=le, bytes=b, n=n2))
    for enc in list(range(0, 40)) + [100, 255, 256, -1, 1000]:
        if enc in (1, 3, 4, 5, 10, 11, 32):
            continue
        for n in (0, 1, 3):
            out.append(dict(enc=enc, le=n % 2, bytes=bytes(range(64)), n=n))
    return out


def run_kind(enc):
    f = {bool(codec.isFloatCompression(enc)), bool(EncodedDataSegment(enc, b"", 0, True).isFloatCompression())}
    _, err = outcome(lambda: encode(bytes(8) if enc % 2 else bytearray(8), enc if enc % 3 else None))
    return dict(op="kind", enc=enc, float=f == {True} if len(f) == 1 else not enc in (4, 5),
                prim=codec.isPrimitiveCompression(enc) is True, can=codec.canDecompress(enc) is True,
                again="refused" if err else "encoded")


def check_C08(ctx):
    ctx.model_check("Prim_MC.tla", "Prim_MC.cfg")
    ctx.judge("Rec3_Trace.tla", drive(run_enc, enc_cases(ctx)) + drive(run_dec, dec_cases(ctx))
              + drive(run_kind, list(range(256))))
    ctx.assumptions += ["NaN samples are compared as NaN", "floats given to 32 bit encoding are representable in it"]


# ---------------------------------------------------------------- streams (C09)
def rand_regex(rng, ids, depth=2):
    """-> (node, pattern)"""
    import re as _re

    def lit(ch):
        return dict(t="lit", c=ord(ch)), _re.escape(ch)

    def atom(dp):
        r = rng.random()
        base = rng.choice(ids) or "x"
        if r < 0.55:
            return lit(rng.choice(base))
        if r < 0.65:
            return dict(t="any"), "."
        if r < 0.85:
            neg = rng.random() < 0.3
            rs = rng.choice([[("A", "Z")], [("a", "z"), ("0", "9")], [("_", "_")], [("H", "H"), ("Z", "Z"), ("N", "N")]])
            pat = "[" + ("^" if neg else "") + "".join(a if a == b else f"{a}-{b}" for a, b in rs) + "]"
            return dict(t="set", neg=1 if neg else 0, ranges=[[ord(a), ord(b)] for a, b in rs]), pat
        if dp > 0:
            k = [cat(dp - 1) for _ in range(2)]
            return dict(t="alt", k=[x for x, _ in k]), "(?:" + "|".join(p for _, p in k) + ")"
        return lit(rng.choice(base))

    def cat(dp):
        ks, ps = [], []
        if rng.random() < 0.4:
            # a piece of a real identifier
            base = rng.choice(ids)
            i = rng.randrange(0, max(1, len(base)))
            for ch in base[i:i + rng.randint(1, 6)]:
                n, p = lit(ch)
                ks.append(n)
                ps.append(p)
        for _ in range(rng.randint(0 if ks else 1, 3)):
            n, p = atom(dp)
            q = rng.choice(["", "", "", "*", "+", "?"])
            if q in ("*", "+") and n["t"] == "alt":
                q = "?"  # nothing that takes a backtracking matcher exponential time
            if q:
                n = dict(t={"*": "star", "+": "plus", "?": "opt"}[q], a=n)
            ks.append(n)
            ps.append(p + q)
        return dict(t="cat", k=ks), "".join(ps)
    r = rng.random()
    if r < 0.05:
        return dict(t="cat", k=[]), ""
    n, p = cat(depth)
    if r < 0.25:
        n, p = dict(t="cat", k=[dict(t="bos"), n]), "^" + p
    if r > 0.8:
        n, p = dict(t="cat", k=[n, dict(t="eos")]), p + "$"
    if 0.4 < r < 0.45:
        n, p = dict(t="cat", k=[dict(t="bos"), n, dict(t="eos")]), "^" + p + "$"
    return n, p


def stream_cases(ctx):
    rng = ctx.rng
    out = []
    ids = ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_BIRD_00_H_H_N", "FDSN:CO_JSC_00_H_H_Z", "FDSN:XX_A__L_O_G", "é€😀_x",
           "XFDSN:XX_A__L_O_G/more", "", "MS"]
    for i in range(ctx.scale(700, 8000)):
        rs = []
        pool = rng.sample(ids, rng.randint(1, 4))
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
            f, ident, eh, payload = foreign_parts(rng)
            r = rng.random()
            if r < 0.15 and rs:
                # a payload, or extra headers, that look like a record
                payload, f["encoding"], f["numSamples"] = rng.choice(rs), 100, 0
            elif r < 0.2:
                payload, f["encoding"], f["numSamples"] = b"", 0, 0
            elif r < 0.25:
                eh = json.dumps({"pad": "p" * rng.choice([250, 260, 500])}).encode()
            elif r < 0.27:
                payload = bytes(rng.getrandbits(8) for _ in range(300))
                f["encoding"], f["numSamples"] = 3, 75
            rs.append(lay(f, rng.choice(pool).encode(), eh, payload))
        c = dict(bytes=b"".join(rs), check=rng.random() < 0.5, filter=dict(t="none"), regex=None,
                 how=rng.choice(["bytesio", "bytesio", "file", "raw"]), samples=rng.random() < 0.3,
                 meddle=rng.random() < 0.6, file=ctx.path(f"s{i}.ms3"), prefix=rng.choice([b"", b"", b"junk before"]))
        if rs and rng.random() < 0.15:
            c["twin"] = rs[-1]
        if rng.random() < 0.7:
            c["filter"], c["regex"] = rand_regex(rng, pool)
        out.append(c)
    # records bigger than any buffer, some of them skipped
    for i in range(ctx.scale(6, 30)):
        rs = []
        for j in range(5):
            f, ident, eh, payload = foreign_parts(rng)
            eh = json.dumps({"pad": "p" * rng.choice([0, 9000, 20000])}).encode() if rng.random() < 0.5 else b""
            payload = bytes(rng.choice([0, 8192, 8191, 20000, 70000]))
            f["encoding"], f["numSamples"] = 1, 0
            rs.append(lay(f, rng.choice(ids[:3]).encode(), eh, payload))
        filt = rng.choice([(dict(t="none"), None), rand_regex(rng, ids[:3])])
        out.append(dict(bytes=b"".join(rs), check=bool(i % 2), filter=filt[0], regex=filt[1], how=["file", "bytesio"][i % 2],
                        file=ctx.path(f"big{i}.ms3")))
    return out


def check_C09(ctx):
    ctx.model_check("Reader3_MC.tla", "Reader3_MC.cfg")
    ctx.judge("Rec3_Trace.tla", drive(run_read, stream_cases(ctx)))
    ctx.assumptions += ["streams of up to 8 records; filters made of literals, classes, repetition, alternation, anchors",
                        "streams that give all bytes asked for (files, BytesIO)"]
