"""Making, laying out and projecting miniSEED 3 records, shared by groups."""
import array
import copy
import json
import re
import struct

import numpy as np

import vlib
from vlib import outcome

import simplemseed
from simplemseed import EncodedDataSegment, FDSNSourceId, MSeed3Header, MSeed3Record

WIDTHS = dict(flags=1, nanosecond=4, year=2, dayOfYear=2, hour=1, minute=1, second=1,
              publicationVersion=1, encoding=1, numSamples=4, crc=4, identifierLength=1,
              extraHeadersLength=2, dataLength=4)
NUMS = ["flags", "nanosecond", "year", "dayOfYear", "hour", "minute", "second", "publicationVersion"]

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ 0x82F63B78 if _c & 1 else _c >> 1
    _T.append(_c)


def crc_run(c, data):
    for b in data:
        c = (c >> 8) ^ _T[(c ^ b) & 255]
    return c


def crc(data):
    return crc_run(0xFFFFFFFF, data) ^ 0xFFFFFFFF


def lay(f, ident, eh, payload, lens=None):
    """Lay out a record, independently of the library; f: field -> int, rate: 8 bytes."""
    n = lens or (len(ident), len(eh), len(payload))
    h = b"MS\x03" + struct.pack("<BIHHBBBB", f["flags"], f["nanosecond"], f["year"], f["dayOfYear"], f["hour"],
                                f["minute"], f["second"], f["encoding"]) + bytes(f["rate"]) \
        + struct.pack("<I", f["numSamples"])
    t = struct.pack("<BBHI", f["publicationVersion"], n[0], n[1], n[2]) + ident + eh + payload
    return h + struct.pack("<I", crc(h + b"\0\0\0\0" + t)) + t


def canon(x):
    """One string for a JSON value; none and empty are the same."""
    if x is None or x == "":
        x = {}
    return json.dumps(x, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def le(v, w):
    if isinstance(v, (bool, np.bool_)):
        return [-2]
    try:
        return list(int(v).to_bytes(w, "little"))
    except (OverflowError, ValueError, TypeError):
        return [-1]


def num(v):
    """Any integer as sign and eight bytes."""
    return dict(s=1 if v < 0 else 0, b=list(abs(v).to_bytes(8, "little")))


def cps(s):
    return [ord(c) for c in s]


def float_patterns(arr, enc):
    a = np.asarray(arr)
    w = 4 if enc == 4 else 8
    if a.dtype.kind != "f" or a.dtype.itemsize != w:
        return None
    b = a.astype(f">f{w}").tobytes()
    return [list(b[i:i + w]) for i in range(0, len(b), w)]


def values(arr, enc):
    """Samples as the specification has them."""
    a = np.asarray(arr)
    if a.ndim != 1:
        return ["shape"]
    if len(a) == 0:
        return []
    if enc in (4, 5):
        p = float_patterns(a, enc)
        return ["not floats"] if p is None else p
    if a.dtype.kind not in "iu":
        return ["not ints"]
    return [int(v) if -2 ** 31 <= int(v) < 2 ** 31 else "wide" for v in a]


def proj_samples(rec):
    v, err = outcome(lambda: values(rec.decompress(), rec.header.encoding))
    return dict(k="ok", v=v) if err is None else dict(k="refused", why=err)


def proj_header(h):
    f = {k: le(getattr(h, k), w) for k, w in WIDTHS.items()}
    r, err = outcome(lambda: list(struct.pack("<d", h.sampleRatePeriod)))
    f["rate"] = r if err is None else [-1]
    return f


def repack(rec):
    """What the record packs to, without touching it."""
    b, err = outcome(lambda: list(bytes(copy.deepcopy(rec).pack())))
    return b if err is None else [-1]


def proj(rec, samples=True, eh=True):
    r = dict(f=proj_header(rec.header), id=cps(str(rec.identifier)), pl=list(rec.encodedDataBytes()),
             rp=repack(rec))
    if samples:
        r["smp"] = proj_samples(rec)
    if eh:
        v, err = outcome(lambda: canon(copy.deepcopy(rec).eh))
        r["ehc"] = v if err is None else err
    return r


# ---------------------------------------------------------------- generators
def rand_id(rng):
    r = rng.random()
    if r < 0.55:
        return "FDSN:" + rng.choice(["CO", "XX", "TESTNET1"]) + "_" + rng.choice(["BIRD", "JSC", "A-1"]) + "_" \
            + rng.choice(["", "00", "10"]) + "_" + rng.choice(["H_H_Z", "B_H_N", "L_O_G", "_XYZ_"])
    if r < 0.65:
        return ""
    if r < 0.75:
        return "".join(rng.choice("abcXYZ:_-./ 019{}\"\\'") for _ in range(rng.randint(1, 40)))
    if r < 0.9:
        return "".join(rng.choice("aé€😀_ߞ汉") for _ in range(rng.randint(1, 20)))
    return "XFDSN:" + "Q" * rng.choice([1, 248, 249, 250, 260])


def rand_json(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < 0.55:
        return rng.choice([None, True, False, 0, 1, -1, 2 ** 31, -2 ** 63, 2 ** 60, 1.5, -0.0, 1e300, 5e-324, 0.1,
                           "", "a", "é€😀", "line\nbreak\t\"q\"\\", "/~", "\x00\x1f", "\u2028"])
    if r < 0.75:
        return [rand_json(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["a", "b", "FDSN", "Time", "é", "", "a/b", "~", "0"]): rand_json(rng, depth - 1)
            for _ in range(rng.randint(0, 3))}


def rand_eh(rng):
    d = rand_json(rng, 3)
    return d if isinstance(d, dict) else {"FDSN": {"Time": {"Quality": 100}}, "v": d}


def rand_rate(rng):
    v = rng.choice([1.0, 20.0, 100.0, -10.0, 0.0, -0.0, 0.1, -0.25, 1e-300, 1.7976931348623157e308, 5e-324,
                    float("inf"), float("-inf"), 40, -3600, rng.uniform(-1000, 1000), 3])
    return v, list(struct.pack("<d", v))


F4SPECIAL = [0x00000000, 0x80000000, 0x3F800000, 0x7F800000, 0xFF800000, 0x00000001, 0x807FFFFF, 0x007FFFFF,
             0x7F7FFFFF, 0xFF7FFFFF, 0x00800000, 0x7FC00000, 0x3EAAAAAB]
F8SPECIAL = [0x0, 1 << 63, 0x3FF0000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 1, 0x800FFFFFFFFFFFFF,
             0x7FEFFFFFFFFFFFFF, 0x0010000000000000, 0x7FF8000000000000, 0x3FB999999999999A]


def rand_pattern(rng, w, nan=True):
    if rng.random() < 0.5:
        p = rng.choice(F4SPECIAL if w == 4 else F8SPECIAL)
    else:
        p = rng.getrandbits(8 * w)
    b = p.to_bytes(w, "big")
    f = struct.unpack(">f" if w == 4 else ">d", b)[0]
    if f != f:
        # only quiet NaN of no particular payload
        return list((0x7FC00000 if w == 4 else 0x7FF8000000000000).to_bytes(w, "big")) if nan else [0] * w
    return list(b)


def unpattern(p):
    return struct.unpack(">f" if len(p) == 4 else ">d", bytes(p))[0]


INTPOOL = {1: [-32768, 32767, 0, -1, 1, 255, 256, -256], 3: [-2 ** 31, 2 ** 31 - 1, 0, -1, 65536, 2 ** 24 + 1, -32769]}


def rand_ints(rng, enc, n):
    lo, hi = (-32768, 32767) if enc == 1 else (-2 ** 31, 2 ** 31 - 1)
    return [rng.choice(INTPOOL[enc]) if rng.random() < 0.4 else rng.randint(lo, hi) for _ in range(n)]


def rand_len(rng):
    r = rng.random()
    return 0 if r < 0.08 else 1 if r < 0.2 else rng.randint(2, 20) if r < 0.85 else rng.randint(21, 120)
