"""C04..C07: Steim1 and Steim2 compression against SteimFormat / SteimCodec."""
import json
import struct

import numpy as np

import vlib
from vlib import drive, outcome

from simplemseed import (CodecException, STEIM1, STEIM2, decodeSteim1, decodeSteim2, decompress,
                         encodeSteim1, encodeSteim1FrameBlock, encodeSteim2, encodeSteim2FrameBlock)

KINDS = [(CodecException, "codec")]
I32 = (-2 ** 31, 2 ** 31 - 1)
DECODE = {1: decodeSteim1, 2: decodeSteim2}
ENCODE = {1: encodeSteim1, 2: encodeSteim2}
BLOCK = {1: encodeSteim1FrameBlock, 2: encodeSteim2FrameBlock}
CODE = {1: STEIM1, 2: STEIM2}
DTYPES = ["i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4", "<i8", ">i8", "<u8", ">u8"]


def words(data):
    n = len(data) // 64
    return [list(struct.unpack(">16i", bytes(data[i * 64:i * 64 + 64]))) for i in range(n)], len(data) % 64


def ints(arr):
    out = [int(v) for v in arr]
    return out if all(I32[0] <= v <= I32[1] for v in out) else ["not32"]


def wrap32(v):
    return (v + 2 ** 31) % 2 ** 32 - 2 ** 31


# ---------------------------------------------------------------- inputs
def edge_diffs(v):
    e = [0, 1, -1]
    for b in ((4, 5, 6, 8, 10, 15, 30) if v == 2 else (8, 16)):
        h = 1 << (b - 1)
        e += [h - 1, -h, h, -h - 1]
    return e


def make_series(rng, v, n, style):
    """A series of n ints within 32 bits."""
    edges = edge_diffs(v)
    lim = 2 ** 29 - 1 if v == 2 else 2 ** 31 - 1
    if style == "extreme":
        pool = [I32[0], I32[1], 0, -1, 1, 2 ** 29, -2 ** 29 - 1, 2 ** 30]
        return [rng.choice(pool) for _ in range(n)]
    if style == "const":
        c = rng.choice([0, 7, -129, 2 ** 29 - 1, -2 ** 29, 40000])
        return [c] * n
    if style == "random":
        return [rng.randint(*I32) for _ in range(n)]
    x, out = 0, []
    bits = 4
    for i in range(n):
        if style == "edges":
            d = rng.choice(edges)
        elif style == "run":
            # runs of one width, so that every packing is used and then broken
            if i % rng.randint(3, 9) == 0:
                bits = rng.choice([4, 5, 6, 8, 10, 15, 16, 30 if v == 2 else 31])
            d = rng.randint(-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
            if rng.random() < 0.3:
                d = rng.choice([-(1 << (bits - 1)), (1 << (bits - 1)) - 1])
        else:
            d = rng.randint(-8, 7) if style == "small" else rng.randint(-120, 120)
        if not -lim - 1 <= x + d <= lim:
            d = -d if -lim - 1 <= x - d <= lim else 0
        x += d
        out.append(x)
    return out


STYLES = ["edges", "run", "run", "small", "mid", "extreme", "const", "random"]


def dtype_for(rng, s):
    """list, or a numpy type that holds s."""
    ok = ["list", "tuple"]
    lo, hi = min(s), max(s)
    for d in DTYPES:
        ii = np.iinfo(np.dtype(d))
        if ii.min <= lo and hi <= ii.max:
            ok.append(d)
    return rng.choice(ok)


def as_input(s, kind):
    if kind == "list":
        return list(s)
    if kind == "tuple":
        return tuple(s)
    if kind.endswith("strided"):
        return np.array([v for x in s for v in (x, 77)], dtype=kind[:-7])[::2]
    return np.array(s, dtype=kind)


def bad_inputs():
    """name -> maker of a thing that is not a sequence of 32 bit ints"""
    return {
        "empty list": lambda: [],
        "empty array": lambda: np.array([], dtype="i4"),
        "2d": lambda: np.array([[1, 2], [3, 4]], dtype="i4"),
        "2d one row": lambda: np.array([[1, 2, 3]], dtype="i4"),
        "nested": lambda: [[1, 2], [3, 4]],
        "ragged": lambda: [[1, 2], [3]],
        "0d": lambda: np.array(5, dtype="i4"),
        "float list": lambda: [1.0, 2.0],
        "float mixed": lambda: [1, 2.5, 3],
        "float integral late": lambda: [1] * 50 + [2.0],
        "f4": lambda: np.array([1, 2], dtype="f4"),
        "f8": lambda: np.array([1, 2], dtype="f8"),
        "f8 whole frame": lambda: np.arange(200, dtype="f8"),
        "complex": lambda: np.array([1, 2], dtype="c8"),
        "strings": lambda: ["a", "b"],
        "digit strings": lambda: ["1", "2"],
        "bytes array": lambda: np.array([b"1", b"2"]),
        "none": lambda: [None, 1],
        "datetimes": lambda: np.array([1, 2], dtype="M8[s]"),
        "timedelta": lambda: np.array([1, 2], dtype="m8[s]"),
        "too big": lambda: [0, 2 ** 31],
        "too small": lambda: [0, -2 ** 31 - 1],
        "too big i8": lambda: np.array([0, 2 ** 31], dtype="i8"),
        "too small i8": lambda: np.array([-2 ** 31 - 1, 5], dtype=">i8"),
        "too big u4": lambda: np.array([1, 2 ** 31], dtype="u4"),
        "too big u8": lambda: np.array([2 ** 63 + 1, 2], dtype="u8"),
        "wraps to 0": lambda: np.array([2 ** 32, 1], dtype="i8"),
        "wraps to 0 list": lambda: [1, 2 ** 32 + 1, 2],
        "huge list": lambda: [1, 2 ** 70],
        "big late": lambda: [0] * 300 + [2 ** 31],
        "big only": lambda: [2 ** 31],
    }


# ---------------------------------------------------------------- drivers
def run_encode(c):
    v = c["v"]
    e = dict(op="encode", v=v, limit=c["limit"], bias=c["bias"], off=c["off"])
    if "bad" in c:
        e.update(s=[], **{"in": "bad"})
        x = bad_inputs()[c["bad"]]()
        e["_note"] = c["bad"]
    else:
        e.update(s=c["s"], **{"in": "ints"})
        e["_note"] = c["kind"]
        x = as_input(c["s"], c["kind"])
    keep = np.array(x, copy=True) if isinstance(x, np.ndarray) else None
    args = dict(frames=c["limit"], bias=c["bias"])
    if v == 1:
        args["offset"] = c["off"]

    def call():
        fb = BLOCK[v](x, **args)
        return fb, bytes(fb.pack()), fb.getNumSamples()
    r, err = outcome(call, KINDS)
    if err:
        e["out"] = dict(k=err)
        # the other entry point has to refuse just the same
        _, err2 = outcome(lambda: ENCODE[v](x, **args), KINDS)
        if err2 != err:
            e["out"] = dict(k=f"{err} or {err2}")
        return e
    fb, data, n = r
    fr, rest = words(data)
    o = dict(k="ok", n=int(n), frames=fr, rest=rest)

    def dec():
        a = ints(DECODE[v](data, n, c["bias"]))
        b = ints(decompress(CODE[v], bytearray(data), n, c.get("le", False)))
        return a if a == b else ["differ"]
    d, err = outcome(dec, KINDS)
    o["dec"] = d if err is None else [err]

    def padded():
        p = bytes(fb.getEncodedData())
        want = 64 * c["limit"] if c["limit"] > 0 else len(data)
        if len(p) != want or p[:len(data)] != data or any(p[len(data):]):
            return "encoded data"
        if bytes(ENCODE[v](x, **args)) != data:
            return "entry points differ"
        if fb.getNumFrames() * 64 != want:
            return "number of frames"
        if keep is not None and not (keep.dtype == x.dtype and (keep == x).all()):
            return "input changed"
        pd, perr = outcome(lambda: ints(DECODE[v](p, n, c["bias"])), KINDS)
        return "same" if pd == o["dec"] else "padded does not decode"
    p, err = outcome(padded, KINDS)
    o["padded"] = p if err is None else err
    e["out"] = o
    return e


def run_chain(c):
    """Whole series in consecutive blocks."""
    v, s, mode, lim = c["v"], c["s"], c["mode"], c["limit"]
    x = as_input(s, c["kind"])
    e = dict(op="chain", v=v, s=s, mode=mode, limit=lim, parts=[])
    pos = 0
    last = 0
    while pos < len(s):
        bias = last if mode.endswith("bias") and pos > 0 else 0

        def call():
            if mode.startswith("offset"):
                fb = BLOCK[v](x, lim, bias, pos)
            else:
                fb = BLOCK[v](x[pos:], lim, bias)
            data = bytes(fb.getEncodedData() if c["padded"] else fb.pack())
            n = int(fb.getNumSamples())
            return n, ints(DECODE[v](data, n, bias))
        r, err = outcome(call, KINDS)
        if err:
            e["out"] = dict(k=err)
            return e
        n, dec = r
        e["parts"].append(dict(n=n, dec=dec))
        if n < 1:
            break
        pos += n
        last = s[min(pos, len(s)) - 1]
    e["out"] = dict(k="ok")
    return e


def run_decode(c):
    v = c["v"]
    data = b"".join(struct.pack(">16i", *f) for f in c["frames"]) + b"\x00" * c["rest"]
    if c.get("mut"):
        data = bytearray(data)
    e = dict(op="decode", v=v, frames=c["frames"], rest=c["rest"], n=c["n"], bias=c["bias"])

    def call():
        a = ints(DECODE[v](data, c["n"], c["bias"]))
        if c["bias"] == 0:
            b = ints(decompress(CODE[v], data, c["n"], c.get("le", False)))
            if a != b:
                return ["differ"]
        return a
    r, err = outcome(call, KINDS)
    e["out"] = dict(k="ok", s=r) if err is None else dict(k=err)
    return e


def run_spec(g):
    v = g["v"]

    def call():
        out = []
        for b in g["blocks"]:
            data = b"".join(struct.pack(">16i", *f) for f in b["frames"])
            out += ints(DECODE[v](data, b["n"], b["bias"]))
        return out
    r, err = outcome(call, KINDS)
    return dict(op="spec", v=v, s=g["s"], out=dict(k="ok", s=r) if err is None else dict(k=err), _gen=g)


# ---------------------------------------------------------------- checks
def encode_cases(ctx, v, n, limits):
    rng = ctx.rng
    out = []
    for i in range(n):
        r = rng.random()
        ln = rng.randint(1, 12) if r < 0.3 else rng.randint(13, 130) if r < 0.8 else rng.randint(131, 420)
        style = rng.choice(STYLES)
        s = make_series(rng, v, ln, style)
        lim = rng.choice(limits)
        bias = 0
        if rng.random() < 0.2:
            bias = rng.choice([5, -1, s[0], s[0] + 3 if s[0] < I32[1] - 3 else 1, 2 ** 20, -70000])
        off = 0
        if v == 1 and rng.random() < 0.2:
            off = rng.randrange(0, len(s))
        kind = dtype_for(rng, s)
        if kind not in ("list", "tuple") and rng.random() < 0.15:
            kind += "strided"
        out.append(dict(v=v, s=s, limit=lim, bias=bias, off=off, kind=kind, le=rng.random() < 0.5))
    # every dtype with series at the ends of its range, with jumps over all of it
    for d in DTYPES:
        ii = np.iinfo(np.dtype(d))
        lo, hi = max(ii.min, I32[0]), min(ii.max, I32[1])
        if v == 2:
            lo, hi = max(lo, -2 ** 28), min(hi, 2 ** 28)
        mid = (lo + hi) // 2
        for s in ([lo, hi, lo, lo, hi], [hi, lo], [mid, lo, mid, hi] * 30, [hi] * 5 + [lo] * 9, [lo, hi] * 100):
            for lim in limits:
                out.append(dict(v=v, s=s, limit=lim, bias=0, off=0, kind=d))
    # all the lengths around the ends of frames
    for ln in list(range(1, 9)) + list(range(45, 66)) + list(range(84, 95)) + list(range(104, 124)):
        for st in ("mid", "small", "extreme"):
            s = make_series(rng, v, ln, st) if st != "extreme" else \
                [(2 ** 27 if v == 2 else 2 ** 30) * (-1) ** k for k in range(ln)]
            out.append(dict(v=v, s=s, limit=rng.choice(limits), bias=0, off=0, kind=dtype_for(rng, s)))
    # pairs and triples of edge differences
    ed = edge_diffs(v)
    for a in ed:
        for b in ed:
            s = [a, a + b]
            if all(I32[0] <= q <= I32[1] for q in s):
                out.append(dict(v=v, s=s, limit=rng.choice(limits), bias=0, off=0, kind="list"))
    # each width: exactly 7, 6, 5, 4, 3, 2 of a width and one wider difference at each place
    for b in ((4, 5, 6, 8, 10, 15, 30) if v == 2 else (8, 16, 32)):
        lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
        for m in range(1, 9):
            for at in range(m):
                for extra in ((hi + 1, lo - 1) if b < 30 else ()):
                    d = [hi if k % 2 == 0 else lo for k in range(m)]
                    d[at] = extra
                    s, x = [], 0
                    for q in d:
                        x = x + q
                        s.append(x)
                    if all(I32[0] <= q <= I32[1] for q in s):
                        out.append(dict(v=v, s=s, limit=0, bias=0, off=0, kind="list"))
    # a difference that is too wide at every place of the series
    if v == 2:
        for ln in (1, 2, 5, 8, 60, 110):
            for at in sorted({0, 1, ln // 2, ln - 1} & set(range(ln))):
                for big in (2 ** 29, -2 ** 29 - 1, I32[1], I32[0]):
                    s = [0] * at + [big] * (ln - at)
                    for lim in limits[:2]:
                        out.append(dict(v=v, s=s, limit=lim, bias=0, off=0, kind=dtype_for(rng, s)))
        for s in ([I32[0], I32[1]], [2 ** 29 - 1, -2 ** 29 + 5, 2 ** 31 - 1], [-2 ** 29, 2 ** 29 - 1]):
            out.append(dict(v=v, s=s, limit=0, bias=0, off=0, kind="<i4"))
        # bias that makes the first difference too wide, or fit
        out.append(dict(v=v, s=[2 ** 30, 2 ** 30 + 1], limit=0, bias=2 ** 30 - 7, off=0, kind="list"))
        out.append(dict(v=v, s=[5, 6], limit=0, bias=-2 ** 31, off=0, kind="list"))
    for name in bad_inputs():
        for lim in limits:
            out.append(dict(v=v, bad=name, limit=lim, bias=0, off=0))
    return out


def generate(ctx, v, series, num):
    fn = ctx.path("series.ndjson")
    with open(fn, "w") as f:
        for s in series:
            f.write(json.dumps(dict(s=s)) + "\n")
    return ctx.generate("Steim_Gen.tla", f"Steim{v}_Gen.cfg", num=num, depth=400,
                        env={"GEN_SERIES": fn}, shards=8)


def design(ctx, *versions):
    n = {"MC_N": ctx.scale("3", "4")}
    for v in versions:
        ctx.model_check("Steim_MC.tla", f"Steim{v}_MC.cfg", env=n)
        ctx.model_check("Steim_MC.tla", f"Steim{v}_Reach.cfg", env=n, expect_violation="Unreached")
        if v == 2:
            ctx.model_check("Steim_MC.tla", "Steim2_MCsmall.cfg", env=n)


def roundtrip(ctx, v):
    design(ctx, v)
    ctx.judge("Steim_Trace.tla", drive(run_encode, encode_cases(ctx, v, ctx.scale(900, 8000), [0])))
    ctx.assumptions += [
        "the samples are judged in full by SteimFormat!Decode; word formats transcribed from SEED manual appendix B",
        "series up to 420 samples (thorough: some of 6000), widths at their edges, all numpy integer types"]
    if ctx.thorough:
        big = [dict(v=v, s=make_series(ctx.rng, v, ctx.rng.randint(2000, 6000), st), limit=0, bias=0, off=0, kind="<i4")
               for st in STYLES for _ in range(4)]
        ctx.judge("Steim_Trace.tla", drive(run_encode, big))


def check_C04(ctx):
    roundtrip(ctx, 1)


def check_C05(ctx):
    roundtrip(ctx, 2)


def check_C06(ctx):
    rng = ctx.rng
    design(ctx, 1, 2)
    ev = []
    for v in (1, 2):
        ev += encode_cases(ctx, v, ctx.scale(500, 5000), [1, 2, 3, 5, 63])
        # more frames than fit into a byte
        for lim in ctx.scale((255, 256, 300), (254, 255, 256, 257, 300, 513)):
            n = 15 * lim + rng.choice([-20, -3, -2, -1, 0, 5, 300])
            w = 2 ** 27 if v == 2 else 2 ** 20
            s = [w * (-1) ** k + rng.randint(-9, 9) for k in range(n)]
            ev.append(dict(v=v, s=s, limit=lim, bias=0, off=0, kind="<i4"))
    for neg in (-1, -5):
        for v in (1, 2):
            ev.append(dict(v=v, s=[1, 2, 3], kind="list", limit=neg, bias=0, off=0))
    for off in (-1, 3, 9):
        ev.append(dict(v=1, s=[1, 2, 3], kind="list", limit=0, bias=0, off=off))
    ctx.judge("Steim_Trace.tla", drive(run_encode, ev))
    ch = []
    for i in range(ctx.scale(400, 4000)):
        v = 1 + i % 2
        s = make_series(rng, v, rng.randint(30, 500), rng.choice(["edges", "run", "small", "mid", "const", "run"]))
        mode = rng.choice(["slice", "slice-bias"] + (["offset", "offset-bias"] if v == 1 else []))
        ch.append(dict(v=v, s=s, mode=mode, limit=rng.choice([1, 1, 2, 3, 4, 7]), kind=dtype_for(rng, s),
                       padded=rng.random() < 0.4))
    ctx.judge("Steim_Trace.tla", drive(run_chain, ch))
    ctx.assumptions.append("limits 1, 2, 3, 4, 5, 7, 63 and 255 to 300 frames; chains of up to 500 samples")


def random_frame_case(rng, v):
    """Frames whose words are any bits, described by any codes."""
    nf = rng.choice([1, 1, 2, 3])
    legal = rng.random() < 0.75
    frames = []
    total = 0
    for f in range(nf):
        ctl = 0
        w = [0] * 16
        early = rng.choice([16, 16, 16, rng.randint(4, 15)])
        for k in range(1, 16):
            bits = rng.choice([0, 0xFFFFFFFF, rng.getrandbits(32), rng.getrandbits(32), 0x80000000, 0x7FFFFFFF,
                               0x80808080, 0x7F7F7F7F, 0x20842108])
            code = rng.choice([0, 1, 2, 3, 1, 2, 3])
            if f == 0 and k < 3 or k >= early:
                code = 0
            if v == 2 and code in (2, 3):
                dn = bits >> 30
                if code == 2 and dn == 0 or code == 3 and dn == 3:
                    if legal or rng.random() < 0.9:
                        bits = (bits & 0x3FFFFFFF) | (rng.choice([1, 2, 3] if code == 2 else [0, 1, 2]) << 30)
                dn = bits >> 30
                total += {2: {1: 1, 2: 2, 3: 3, 0: 0}, 3: {0: 5, 1: 6, 2: 7, 3: 0}}[code][dn]
            else:
                total += {0: 0, 1: 4, 2: 2, 3: 1}[code]
            ctl |= code << (30 - 2 * k)
            w[k] = wrap32(bits)
        w[0] = wrap32(ctl)
        frames.append(w)
    r = rng.random()
    n = total if r < 0.5 else rng.randint(1, max(1, total)) if r < 0.8 else total + rng.choice([1, 2, 7, 100])
    n = max(1, n)
    return dict(v=v, frames=frames, rest=0, n=n, bias=rng.choice([0, 0, 0, 1, -77, 2 ** 31 - 1, -2 ** 31, 123456]),
                mut=rng.random() < 0.5, le=rng.random() < 0.5)


def check_C07(ctx):
    rng = ctx.rng
    design(ctx, 1, 2)
    ev = []
    for v in (1, 2):
        for _ in range(ctx.scale(1200, 15000)):
            c = random_frame_case(rng, v)
            ev.append(c)
        # not a whole number of frames
        for rest in (1, 4, 32, 60, 63):
            c = random_frame_case(rng, v)
            ev.append(dict(c, rest=rest))
            ev.append(dict(c, rest=rest, n=1))
            ev.append(dict(c, rest=rest, frames=[], n=1))
        ev.append(dict(v=v, frames=[], rest=0, n=1, bias=0))
        ev.append(dict(v=v, frames=[], rest=0, n=5, bias=3))
        # every code at every word of first and second frame
        for f in (0, 1):
            for k in range(3 if f == 0 else 1, 16):
                for code in (0, 1, 2, 3):
                    for dn in range(4):
                        fr = [[0] * 16 for _ in range(f + 1)]
                        fr[0][1] = 1000
                        fr[0][2] = 3
                        if f == 1:
                            fr[0][0] = 3 << (30 - 2 * 9) if v == 1 else 1 << (30 - 2 * 9)
                            fr[0][9] = 0x01020304
                        fr[f][0] = wrap32(fr[f][0] | code << (30 - 2 * k))
                        fr[f][k] = wrap32((dn << 30) | rng.getrandbits(30))
                        for n in (1, rng.randint(2, 8)):
                            ev.append(dict(v=v, frames=fr, rest=0, n=n, bias=rng.choice([0, 0, 9])))
    ctx.judge("Steim_Trace.tla", drive(run_decode, ev))
    gen = []
    for v in (1, 2):
        series = [make_series(rng, v, rng.choice([1, 2, 5, 20, 40, 70, 110]), st)
                  for st in ("edges", "run", "small", "mid", "const") for _ in range(3)]
        gen += generate(ctx, v, series, ctx.scale(320, 4000))
    ctx.judge("Steim_Trace.tla", drive(run_spec, gen))
    ctx.assumptions += ["codes of control word, X0 and XN words of the first frame are zero, as the format requires",
                        "sample count zero is not decoded"]
