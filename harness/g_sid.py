"""C18, C19, C20: source identifiers, SEED codes, band codes."""
import math
import re
import struct
from datetime import datetime
from fractions import Fraction

from vlib import drive, outcome
from rec3lib import cps

from simplemseed import FDSNSourceId, MiniseedHeader, NetworkSourceId, StationSourceId, LocationSourceId, bandCodeForRate, MSeed3Header, \
    MSeed3Record, unpackMSeed3Record
from simplemseed.fdsnsourceid import FDSNSourceIdException, NslcId, bandCodeInfo

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
AN = UP + "0123456789"
ODD = list("-_. a\nz:~/\u00e9\u0660\uff11\u0130\u4e2d\u212a") + ["\t", "\x00", "\u00b2", "\U0001d7d8"]
FIELDS = ["networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode"]
LEVEL = {"NetworkSourceId": 1, "StationSourceId": 2, "LocationSourceId": 3, "FDSNSourceId": 6}
CLS = {1: NetworkSourceId, 2: StationSourceId, 3: LocationSourceId, 6: FDSNSourceId}


def level(x):
    return LEVEL[type(x).__name__]


def codes(x):
    return [cps(getattr(x, f)) for f in FIELDS[:level(x)]]


def make(c, nested=False):
    if nested and len(c) > 1:
        return CLS[len(c)](NetworkSourceId(c[0]), *c[1:])
    return CLS[len(c)](*c)


def text(c):
    return "".join(chr(x) for x in c)


def run_parse(s):
    e = dict(op="parse", text=cps(s), _note=s)
    v, err = outcome(lambda: FDSNSourceId.parse(s))
    if err is not None:
        e["out"] = dict(k="refused" if "FDSNSourceIdException" in err else "raised", _err=err)
    else:
        e["out"] = dict(k="ok", codes=codes(v), level=level(v), str=cps(str(v)))
    return e


def run_short_of(cs):
    """The SEED codes of an identifier."""
    e = dict(op="toNslc", codes=[cps(x) for x in cs], _note=cs)

    def go():
        v = FDSNSourceId(*cs)
        b = v.asNslc()
        return dict(k="ok", back=[cps(x) for x in (b.networkCode, b.stationCode, b.locationCode, b.channelCode)], short=cps(v.shortChannelCode()),
                    text=cps(str(b)), same=1 if [getattr(v, f) for f in FIELDS] == list(cs) else 0)
    v, err = outcome(go)
    e["out"] = v if err is None else dict(k="refused", _err=err)
    return e


def run_ident(c):
    """The identifier of a record, given as text or object, packed and read or not."""
    s, how = c
    e = dict(op="ident", text=cps(s), _note=s)

    def go():
        r = MSeed3Record(MSeed3Header(), FDSNSourceId.parse(s) if how == 1 and s.count("_") == 5 else s, [1, 2, 3])
        if how == 2:
            r = unpackMSeed3Record(r.pack())
        return r
    r, err = outcome(go)
    v, err2 = outcome(lambda: r.parseIdentifier())
    if err or err2:
        e["out"] = dict(k="refused", _err=err or err2)
        return e
    v, err = outcome(lambda: dict(k="ok", codes=codes(v), level=level(v)))
    e["out"] = v if err is None else dict(k="ok", codes=[], level=0, _err=err)
    return e


def run_codes(c):
    cs, nested = c
    obj = make(cs, nested)
    e = dict(op="codes", codes=[cps("" if x is None else x) for x in cs], _note=cs)
    ok, reason = obj.validate()
    back, err = outcome(lambda: FDSNSourceId.parse(str(obj)))
    enc = []
    for k, m in ((1, "networkSourceId"), (2, "stationSourceId"), (3, "locationSourceId")):
        if k < level(obj):
            up = getattr(obj, m)()
            enc.append(dict(level=level(up), codes=codes(up), eq=bool(up == make(["" if x is None else x for x in cs[:k]]))))
    e["out"] = dict(codes=codes(obj), level=level(obj), str=cps(str(obj)), valid=ok is True,
                    reason=len(reason) if reason else 0, enc=enc,
                    back=dict(k="refused") if err is not None else
                    dict(k="ok", codes=codes(back), eq=bool(back == obj and obj == back)))
    return e


def run_eq(c):
    a, b = c
    x, y = make(a), make(b)
    return dict(op="eq", a=[cps(v) for v in a], b=[cps(v) for v in b], ab=bool(x == y), ba=bool(y == x), ne=bool(x != y),
                _note=c)


def run_walk(hist):
    seen, past, cur = [], [], None

    def go():
        nonlocal cur
        for h in hist:
            cs = [text(c) for c in h["codes"]]
            o = h["op"]
            if o == "new":
                cur = make(cs)
            elif o == "renew":
                cur = make([str(getattr(cur, f)) for f in FIELDS[:level(cur)]], nested=len(past) % 2 == 1)
            elif o == "text":
                cur = FDSNSourceId.parse(str(cur))
            elif o == "nslc":
                n = cur.asNslc()
                cur = FDSNSourceId.fromNslc(n.networkCode, n.stationCode, n.locationCode, n.channelCode)
            elif o == "down":
                if len(cs) == 2:
                    cur = cur.createStationSourceId(cs[1])
                elif len(cs) == 3:
                    cur = cur.createLocationSourceId(cs[2])
                else:
                    cur = cur.createFDSNSourceId(*cs[3:])
            elif o == "up":
                cur = getattr(cur, {1: "networkSourceId", 2: "stationSourceId", 3: "locationSourceId"}[len(cs)])()
            past.append(cur)
            seen.append(dict(codes=codes(cur), level=level(cur), str=cps(str(cur)), valid=cur.validate()[0] is True,
                             eqs=[bool(p == cur) for p in past]))
    _, err = outcome(go)
    return dict(op="walk", hist=hist, seen=seen, _err=err)


def word(rng, lo, hi, alphabet=AN):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def rand_codes(rng, lv):
    def spoil(w):
        r = rng.random()
        if r < 0.75:
            return w
        if r < 0.85:
            k = rng.randint(0, len(w))
            return w[:k] + rng.choice(ODD) + w[k:]
        if r < 0.92:
            return word(rng, 9, 10, AN + "-")
        return rng.choice(["", "--", "-", "---", "A" * 8, "A" * 9, "-" * 8, "\n", "A\n", "a"])
    c = [word(rng, 1, 8) if rng.random() < 0.3 else rng.choice(["CO", "XD", "XX", "IU", "XD1994"]),
         word(rng, 1, 8, AN + "-"), rng.choice(["", "00", word(rng, 0, 8, AN + "-"), "--", "-", "0-", "10"]),
         rng.choice(["B", "", "H", word(rng, 0, 3)]), rng.choice(["H", "N", word(rng, 1, 4)]),
         rng.choice(["Z", "", "1", word(rng, 0, 4)])][:lv]
    if rng.random() < 0.5:
        k = rng.randrange(len(c))
        c[k] = spoil(c[k])
    return c


def check_C18(ctx):
    ctx.model_check("Sid_MC.tla", "Sid_MC.cfg")
    rng = ctx.rng
    cases = []
    for i in range(ctx.scale(4000, 40000)):
        c = rand_codes(rng, rng.choice([1, 2, 3, 6, 6, 6]))
        if len(c) >= 3 and c[2] == "" and rng.random() < 0.3:
            c[2] = None
        cases.append((c, rng.random() < 0.2))
    # every length around the limits, every character class in every code
    for lv in (1, 2, 3, 6):
        base = ["CO", "ABC", "00", "B", "H", "Z"][:lv]
        for k in range(lv):
            for w in ["A" * n for n in range(0, 11)] + [ch for ch in [chr(x) for x in range(0, 256)] + ODD] + \
                    ["A" + ch for ch in "\n-_ a."] + [ch + "A" for ch in "\n-_ a."] + ["--", "---", "-A", "A-"]:
                c = list(base)
                c[k] = w
                cases.append((c, False))
    ctx.judge("Sid_Trace.tla", drive(run_codes, cases))
    texts = []
    pool = ["CO", "BIRD", "00", "", "B", "H", "Z", "a", "\u00e9", "--", " ", "FDSN:", ":"]
    for i in range(ctx.scale(3000, 30000)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 8])
        t = "_".join(rng.choice(pool) if rng.random() < 0.7 else word(rng, 0, 9) for _ in range(n))
        p = rng.choice(["FDSN:"] * 6 + ["", "fdsn:", "FDSN", "FDSN_", " FDSN:", "XFDSN:", "FDSN:FDSN:", "Fdsn:"])
        texts.append(p + t)
    texts += ["", "F", "FDSN", "FDSN:", "FDSN:_", "FDSN:__", "FDSN:___", "FDSN:____", "FDSN:_____", "FDSN:______"]
    ctx.judge("Sid_Trace.tla", drive(run_parse, texts))
    ctx.judge("Sid_Trace.tla", drive(run_ident, [(t, i % 3) for i, t in enumerate(texts)]))
    pairs = []
    for i in range(ctx.scale(3000, 30000)):
        a = rand_codes(rng, rng.choice([1, 2, 3, 6]))
        a = [x or "" for x in a]
        r = rng.random()
        if r < 0.3:
            b = list(a)
        elif r < 0.5:
            # long codes that differ in one character
            k = rng.randrange(len(a))
            a[k] = word(rng, 1, 40)
            b = list(a)
            j = rng.randrange(len(a[k]))
            b[k] = a[k][:j] + rng.choice(["", "a", "7", a[k][j] * 2]) + a[k][j + 1:]
        elif r < 0.7:
            b = list(a)
            k = rng.randrange(len(b))
            b[k] = rng.choice([b[k] + "A", b[k].lower(), "", b[k][:-1], b[k] + "\u0301", b[k] + " "])
        elif r < 0.8 and len(a) > 1:
            # the same text with other codes
            k = rng.randrange(len(a) - 1)
            a[k], a[k + 1] = "A_B", "C"
            b = list(a)
            b[k], b[k + 1] = "A", "B_C"
        else:
            b = [x or "" for x in rand_codes(rng, rng.choice([1, 2, 3, 6]))]
            b[0] = a[0]
        pairs.append((a, b))
    ctx.judge("Sid_Trace.tla", drive(run_eq, pairs))
    walks = ctx.generate("Sid_Gen.tla", "Sid_Gen.cfg", num=ctx.scale(160, 1600), depth=30, shards=8)
    ctx.judge("Sid_Trace.tla", drive(run_walk, walks))
    ctx.assumptions += ["codes and texts of up to 10 characters per code, over all Latin-1 characters and a sample of others"]


# ---------------------------------------------------------------- C19
def run_nslc(c):
    n, year, how, sep = c["n"], c["year"], c["how"], c["sep"]
    e = dict(op="nslc", n=[cps(x) for x in n], year=cps("" if year is None else str(year)), _note=c)

    def go():
        if how == "from":
            return FDSNSourceId.fromNslc(n[0], n[1], n[2], n[3], startYear=year) if year is not None \
                else FDSNSourceId.fromNslc(n[0], n[1], n[2] if n[2] or len(n[1]) % 2 else None, n[3])
        if how == "parse":
            return FDSNSourceId.parseNslc(sep.join(n), sep=sep, startYear=year)
        if how == "dot":
            return FDSNSourceId.parseNslc(".".join(n), startYear=year)
        if how == "ms2":
            return MiniseedHeader(n[0], n[1], n[2], n[3], datetime(2024, 1, 1), 0, 1.0).fdsnSourceId()
        if how == "ms2codes":
            h = MiniseedHeader(n[0], n[1], n[2], n[3], datetime(2024, 1, 1), 0, 1.0)
            return FDSNSourceId.parseNslc(h.codes(sep=sep), sep=sep)
    v, err = outcome(go)
    if err is not None:
        e["out"] = dict(k="refused" if "FDSNSourceIdException" in err else "raised", _err=err)
        return e

    def rest():
        b = v.asNslc()
        back = [b.networkCode, b.stationCode, b.locationCode, b.channelCode]
        w = FDSNSourceId.fromNslc(*back)
        same = b == NslcId(*back) and not b != NslcId(*back) and v.shortChannelCode() == b.channelCode \
            and b != NslcId(back[0], back[1], back[2], back[3] + "X")
        return dict(k="ok", codes=codes(v), back=[cps(x) for x in back], again=bool(w == v and same))
    out, err = outcome(rest)
    e["out"] = out if err is None else dict(k="ok", codes=codes(v), back=[[], [], [], []], again=False, _err=err)
    return e


def run_net(c):
    net, year = c
    e = dict(op="net", net=cps(net), year=cps("" if year is None else str(year)),
             num=1 if isinstance(year, int) else 0, _note=c)
    v, err = outcome(lambda: NetworkSourceId(net) if year is None else NetworkSourceId(net, year))
    if err is not None:
        e["out"] = dict(k="refused" if "FDSNSourceIdException" in err else "raised", _err=err)
    else:
        e["out"] = dict(k="ok", code=cps(v.networkCode), seed=v.isSeedTempNet() is True, hist=v.isTempNetHistorical() is True,
                        conv=v.isTempNetConvention() is True, temp=v.isTemporary() is True, valid=v.validate()[0] is True)
    return e


def run_short(c):
    """A text of too few codes; and the codes compared with what is no identifier."""
    ws, sep = c
    t = sep.join(ws)
    v, err = outcome(lambda: FDSNSourceId.parseNslc(t, sep=sep) if sep != "." else FDSNSourceId.parseNslc(t))
    n = NslcId(*(ws + ["", "", "", ""])[:4])
    others = [t, tuple(ws), None, str(n), "FDSN:" + t, 0, FDSNSourceId(*(ws + ["", "", "", "", "", ""])[:6])]
    same = any(n == x or x == n for x in others) or not n == NslcId(*(ws + ["", "", "", ""])[:4]) \
        or any(n == NslcId(*[w + "X" if k == j else w for k, w in enumerate((ws + ["", "", "", ""])[:4])]) for j in range(4)) \
        or (len(ws) < 4 and any(make(ws) == x for x in others[:-1])) \
        or str(n) != "_".join((ws + ["", "", "", ""])[:4])
    return dict(op="short", n=len(ws), k="ok" if err is None else "refused" if "FDSNSourceIdException" in err else err,
                same=1 if same else 0, _note=c)


SEPS = [".", "_", "-", ":", "/", "::", " ", "|", "\t", "$", "^", "+", "*", "\\", ", ", "a", "\u00e9"]


def check_C19(ctx):
    ctx.model_check("Sid_MC.tla", "Sid_MC.cfg")
    rng = ctx.rng
    nets = ["CO", "IU", "XX", "XD", "7A", "Z9", "Y", "G", "XD1994", "ABC", "X", "1", "99", "00", "AX", "ZZZ", "XX1994"]
    cases = []
    for i in range(ctx.scale(5000, 50000)):
        how = rng.choice(["from", "from", "parse", "dot", "ms2", "ms2codes"])
        net = rng.choice(nets) if rng.random() < 0.6 else word(rng, 1, 8)
        sta = word(rng, 1, 8)
        loc = rng.choice(["", "00", "--", word(rng, 0, 8)])
        r = rng.random()
        if r < 0.4:
            ch = word(rng, 3, 3)
        elif r < 0.85:
            ch = word(rng, 1, 1) + "_" + word(rng, 1, rng.choice([1, 4, 12])) + "_" + word(rng, 0, rng.choice([1, 4, 12]))
        else:
            ch = rng.choice(["", "B", "BH", "BHZ1", "B_H", "BH_H_Z", "_H_Z", "B__Z", "B_H_Z_", "B_H_Z!!", "B_H_Z\n", "B_HH_Z Q",
                             "B_H_Z.1", "BHZ\n", "B-H-Z", "B_H_Z-", "_", "__", "____", "B_H__Z", "\u00e9_H_Z"])
        sep = rng.choice(SEPS)
        year = None if rng.random() < 0.5 else rng.choice([1994, 2025, 1880, 2100, rng.randint(1900, 2099)])
        if year is not None and rng.random() < 0.5:
            year = str(year)
        if how.startswith("ms2"):
            net, sta, loc, ch, year = (net + "Q")[:2], sta[:5], loc[:2], word(rng, 3, 3), None
        if how in ("parse", "ms2codes") and any(sep in x for x in (net, sta, loc, ch)):
            sep = "." if "." not in ch else "|"
        if how == "dot" and "." in ch:
            how = "from"
        cases.append(dict(n=[net, sta, loc, ch], year=year, how=how, sep=sep))
    ctx.judge("Sid_Trace.tla", drive(run_nslc, cases))
    ncases = []
    two = [a + b for a in AN + "a-\u0661" for b in AN + "a-\n\u0661"]
    for net in two:
        ncases.append((net, None))
        ncases.append((net, rng.choice([1994, "1994", 2100, "1880", 1880, 2025])))
    for net in nets + [word(rng, 0, 8) for _ in range(ctx.scale(400, 4000))]:
        for y in (None, 1994, "2001", "94", "19944", "", rng.choice([1879, 2101, 1000, 9999, 94, 19944, 1880, 2100, -1994])):
            if y == "":
                continue
            ncases.append((net, y))
    for _ in range(ctx.scale(1500, 15000)):
        n = rng.choice([word(rng, 2, 2), word(rng, 1, 4), rng.choice("XYZ0123456789") + word(rng, 1, 1), "XX"])
        t = rng.choice(["1994", "2025", "0000", "199", "19945", "199A", "1994\n", "\u0661994", "994", "12345678", ""])
        ncases.append((n + t, None))
    ctx.judge("Sid_Trace.tla", drive(run_net, ncases))
    ids = [[x or "" for x in rand_codes(rng, 6)] for _ in range(ctx.scale(1500, 15000))]
    ids += [["CO", "A", l, b, h, z] for l in ("", "00") for b in ("", "B", "BB") for h in ("", "H", "HH") for z in ("", "Z", "ZZ")]
    ctx.judge("Sid_Trace.tla", drive(run_short_of, ids))
    shorts = []
    for _ in range(ctx.scale(300, 3000)):
        ws = [rng.choice(nets), word(rng, 1, 5), rng.choice(["", "00", "10"])][:rng.randint(1, 3)]
        shorts.append((ws, rng.choice([x for x in SEPS if not any(x in w for w in ws)])))
    ctx.judge("Sid_Trace.tla", drive(run_short, shorts))
    ctx.assumptions += ["start years as text are four digits, as numbers 1880 to 2100; separators are not empty and not contained in the codes"]


# ---------------------------------------------------------------- C20
def fb(v):
    return [] if v is None else list(struct.pack(">d", float(v)))


def bound(op, s):
    f = Fraction(s)
    return dict(op=op, p=f.numerator, q=f.denominator)


NO = dict(op="no", p=1, q=1)


def band_info(code):
    """The published row of a band code, as bounds."""
    bc = bandCodeInfo(code)
    r = bc["rate"]
    num = r"(\d+(?:\.\d+)?)"
    out = dict(kind="range", lo=NO, hi=NO)
    m = re.fullmatch(rf"(>=?)\s*{num}(?:\s*to\s*<\s*{num})?", r.strip())
    if m:
        out["lo"] = bound("ge" if m[1] == ">=" else "gt", m[2])
        if m[3]:
            out["hi"] = bound("lt", m[3])
    elif re.fullmatch(rf"<\s*{num}", r.strip()):
        out["hi"] = bound("lt", re.fullmatch(rf"<\s*{num}", r.strip())[1])
    elif r.strip().startswith("~"):
        out["kind"] = "about"
    elif "irreg" in r.lower():
        out["kind"] = "irregular"
    else:
        out["kind"] = "other"
    p = bc["response_lb"].replace(" ", "")
    out["resp"] = "ge" if p.startswith(">=10") else "lt" if p.startswith("<10") else "no"
    return out


def run_band(c):
    rate, resp = c[:2]
    e = dict(op="band", rate=fb(rate), resp=fb(resp), _note=[repr(rate), repr(resp)])
    code, err = outcome(lambda: bandCodeForRate(rate, resp) if resp is not None else bandCodeForRate(rate))
    if err is not None:
        e.update(code="?", _err=err)
    else:
        e["code"] = code
    kw = [dict(), dict(networkCode="", stationCode=""), dict(networkCode="CO", stationCode=""), dict(sourceCode="N", subsourceCode="Z", locationCode="00")][c[2]]
    u, err = outcome(lambda: FDSNSourceId.createUnknown(rate, response_lb=resp, **kw))
    e["unknown"] = u.bandCode if err is None else "?"
    e["codes"] = codes(u) if err is None else []
    e["given"] = [cps(kw.get(k, v)) for k, v in (("networkCode", "XX"), ("stationCode", "ABC"), ("locationCode", ""), ("sourceCode", "H"),
                                                 ("subsourceCode", "U"))]
    info, err = outcome(lambda: band_info(code))
    e["info"] = info if err is None else dict(kind="missing", lo=NO, hi=NO, resp="no")
    return e


def run_pair(r):
    a = [bandCodeForRate(r, s) for s in (None, 0.01, 10)]
    b = [bandCodeForRate(-1.0 / r, s) for s in (None, -100, -0.1)]
    return dict(op="pair", rate=fb(r), same=a == b, _note=repr(r))


BOUNDS = [5000, 1000, 250, 80, 10, 1, 0.5, 0.1, 0.01, 0.001, 0.0001, 0.00001, 0.000001]


def rates(ctx):
    rng = ctx.rng
    out = [None, 0, 0.0, -0.0, 1e-300, 5e-324, 1.7e308, -1.7e308, -5e-324, -1e-300, 2.0 ** 1023, 1e300]
    for b in BOUNDS:
        for v in (float(b), 1.0 / b):
            x = y = v
            for _ in range(5):
                out += [x, y, -x, -y]
                x, y = math.nextafter(x, math.inf), math.nextafter(y, 0)
            out += [v * 1.001, v * 0.999, -v * 1.001, -v * 0.999, v * 1.5, -v * 1.5, v * 0.7, -v * 0.7]
        if b >= 1:
            out += [int(b), int(b) - 1 or 1, int(b) + 1, -int(b), -int(b) - 1]
        else:
            out += [-round(1 / b), -round(1 / b) - 1, -(round(1 / b) - 1)]
    out += [20, 40, 100, 200, 500, 2000, 4999, 5001, -2, -3, -60, -600, -3600, -86400, 864000, -864000, 10 ** 7]
    for _ in range(ctx.scale(1200, 12000)):
        out.append(rng.choice([1, -1]) * 10 ** rng.uniform(-8, 8))
    for _ in range(ctx.scale(100, 1000)):
        v = struct.unpack(">d", bytes(rng.randrange(256) for _ in range(8)))[0]
        if math.isfinite(v):
            out.append(v)
    return out


def check_C20(ctx):
    ctx.model_check("Band_MC.tla", "Band_MC.cfg")
    rng = ctx.rng
    resps = [None, 0.1, 0.01, 10, 10.0, -10, -10.0, -0.1, 1, 0, 0.0, -1000, -9.99, -10.01, 0.0999, 0.1001,
             math.nextafter(0.1, 1), math.nextafter(0.1, 0), -math.nextafter(10, 11), -math.nextafter(10, 9), 1e-300, -1e300,
             0.05, -5, -20, 5000, 120.0, -120]
    rs = rates(ctx)
    cases = [(r, s) for r in rs[::1] for s in [None, rng.choice(resps), rng.choice(resps)]]
    cases += [(r, s) for r in [b * k for b in (5000, 1000, 250, 80, 10, 40, 2) for k in (1, 1.01, 0.99)] for s in resps]
    cases += [(-1 / r, s) for r in [b * k for b in (5000, 1000, 250, 80, 10, 40, 2) for k in (1, 1.01, 0.99)] for s in resps]
    ctx.judge("Sid_Trace.tla", drive(run_band, [(r, s, i % 4) for i, (r, s) in enumerate(cases)]))
    ctx.judge("Sid_Trace.tla", drive(run_pair, [abs(r) for r in rs if r and 1e-290 < abs(r) < 1e290]))
    ctx.assumptions += ["the table's row '~ 1' covers rates above 0.5 Hz up to 1 Hz; a period or response period whose reciprocal lies "
                        "within 2^-50 of a bound, but is not the floating point number nearest to it, may fall on either side"]
