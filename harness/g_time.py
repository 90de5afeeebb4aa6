"""C11: record times."""
import datetime
import io
import math
import os
import struct
import time

from vlib import drive, outcome
from rec3lib import cps, lay

from simplemseed import MiniseedHeader, MiniseedRecord, MSeed3Header, MSeed3Record, unpackMSeed3Record, unpackMiniseedRecord
from simplemseed.miniseed import BTime

NOOFF = 10 ** 6
D1 = datetime.date(1, 1, 1).toordinal()


def inst(dt):
    """A datetime as day, second, microsecond, offset from UTC (0 if it says UTC)."""
    off = dt.utcoffset()
    return [dt.toordinal() - 1, dt.hour * 3600 + dt.minute * 60 + dt.second, dt.microsecond,
            -1 if off is None else int(off.total_seconds())]


def fields3(h):
    return [int(x) for x in (h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond)]


def packed3(b):
    ns, y, doy, h, m, s = struct.unpack_from("<IHHBBB", b, 4)
    return [y, doy, h, m, s, ns]


def packed2(b, be=True):
    y, doy, h, m, s, f = struct.unpack_from((">" if be else "<") + "HHBBBxH", b, 20)
    return [y, doy, h, m, s, f]


class Odd(datetime.tzinfo):
    """A zone whose offset depends on the time, as with summer time."""

    def __init__(self, off):
        self.off = off

    def utcoffset(self, dt):
        return datetime.timedelta(seconds=self.off)

    def dst(self, dt):
        return datetime.timedelta(seconds=3600)


def run_set(c):
    e = dict(op="set", fmt=c["fmt"], src=c["src"])
    if c["src"] == "iso":
        e["text"] = cps(c["text"])
        val = c["text"]
        e["_note"] = c["text"]
    else:
        e["c"], e["off"] = c["c"], c["off"]
        tz = None
        if c["off"] != NOOFF:
            tz = Odd(c["off"]) if c.get("odd") else datetime.timezone(datetime.timedelta(seconds=c["off"]))
            if c["off"] == 0 and c.get("utc"):
                tz = datetime.timezone.utc
        val = datetime.datetime(*c["c"], tzinfo=tz)

    def set3():
        h = MSeed3Header()
        if c.get("dirty"):
            h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = 1999, 300, 23, 59, 59, 999999999
        h.starttime = val
        rec = MSeed3Record(h, "FDSN:CO_A__B_H_Z", [1, 2])
        b = bytes(rec.pack())
        return dict(k="ok", f=fields3(h), p=packed3(b), g=inst(rec.starttime if c.get("dirty") else h.starttime),
                    u=inst(unpackMSeed3Record(b).starttime))

    def set2():
        if c.get("dirty"):
            h = MiniseedHeader("CO", "A", "00", "BHZ", datetime.datetime(1999, 1, 1), 2, 20.0, encoding=3,
                               byteorder=c["bo"])
            h.setStartTime(val)
        else:
            h = MiniseedHeader("CO", "A", "00", "BHZ", val, 2, 20.0, encoding=3, byteorder=c["bo"])
        rec = MiniseedRecord(h, [1, 2])
        b = bytes(rec.pack())
        be = h.endianChar == ">"
        p = packed2(b, be)
        u = []
        if 1900 <= p[0] <= 2200:
            u = inst(unpackMiniseedRecord(b).starttime())
        return dict(k="ok", f=[int(x) for x in h.btime], p=p, g=inst(rec.starttime()), u=u)
    r, err = outcome(set3 if c["fmt"] == 3 else set2)
    e["out"] = r if err is None else dict(k=err)
    return e


def rand_date(rng):
    y = rng.choice([1, 2, 1582, 1600, 1700, 1899, 1900, 1970, 1999, 2000, 2016, 2023, 2024, 2100, 2400, 9998, 9999,
                    rng.randint(1, 9999), rng.randint(1950, 2050), rng.randint(1950, 2050)])
    r = rng.random()
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if r < 0.3:
        m, d = rng.choice([(1, 1), (12, 31), (2, 28), (3, 1), (12, 30), (2, 29 if leap else 28), (6, 30), (7, 1)])
    else:
        m = rng.randint(1, 12)
        d = rng.randint(1, 28)
    return y, m, d


def rand_clock(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice([(0, 0, 0, 0), (23, 59, 59, 999999), (23, 59, 59, 999950), (0, 0, 0, 1), (12, 0, 0, 50),
                           (0, 0, 59, 999999), (0, 59, 59, 999900)])
    return rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice(
        [0, 1, 99, 100, 999, 1000, 50, 999999, 999950, 123456, rng.randrange(10 ** 6), rng.randrange(10 ** 6)])


def set_cases(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.scale(3000, 40000)):
        fmt = 3 if i % 5 < 3 else 2
        c = dict(fmt=fmt, dirty=rng.random() < 0.5, bo=rng.randint(0, 1))
        y, m, d = rand_date(rng)
        h, mi, s, us = rand_clock(rng)
        if rng.random() < 0.55:
            off = rng.choice([NOOFF, NOOFF, 0, 3600, -3600, 5 * 3600 + 1800, -34200, 20700, 86340, -86340, 1, -1, 37,
                              rng.randint(-86399, 86399)])
            c.update(src="dt", c=[y, m, d, h, mi, s, us], off=off, odd=rng.random() < 0.3, utc=rng.random() < 0.5)
        else:
            ext = rng.random() < 0.75
            t = f"{y:04}-{m:02}-{d:02}" if ext else f"{y:04}{m:02}{d:02}"
            k = rng.randint(0, 8)
            if k > 0:
                t += rng.choice(["T", "T", "T", " "])
                t += f"{h:02}"
                c2 = ":" if ext else ""
                if k > 1:
                    t += f"{c2}{mi:02}"
                if k > 2:
                    t += f"{c2}{s:02}"
                if k > 3:
                    nd = rng.choice([1, 2, 3, 3, 4, 5, 6, 6, 6, 7, 9])
                    t += rng.choice([".", ".", ","]) + f"{us:06}{rng.randrange(1000):03}"[:nd]
                z = rng.random()
                if z < 0.35:
                    t += "Z"
                elif z < 0.75:
                    a, b = rng.randrange(24), rng.choice([0, 0, 30, 45, 59])
                    t += rng.choice("+-") + (f"{a:02}:{b:02}" if rng.random() < 0.7 else f"{a:02}{b:02}" if not ext or rng.random() < 0.5 else f"{a:02}")
            c.update(src="iso", text=t)
        out.append(c)
    return out


def rand_fields(rng, lo=1, hi=9999):
    y = min(max(rand_date(rng)[0], lo), hi)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    doy = rng.choice([1, 31, 32, 59, 60, 61, 365, 366 if leap else 365, 244, rng.randint(1, 365)])
    h, mi, s, us = rand_clock(rng)
    if rng.random() < 0.15:
        s = 60
        if rng.random() < 0.7:
            h, mi = 23, 59
    return [y, doy, h, mi, s, us]


def build3(f, rate=(0.0), n=0, payload=b""):
    return lay(dict(flags=0, nanosecond=f[5], year=f[0], dayOfYear=f[1], hour=f[2], minute=f[3], second=f[4], encoding=0,
                    rate=list(struct.pack("<d", rate)), numSamples=n, publicationVersion=1), b"FDSN:CO_A__B_H_Z", b"", payload)


def build2(f, be, fac=0, mul=0, n=0):
    e = ">" if be else "<"
    b = b"000001D A    00BHZCO" + struct.pack(e + "HHBBBBH", f[0], f[1], f[2], f[3], f[4], 0, f[5]) \
        + struct.pack(e + "HhhBBBBiHH", n, fac, mul, 0, 0, 0, 1, 0, 64, 48) + struct.pack(e + "HHBBBB", 1000, 0, 0, 1 if be else 0, 8, 0)
    return b + bytes(256 - len(b))


def run_get(c):
    f = c["f"]
    e = dict(op="get", fmt=c["fmt"], f=f)

    def call():
        if c["fmt"] == 3:
            r = unpackMSeed3Record(build3(f))
            return dict(k="ok", g=inst(r.header.starttime), r=inst(r.starttime))
        if c.get("btime"):
            h = MiniseedHeader("CO", "A", "00", "BHZ", BTime(*f), 0, 1.0)
            return dict(k="ok", g=inst(h.starttime), r=inst(MiniseedRecord(h, None).starttime()))
        r = unpackMiniseedRecord(build2(f, c["be"]))
        return dict(k="ok", g=inst(r.header.starttime), r=inst(r.starttime()))
    r, err = outcome(call)
    e["out"] = r if err is None else dict(k=err)
    return e


def run_end(c):
    f, n = c["f"], c["n"]
    e = dict(op="end", fmt=c["fmt"], f=f, n=n, num=c["num"], den=c["den"])

    def call():
        ends = []
        if c["fmt"] == 3:
            r = unpackMSeed3Record(build3(f, rate=c["rate"], n=n))
            ends += [r.header.endtime, r.endtime]
            h = MSeed3Header()
            h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = f
            h.numSamples = n
            if c["how"] == 0:
                h.sampleRatePeriod = c["rate"]
            elif c["how"] == 1 and c["num"]:
                h.samplePeriod = c["num"] / c["den"]
            elif c["num"]:
                h.sampleRate = c["den"] / c["num"]
            ends.append(h.endtime)
        else:
            if c["fac"] is not None:
                ends.append(unpackMiniseedRecord(build2(f, c["be"], c["fac"], c["mul"], n)).endtime())
            if n < 65536:
                h = MiniseedHeader("CO", "A", "00", "BHZ", BTime(*f), n, c["rate"])
                if c["how"]:
                    h = MiniseedHeader("CO", "A", "00", "BHZ", BTime(*f), n, 17.0)
                    h.setSampleRate(c["rate"])
                ends.append(MiniseedRecord(h, None).endtime())
        return dict(k="ok", ends=[inst(x) for x in ends])
    r, err = outcome(call)
    e["out"] = r if err is None else dict(k=err)
    return e


def end_cases(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.scale(1500, 20000)):
        c = dict(fmt=3 if i % 5 < 3 else 2, how=rng.randrange(3), be=rng.random() < 0.5)
        f = rand_fields(rng, *((1, 9999) if c["fmt"] == 3 else (1900, 2200)))
        r = rng.random()
        if r < 0.08:
            num, den, rate = 0, 1, 0.0
            c["how"] = 0
        elif r < 0.55:
            # rate of den hertz (and den / num)
            num, den = 1, rng.choice([1, 2, 3, 6, 7, 10, 20, 30, 40, 50, 100, 120, 125, 128, 200, 250, 300, 500, 999, 1000, 4000,
                                      rng.randint(1, 32000)])
            rate = float(den)
        else:
            # period of num/den seconds
            num, den = rng.choice([(1, 10), (3, 10), (5, 2), (10, 1), (60, 1), (3600, 1), (7, 3), (1, 3), (32000, 1), (11, 8),
                                   (rng.randint(1, 32000), 1)])
            rate = -num / den if c["fmt"] == 3 else den / num
        if c["fmt"] == 3 and num and den == 1 and num > 1 and rng.random() < 0.2:
            rate = -float(num)
        n = rng.choice([1, 1, 2, 3, 100, 65535, 3000, rng.randint(1, 65535)])
        if c["fmt"] == 3 and rng.random() < 0.2:
            n = rng.choice([10 ** 6, 86400 * 100 + 1, 2 ** 24 + 1, 10 ** 9])
        lim = 2 ** 31 - 1
        if num:
            n = max(1, min(n, lim // max(num, 1) // 2 - 1))
        if den * 10 > lim or (c["fmt"] == 2 and f[0] in (2055, 2056)):
            continue
        f[5] = f[5] * 1000 + rng.choice([0, 0, 999]) if c["fmt"] == 3 else f[5] // 100
        c.update(f=f, n=n, num=num, den=den, rate=rate, fac=None)
        if c["fmt"] == 2:
            if num == 0:
                c["fac"], c["mul"] = 0, 0
                c["how"] = 0
            elif num == 1 and den < 32768:
                c["fac"], c["mul"] = rng.choice([(den, 1), (1, den)])
            elif den == 1 and num < 32768:
                c["fac"], c["mul"] = rng.choice([(-num, 1), (1, -num)])
        out.append(c)
    return out


class Later:
    """Looks like a date-time, but is none."""
    year, month, day, hour, minute, second, microsecond, tzinfo = 2024, 1, 2, 3, 4, 5, 6, None


OTHERS = dict(none=None, int=20240102, float=1.7e9, date=datetime.date(2024, 1, 2), time=datetime.time(1, 2, 3), bytes=b"2024-01-02",
              list=[2024, 1, 2], tuple=(2024, 2, 3, 4, 5, 6), like=Later())


def run_wrong(c):
    e = dict(op="wrong", fmt=c["fmt"], src=c["src"], text=cps(c["what"]) if c["src"] == "iso" else [], _note=c["what"])
    val = c["what"] if c["src"] == "iso" else OTHERS[c["what"]]
    if c["fmt"] == 3:
        h = MSeed3Header()
        h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = c["f"]

        def see():
            return fields3(h) + inst(h.starttime)

        def put():
            h.starttime = val
    else:
        h = MiniseedHeader("CO", "A", "00", "BHZ", BTime(*c["f"][:5], c["f"][5] // 100000), 2, 20.0, encoding=3)

        def see():
            return [int(x) for x in h.btime] + inst(h.starttime)

        def put():
            h.setStartTime(val)
    before = see()
    r, err = outcome(put)
    e["k"] = "ok" if err is None else "refused"
    r, err = outcome(see)
    e["before"], e["after"] = before, r if err is None else []
    return e


def run_sane(f):
    e = dict(op="sane", f=f)

    def go():
        h = MSeed3Header()
        h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = f
        return 1 if h.sanityCheck() else 0
    v, err = outcome(go)
    e["sane"] = v if err is None else 2
    return e


def sane_cases(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.scale(400, 4000)):
        f = [rng.choice([1, 1900, 2024, 2999, rng.randint(1, 2999)]), rng.choice([1, 365, 366, rng.randint(1, 366)]),
             rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, 60, rng.randint(0, 59)]), 0]
        if rng.random() < 0.6:
            k, vs = rng.choice([(1, [0, 367, 1000]), (2, [24, 25, 255]), (3, [60, 61, 255]), (4, [61, 62, 255])])
            f[k] = rng.choice(vs)
        out.append(f)
    return out


def wrong_cases(ctx):
    rng = ctx.rng
    out = []
    for fmt in (2, 3):
        for k in OTHERS:
            out.append(dict(fmt=fmt, src="other", what=k, f=rand_fields(rng, 1950, 2050)))
        for _ in range(ctx.scale(150, 1500)):
            y, m, d, h, mi, s = (rng.randint(1950, 2050), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                                 rng.randint(0, 59))
            bad = rng.randrange(9)
            m, d = (rng.choice([0, 13, 99]), d) if bad == 0 else (m, rng.choice([0, 32, 99])) if bad == 1 else (m, d)
            if bad == 2:
                m, d = rng.choice([(2, 30), (4, 31), (2, 31), (11, 31), (6, 31)])
            if bad == 3:
                y, m, d = rng.choice([1900, 2100, 2023, 1999, 2001]), 2, 29
            h = rng.choice([25, 30, 99]) if bad == 4 else h
            mi = rng.choice([60, 61, 99]) if bad == 5 else mi
            s = rng.choice([61, 75, 99]) if bad == 6 else s
            t = f"{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}"
            if bad == 7:
                t = rng.choice(["", " ", "T", "Z", "now", "today", "hello", t + "Q", "-" + t, t + "+", t + "+25:00:99", t + " UTC",
                                t[:7], t + "." + "x", "1e3", "NaN", "12/25/2024", "25 Dec 2024", t[::-1]])
            elif bad == 8:
                t = "0000" + t[4:]
            if rng.random() < 0.4:
                t += rng.choice(["Z", ".5", ".123456Z", "+00:00", "-05:30"])
            out.append(dict(fmt=fmt, src="iso", what=t, f=rand_fields(rng, 1950, 2050)))
    return out


def run(c):
    return dict(set=run_set, get=run_get, end=run_end, wrong=run_wrong, sane=run_sane)[c[0]](c[1])


def check_C11(ctx):
    ctx.model_check("Calendar_MC.tla", "Calendar_MC2.cfg" if ctx.thorough else "Calendar_MC.cfg")
    rng = ctx.rng
    cases = [("set", c) for c in set_cases(ctx)]
    for i in range(ctx.scale(1500, 20000)):
        fmt = 3 if i % 2 else 2
        bt = fmt == 2 and rng.random() < 0.3
        f = rand_fields(rng, *((1, 9999) if fmt == 3 or bt else (1800, 2300)))
        if fmt == 3:
            f[5] = f[5] * 1000 + rng.choice([0, 0, 1, 999, 500])
        else:
            f[5] //= 100
        if fmt == 2 and not bt and f[0] in (1799, 1800, 2055, 2056):
            continue  # the byte order of these cannot be told from the year
        cases.append(("get", dict(fmt=fmt, f=f, be=rng.random() < 0.5, btime=bt)))
    # every day of some years, first and last second
    for y in (1900, 2000, 2023, 2024) if not ctx.thorough else range(1890, 2110):
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        for doy in range(1, 367 if leap else 366):
            edge = doy % 2
            f = [y, doy] + ([23, 59, 59 + (doy % 4 == 1)] if edge else [0, 0, 0])
            cases.append(("get", dict(fmt=3, f=f + [999999999 if edge else 0], be=True)))
            cases.append(("get", dict(fmt=2, f=f + [9999 if edge else 0], be=doy % 3 == 0)))
    # every hour and minute
    for h in range(24):
        for mi in range(0, 60, ctx.scale(7, 1)):
            d = [2024, 2, 29, h, mi, mi, h * 1000 + mi]
            cases.append(("set", dict(fmt=3, src="dt", c=d, off=(h - 12) * 3600 + mi * 60, bo=0)))
            cases.append(("set", dict(fmt=2, src="dt", c=d, off=(h - 12) * 3600 + mi * 60, bo=0)))
    cases += [("end", c) for c in end_cases(ctx)]
    cases += [("sane", c) for c in sane_cases(ctx)]
    cases += [("wrong", c) for c in wrong_cases(ctx)]
    ev = drive(run, cases)
    ctx.judge("Time_Trace.tla", ev)
    if ctx.seed >= 0:
        # the time zone of the computer must not matter
        old = os.environ.get("TZ")
        try:
            for zone in ("America/New_York", "Asia/Kathmandu", "XYZ-13:37"):
                os.environ["TZ"] = zone
                time.tzset()
                ctx.judge("Time_Trace.tla", drive(run, cases[:: ctx.scale(29, 11)]))
        finally:
            os.environ["TZ"] = old or "UTC"
            time.tzset()
    ctx.assumptions += ["instants outside of years 1 to 9999 may be refused (datetime has none)",
                        "end times within 1 microsecond for miniSEED 3 and 0.1 ms for miniSEED 2, spans below 2^31 s"]
