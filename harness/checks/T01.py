"""T01: dates keep the exact instant."""
import json
import math
import os
import random
import struct
import time
import zoneinfo
from datetime import datetime, timedelta, timezone, tzinfo

import model
import wire
from common import write_trace
from v8serialize import DecodeV8SerializeError, dumps, loads
from v8serialize.decode import TagReader

UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)
MS = timedelta(milliseconds=1)
DAY = 86400000
ZONES = ["UTC", "America/New_York", "Europe/London", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia",
         "Africa/Monrovia", "America/St_Johns", "Asia/Tokyo", "Pacific/Kiritimati", "Pacific/Pago_Pago",
         "Europe/Dublin", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Tehran", "Antarctica/Troll",
         "Europe/Amsterdam", "Pacific/Chatham", "America/Caracas", "Asia/Pyongyang"]


class Odd(tzinfo):
    """Not one of the standard implementations."""

    def __init__(self, ms):
        self.d = timedelta(milliseconds=ms)

    def utcoffset(self, dt):
        return self.d

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return "odd"

    def __eq__(self, o):
        return isinstance(o, Odd) and o.d == self.d

    __hash__ = None


class MyDT(datetime):
    pass


def local(zone):
    os.environ["TZ"] = zone
    time.tzset()


def fields(dt):
    return [dt.year, dt.month, dt.day,
            ((dt.hour * 60 + dt.minute) * 60 + dt.second) * 1000 + dt.microsecond // 1000]


def make(cls, f, tz, fold=0):
    h, x = divmod(f[3], 3600000)
    m, x = divmod(x, 60000)
    s, ms = divmod(x, 1000)
    return cls(f[0], f[1], f[2], h, m, s, ms * 1000, tz, fold=fold)


def body(st, b):
    """The 8 bytes of a date written alone."""
    if st != "ok" or len(b) != 11 or bytes(b[:3]) != b"\xff\x0fD":
        return ["unexpected", repr(b)[:100]]
    return list(b[3:])


def read(b, tz):
    return wire.call(loads, b"\xff\x0fD" + bytes(b), default_timezone=tz)


def seen(st, v, tz):
    if st == "err" and isinstance(v, DecodeV8SerializeError):
        return ["refused"]
    if st != "ok" or not isinstance(v, datetime):
        return ["unexpected", repr(v)[:100]]
    if v.tzinfo != tz:
        return ["in another timezone", repr(v)[:100]]
    if v.microsecond % 1000:
        return ["fraction of a ms", repr(v)[:100]]
    return fields(v)


def interest(r, thorough):
    days = {-719162, -719161, -719163, -719164, 2932896, 2932895, 2932897, 2932898, 0, -1, 1, -25567, 24837, 24855, 49710, 49711,
            11016, 11015, 11017, 16801, 20000, 20512, -141427, -141428, -682944, 2931530, 10957, 10956, 59, 60, 365, 366}
    for y in (1, 4, 100, 400, 1000, 1582, 1600, 1700, 1800, 1900, 1999, 2000, 2001, 2100, 2400, 4000, 9996, 9999):
        d = (datetime(y, 2, 28) - datetime(1970, 1, 1)).days
        days |= {d, d + 1, d + 2}
    for _ in range(300 if thorough else 8):
        days.add(r.randint(-719162, 2932896))
    times = {0, 1, 999, 1000, 500, 43200000, DAY - 1, DAY - 999, DAY - 1000, 123, 3600000, 59999, 60000, 86399001}
    for _ in range(100 if thorough else 3):
        times.add(r.randrange(DAY))
    offs = {0, 1, -1, 3600000, -3600000, 20700000, DAY - 1, 1 - DAY, DAY - 60000, -DAY + 60000, -2670000, 500}
    return sorted(days), sorted(times), sorted(offs)


def exhaustive(c, r):
    days, times, offs = interest(r, c.thorough)
    if c.thorough:
        offs = offs[::2] + [0]
    path = write_trace([{"days": days, "times": times, "offs": offs}])
    os.environ["KEYS"] = path
    try:
        lines = model.explore(c, "DateTimeMC", {"Stride": c.n(97, 1)},
                              ["CivilInverse", "NextDay", "LocalInverse", "ValueInverse", "BytesInverse"],
                              mem="10g")
    finally:
        os.unlink(path)
    local("UTC")
    n = 0
    for ln in sorted(lines):
        d = json.loads(ln)
        b = bytes(d["b"])
        off = d["off"]
        tzs = [Odd(off) if off % 7 == 3 or off % 1000 else timezone(timedelta(milliseconds=off))]
        if off == 0:
            tzs += [UTC, None]
        for tz in tzs:
            n += 1
            got = seen(*read(b, tz), tz)
            want = [d["f"]["c"]["y"], d["f"]["c"]["mo"], d["f"]["c"]["d"], d["f"]["ms"]] if d["ok"] else ["refused"]
            doubt = d["doubt"] or (tz is None and d["t"][0] <= -719162)
            if got != want and not (doubt and got == ["refused"]):
                c.violation("a date is read as another instant", {"bytes": b.hex(), "tz": repr(tz), "expected": want, "observed": got})
            if not d["ok"] or (tz is None and d["t"][0] <= -719162):
                continue
            dt = make(MyDT if n % 5 == 0 else datetime, want, tz)
            out = body(*wire.call(dumps, dt))
            if out != d["b"]:
                c.violation("a date is written as another instant", {"date": repr(dt), "expected": d["b"], "observed": out})
    c.traces += n
    c.count("instants-replayed", n)
    c.sample({"instant": d, "read": repr(read(bytes(d["b"]), UTC))})


def offset_ms(zone, dt_utc):
    return round(dt_utc.astimezone(zone).utcoffset() / MS)


def transitions(zone, r, rate):
    """Instants around changes of the zone's offset (found by bisection)."""
    out = []
    t = datetime(1850, 1, 1, tzinfo=UTC)
    step = timedelta(days=61)
    while t.year < 2060:
        u = t + step
        a, b = (x.astimezone(zone).utcoffset() for x in (t, u))
        if a != b and r.random() < rate:
            lo, hi = t, u
            while hi - lo > MS:
                mid = lo + (hi - lo) // 2
                mid -= timedelta(microseconds=mid.microsecond % 1000)
                if mid <= lo:
                    break
                if mid.astimezone(zone).utcoffset() == a:
                    lo = mid
                else:
                    hi = mid
            out.append(hi)
        t = u
    return out


def zoned(c, r, hists):
    """Real timezones: attached ones, and as the local timezone of naive dates."""
    for name in ZONES if c.thorough else ZONES[:8] + [r.choice(ZONES[8:])]:
        zone = zoneinfo.ZoneInfo(name)
        local(name)
        ts = []
        for t in transitions(zone, r, 1 if c.thorough else .12):
            ts += [t - MS, t, t + MS, t - 1800000 * MS, t + 1800000 * MS, t - 3600000 * MS, t + 3599999 * MS]
        for _ in range(c.n(60, 600)):
            ts.append(EPOCH + r.randint(-62135510400000, 253402214400000) * MS)
            ts.append(EPOCH + r.randint(-4 * 10**12, 8 * 10**12) * MS)
        steps = []
        for t in ts:
            b = list(struct.pack("<d", (t - EPOCH) // MS))
            off = offset_ms(zone, t)
            for tz in (zone, None):
                v = read(b, tz)
                steps.append({"op": ["read", b, [off]], "r": seen(*v, tz), "obs": []})
                # the local time, written
                lt = t.astimezone(zone)
                dt = lt if tz is not None else lt.replace(tzinfo=None)
                steps.append({"op": ["write", *fields(dt), off], "r": body(*wire.call(dumps, dt)), "obs": []})
                if v[0] == "ok":    # and what was read, written again (repeated local times differ by fold)
                    steps.append({"op": ["write", *fields(lt), off], "r": body(*wire.call(dumps, v[1])), "obs": []})
        for k in range(0, len(steps), 40):
            hists.append({"start": 0, "steps": steps[k:k + 40]})
        c.count("zones")
    local("UTC")


def others(c, r, hists):
    """Values no date has, and values at random."""
    steps = []
    xs = [math.nan, math.inf, -math.inf, 1e300, -1e300, 8.64e15, -8.64e15, 8.64e15 + 1, 253402300800000.0,
          -62135596800001.0, 1e18, 2.0**63, -2.0**63, 2.0**53, 2.0**52, 1.8e308, 2.0**60, -(2.0**60)]
    for x in xs:
        for tz in (None, UTC, timezone(timedelta(hours=5)), zoneinfo.ZoneInfo("Asia/Tokyo")):
            b = list(struct.pack("<d", x))
            steps.append({"op": ["read", b, []], "r": seen(*read(b, tz), tz), "obs": []})
    for n in (0x7ff0000000000001, 0xffffffffffffffff, 0x7fffffffffffffff, 0xfff8000000000000):
        b = list(struct.pack("<Q", n))
        steps.append({"op": ["read", b, []], "r": seen(*read(b, None), None), "obs": []})
    steps.append({"op": ["read", [0] * 7 + [128], [0]], "r": seen(*read([0] * 7 + [128], UTC), UTC), "obs": []})  # -0
    for _ in range(c.n(3000, 60000)):
        k = r.choice([8, 12, 20, 31, 32, 33, 40, 45, 47])
        n = r.getrandbits(k) * r.choice([1, -1])
        if not -62135510400000 < n < 253402300800000:
            continue
        off = r.choice([0, 0, r.randint(-1439, 1439) * 60000, r.randint(-86399, 86399) * 1000,
                        r.randint(-86399999, 86399999)])
        tz = r.choice([None, UTC]) if off == 0 else timezone(timedelta(milliseconds=off)) if r.random() < .7 else Odd(off)
        b = list(struct.pack("<d", n))
        v = read(b, tz)
        steps.append({"op": ["read", b, [off]], "r": seen(*v, tz), "obs": []})
        if v[0] == "ok" and isinstance(v[1], datetime):
            dt = v[1]
            steps.append({"op": ["write", *fields(dt), off], "r": body(*wire.call(dumps, dt)), "obs": []})
        for cls in (datetime, MyDT):
            f = [r.choice([1, 2, 1969, 1970, 2024, 9999, r.randint(1, 9999)]), r.randint(1, 12), r.randint(1, 28), r.randrange(DAY)]
            if f[0] == 1 and tz is None:
                continue
            dt = make(cls, f, tz)
            steps.append({"op": ["write", *f, off], "r": body(*wire.call(dumps, dt)), "obs": []})
    for k in range(0, len(steps), 60):
        hists.append({"start": 0, "steps": steps[k:k + 60]})


def micros(c, r, hists):
    """Dates of our time keep their microseconds when they are written and read."""
    naive = {"UTC": 0, "Etc/GMT+5": -18000000, "Asia/Tokyo": 32400000}
    steps = []
    for place, off in naive.items():
        local(place)
        for k in range(c.n(1200, 12000)):
            f = [r.choice([1952, 1969, 1969, 1970, 1970, 1975, 2000, 2024, 2099, r.randint(1952, 2099)]),
                 r.randint(1, 12), r.randint(1, 28), r.randrange(DAY)]
            if r.random() < .3:
                f[1:] = r.choice([[1, 1, 0], [12, 28, DAY - 1], [1, 1, 999], [6, 1, 1000 * r.randrange(86400)]])
            us = r.choice([0, 1, 500, 999, r.randrange(1000), r.randrange(1000)])
            off1 = None if r.random() < .5 else r.choice([0, 3600000, -18000000, 20700000])
            off2 = None if r.random() < .5 else r.choice([0, -3600000, 34200000, 500])
            tz1, tz2 = (None if o is None else timezone(timedelta(milliseconds=o)) for o in (off1, off2))
            dt = make(MyDT if k % 7 == 0 else datetime, f, tz1)
            dt = dt.replace(microsecond=dt.microsecond + us)
            st, v = wire.call(lambda: loads(dumps(dt), default_timezone=tz2))
            got = [*fields(v), v.microsecond % 1000] if st == "ok" and isinstance(v, datetime) \
                and v.tzinfo == tz2 else ["unexpected", repr(v)[:100]]
            steps.append({"op": ["trip", *f, us, off if off1 is None else off1, off if off2 is None else off2],
                          "r": got, "obs": []})
    local("UTC")
    c.count("with-microseconds", len(steps))
    for k in range(0, len(steps), 60):
        hists.append({"start": 0, "steps": steps[k:k + 60]})


def options(c):
    """default_timezone through TagReader too, and for every date of a value."""
    tz = timezone(timedelta(hours=2))
    data = dumps([datetime(2024, 1, 2, tzinfo=UTC), {"a": [datetime(1960, 5, 6, 7, 8, 9, 123000, tzinfo=tz)]}])
    for v in (loads(data, default_timezone=tz), loads(data, decode_steps=[TagReader(default_timezone=tz)])):
        a, b = v[0], v[1]["a"][0]
        if (a, b) != (datetime(2024, 1, 2, tzinfo=UTC), datetime(1960, 5, 6, 7, 8, 9, 123000, tzinfo=tz)) \
                or a.tzinfo != tz or b.tzinfo != tz:
            c.violation("default_timezone does not apply to every date", {"value": repr(v)})


def run(c):
    r = random.Random(f"T01-{c.seed}")
    exhaustive(c, r)
    hists = []
    zoned(c, r, hists)
    others(c, r, hists)
    micros(c, r, hists)
    options(c)
    model.judge(c, "DateTimeTrace", hists, what="dates")
