"""Generators of abstract files (as the specification sees them) with a textual style."""
from __future__ import annotations
import random
from datetime import datetime, timedelta

E2020 = datetime(2020, 1, 1)

STARTS = [
    datetime(2018, 7, 29, 0, 59, 30),
    datetime(1999, 12, 31, 23, 58, 45),
    datetime(2000, 2, 28, 23, 59, 30),
    datetime(2016, 2, 29, 12, 0, 0),
    datetime(1980, 1, 6, 0, 0, 0),
    datetime(2079, 12, 30, 23, 59, 0),
    datetime(2019, 12, 31, 23, 59, 0),
    datetime(2010, 3, 5, 9, 59, 58),
    datetime(1989, 11, 9, 1, 2, 3),
    datetime(2038, 1, 19, 3, 14, 0),
    datetime(2008, 12, 31, 23, 59, 1),
]


def tt(t: datetime) -> list[int]:
    d = t - E2020
    return [d.days * 86400 + d.seconds, d.microseconds]


def rnd_start(r: random.Random) -> datetime:
    if r.random() < 0.7:
        return r.choice(STARTS)
    return datetime(1980, 1, 6) + timedelta(seconds=r.randrange(0, 99 * 365 * 86400))


def epochs(r: random.Random, n: int, frac: str | None = None, step=None) -> list[datetime]:
    """increasing epochs; frac: none, tenth, ms, us"""
    t = rnd_start(r)
    frac = frac or r.choice(["none", "none", "tenth", "ms", "us"])
    unit = {"none": 1000000, "tenth": 100000, "ms": 1000, "us": 1}[frac]
    if frac != "none":
        t += timedelta(microseconds=r.randrange(0, 1000000 // unit) * unit)
    step = step or r.choice([1, 15, 30, 30, 30, 60, 3600, 0.5 if frac != "none" else 5])
    mode = r.choice(["regular", "gaps", "jitter"])
    out = []
    for _ in range(n):
        out.append(t)
        d = timedelta(seconds=step)
        if mode == "gaps" and r.random() < 0.3:
            d *= r.choice([2, 3, 10, 100])
        if mode == "jitter" and frac != "none":
            d += timedelta(microseconds=r.randrange(0, 50) * unit)
        elif mode == "jitter":
            d += timedelta(seconds=r.randrange(0, 5))
        t += d
    if t.year > 2079:
        return epochs(r, n, frac)
    return out


def civil(t: datetime, two: bool) -> dict:
    return {
        "y": t.year % 100 if two else t.year,
        "mo": t.month, "d": t.day, "h": t.hour, "mi": t.minute, "s": t.second,
        "f": t.microsecond * 10,
    }


class Ids:
    def __init__(self, start=100):
        self.n = start - 1

    def __call__(self):
        self.n += 1
        return self.n


SYS2 = "GRECJS"
TYPES2 = [
    f"{a}{b}" for b in "125678" for a in ("C", "L", "D", "S", "P")
]
MAXPRN = {"G": 32, "R": 27, "E": 36, "C": 63, "J": 10, "S": 58, "I": 14}
MINPRN = {"S": 20}


def sv_pool(r: random.Random, systems: str, n: int) -> list[list]:
    hi = 99 if r.random() < 0.1 else 0   # any two digits may occur
    allsv = [[s, p] for s in systems for p in range(MINPRN.get(s, 1), max(hi, MAXPRN[s]) + 1)]
    r.shuffle(allsv)
    pool = allsv[:n]
    return pool


def cell(r: random.Random, ids: Ids, dens: float, ind: bool) -> list[int]:
    if r.random() < dens:
        v = ids() if r.random() > 0.02 else 0
        li = r.choice([-1, -1, 0, 1, 2, 4, 7, 9]) if ind else -1
        si = r.choice([-1, 0, 1, 3, 5, 8, 9]) if ind else -1
    else:
        v = -1
        li = si = -1
        if ind and r.random() < 0.1:
            si = r.randrange(0, 10)
    return [v, li, si]


def order(r, svs):
    svs = list(svs)
    k = r.random()
    if k < 0.5:
        r.shuffle(svs)
    elif k < 0.8:
        svs.sort()
    return svs


def event2(r, lines, t, two=True):
    fl = r.choice([2, 3, 4, 4])
    k = r.choice([0, 1, 1, 2, 5]) if fl != 3 else r.choice([1, 2, 3])
    e = {"k": "E", **civil(t, two), "fl": fl, "n": k, "svs": [], "blank": r.random() < 0.5}
    lines.append(e)
    for _ in range(k):
        lines.append({"k": "H", "txt": r.choice(HTEXT)})


HTEXT = [
    ("ANTENNA MOVED TO NEW SITE", "COMMENT"),
    ("A 9080", "MARKER NAME"),
    ("        1.2345        0.0000        0.0000", "ANTENNA: DELTA H/E/N"),
    ("", "COMMENT"),
    ("   the site was visited 12 times at 01:02", "COMMENT"),
    ("  12  3  4", "COMMENT"),
]
JTEXT = ["", "    ", "garbage", "this line is not RINEX at all", "!!!", "*** corrupted ***"]


def gen_obs2(r: random.Random, **kw) -> dict:
    sys = kw.get("sys") or r.choice(["M", "M", "M", "M", "G", " ", "R", "E"])
    systems = kw.get("systems") or (
        "".join(r.sample(SYS2, r.choice([1, 2, 2, 3, 4, 6]))) if sys == "M" else ("G" if sys == " " else sys)
    )
    nt = kw.get("nt") or r.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 14, 15, 16, 18, 19, 27])
    types = TYPES2[:]
    if r.random() < 0.7:
        r.shuffle(types)
    types = types[:nt]
    ne = kw.get("ne") or r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    big = kw.get("nsv") or r.choice([1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 14, 24, 25, 26, 36, 37, 40, 60])
    if kw.get("long", r.random() < 0.02) and not {"ne", "nsv", "nt", "ts"} & set(kw):   # many epochs
        ne, big, nt = r.choice([60, 150, 300]), r.choice([1, 2]), r.choice([1, 2])
        types = types[:nt]
    # keep documents moderate
    while kw.get("cap", 900) < ne * big * nt and ne > 1:
        ne -= 1
    if kw.get("cap", 900) < ne * big * nt:
        nt = max(1, kw.get("cap", 900) // (ne * big))
        types = types[:nt]
    pool = sv_pool(r, systems, max(big, r.randrange(1, 4)))
    ts = kw.get("ts") or epochs(r, ne)
    ids = Ids()
    ind = kw.get("ind", r.random() < 0.6)
    dens = kw.get("dens") or r.choice([1, 1, 0.9, 0.6, 0.3])
    events = kw.get("events", r.random() < 0.35)
    junk = kw.get("junk", r.random() < 0.25)
    vary = r.random() < 0.6
    blankg = kw.get("blankg", r.random() < 0.3)
    nl = (nt + 4) // 5
    lines = []
    if junk and r.random() < 0.4:
        lines.append({"k": "J", "txt": ""})
    for ie, t in enumerate(ts):
        if events and r.random() < 0.4:
            event2(r, lines, t)
        n = len(pool) if not vary else r.choice([len(pool), r.randint(1, len(pool)), min(12, len(pool)), min(13, len(pool)), min(24, len(pool))])
        if ie and r.random() < 0.05 and kw.get("empty", True):
            n = 0
        if ie == 0 and kw.get("first"):
            n = min(kw["first"], len(pool))
        svs = order(r, r.sample(pool, n))
        if blankg:
            svs = [[" ", p] if s == "G" else [s, p] for s, p in svs]
        lines.append({"k": "E", **civil(t, True), "fl": r.choice([0, 0, 0, 0, 1]), "n": n, "svs": svs[:12]})
        for i in range(12, n, 12):
            lines.append({"k": "C", "svs": svs[i : i + 12]})
        for _ in svs:
            d = 0 if r.random() < 0.04 else dens
            for p in range(nl):
                lines.append({"k": "D", "c": [cell(r, ids, d, ind) for _ in types[p * 5 : p * 5 + 5]]})
        if junk and r.random() < 0.3:
            lines.append({"k": "J", "txt": r.choice(JTEXT)})
    if events and r.random() < 0.3:
        event2(r, lines, ts[-1] + timedelta(seconds=1))
    return {
        "fam": "obs2",
        "h": {"sys": sys, "types": types},
        "lines": lines,
        "meta": kw.get("meta") or obs_meta(r, ts, 2, sys),
        "style": style(r),
    }


def obs_meta(r, ts, ver, sys):
    return {
        "version": r.choice([2.11, 2.10, 2.0, 2.12] if ver == 2 else [3.0, 3.01, 3.02, 3.03, 3.04, 3.05]),
        "t0": ts[0], "tsys": r.choice(["GPS", "GLO", "GAL"]) if sys == "M" else "",
        "pos": [4789028.4701, 176610.0133, 4195017.031] if r.random() < 0.8 else None,
        **header_style(r),
    }


EXTRA = [("leap", "    18", "LEAP SECONDS"), ("sat", "    12", "# OF SATELLITES"), ("mk", "MEDICINE HAT 1", "MARKER NUMBER"), ("", "", "COMMENT"),
         ("", "# / TYPES OF OBSERV are below", "COMMENT"), ("", "> 2020 01 01 00 00  0.0000000  0  1", "COMMENT"), ("", "END OF HEADER is not here", "COMMENT")]


def header_style(r):
    """records of the header that do not concern the reading"""
    return {
        "comments": ["a comment"] * r.choice([0, 1, 1, 1, 2, 3, 10]) if r.random() < 0.97 else ["comment"] * r.choice([60, 120]),
        "extra": [x[1:][::-1] for x in r.sample(EXTRA, r.choice([0, 0, 1, 2]))],
        "inter": r.random() < 0.15,      # comments between the lines of observation types
        "hstrip": r.random() < 0.2,      # no trailing blanks in the header
    }


def style(r):
    return {
        "trim": r.choice(["pad", "trim", "mixed"]),
        "final_nl": r.random() < 0.9,
        "zero": r.random() < 0.5,      # G05 or G 5
        "zdate": r.random() < 0.5,     # 08 or  8
        "num": r.choice([0, 0, 1]),
        "clock": r.random() < 0.3,
        "nav": r.randrange(0, 5),
        "seed": r.randrange(1 << 30),
    }


# %% RINEX 3 observations
SYS3 = "GRECJSI"


def codes3(r, n):
    out = []
    allc = [f"{a}{b}{c}" for b in "1257689" for c in "CWXPQLSI" for a in "CLDS"]
    if r.random() < 0.5:
        r.shuffle(allc)
    for c in allc[:n]:
        out.append(c)
    return out


def gen_obs3(r: random.Random, **kw) -> dict:
    ns = kw.get("ns") or r.choice([1, 1, 2, 2, 3, 4, 7])
    systems = kw.get("systems") or "".join(r.sample(SYS3, ns))
    same = r.random() < 0.3
    base = codes3(r, 12)
    cnt = [1, 2, 3, 4, 5, 8, 12, 13, 14, 20, 26, 27]
    codes = []
    for s in systems:
        n = kw.get("nc") or r.choice(cnt)
        if same:
            c = base[:]
            r.shuffle(c)
            c = c[: min(n, 12)]
        else:
            c = codes3(r, n)
        codes.append({"s": s, "c": c})
    width = max(len(c["c"]) for c in codes)
    ne = kw.get("ne") or r.choice([1, 2, 3, 4, 6, 8])
    big = kw.get("nsv") or r.choice([1, 2, 3, 5, 8, 9, 10, 12, 13, 20, 35, 36, 60])
    cap = kw.get("cap", 900)
    if kw.get("long", r.random() < 0.02) and not {"ne", "nsv", "nc", "ts"} & set(kw) and width <= 5:   # many epochs
        ne, big = r.choice([60, 150, 300]), 1
    while ne > 1 and ne * big * width > cap:
        ne -= 1
    unused = "".join(s for s in systems if r.random() < 0.2) if len(systems) > 1 else ""
    act = "".join(s for s in systems if s not in unused) or systems[0]
    pool = sv_pool(r, act, big)
    ts = kw.get("ts") or epochs(r, ne)
    ids = Ids()
    ind = kw.get("ind", r.random() < 0.6)
    dens = kw.get("dens") or r.choice([1, 0.9, 0.6, 0.3])
    events = kw.get("events", r.random() < 0.35)
    junk = kw.get("junk", r.random() < 0.25)
    vary = r.random() < 0.6
    C = {c["s"]: c["c"] for c in codes}
    lines = []
    for ie, t in enumerate(ts):
        if events and r.random() < 0.4:
            event3(r, lines, t)
        n = len(pool) if not vary else r.choice([len(pool), r.randint(1, len(pool))])
        if ie and r.random() < 0.05 and kw.get("empty", True):
            n = 0
        svs = order(r, r.sample(pool, n))
        lines.append({"k": "E", **civil(t, False), "fl": r.choice([0, 0, 0, 1]), "n": n})
        for sv in svs:
            c = C[sv[0]]
            k = len(c) if r.random() < 0.6 else r.randint(0, len(c))
            d = 0 if r.random() < 0.06 else dens
            lines.append({"k": "S", "sv": sv, "c": [cell(r, ids, d, ind) for _ in range(k)]})
        if junk and r.random() < 0.3:
            lines.append({"k": "J", "txt": r.choice(JTEXT)})
    if events and r.random() < 0.3:
        event3(r, lines, ts[-1] + timedelta(seconds=1))
    sys = systems if len(systems) == 1 and r.random() < 0.7 and systems != "S" else "M"
    return {
        "fam": "obs3",
        "h": {"sys": sys, "codes": codes},
        "lines": lines,
        "meta": kw.get("meta") or obs_meta(r, ts, 3, sys),
        "style": style(r),
    }


def event3(r, lines, t):
    fl = r.choice([2, 3, 4, 4, 5])
    k = r.choice([0, 1, 1, 2, 5]) if fl != 3 else r.choice([1, 2, 3])
    if fl == 5:
        k = 0
    lines.append({"k": "E", **civil(t, False), "fl": fl, "n": k, "blank": fl != 5 and r.random() < 0.5})
    for _ in range(k):
        lines.append({"k": "H", "txt": r.choice(HTEXT)})


# %% navigation
NVAL2 = {"G": 29, "R": 15, "E": 27}
MORE = {"C": 7, "E": 7, "G": 7, "J": 7, "R": 3, "S": 3, "I": 7}


def nav_times(r, n, frac=False):
    t = rnd_start(r)
    t = t.replace(second=0, minute=t.minute // 10 * 10)
    out = []
    for _ in range(n):
        out.append(t + (timedelta(microseconds=100000 * r.randrange(0, 600)) if frac and r.random() < 0.5 else timedelta(0)))
        t += timedelta(seconds=r.choice([600, 1800, 7200, 7200, 7199, 86400, 16]))
    if t.year > 2079:
        return nav_times(r, n, frac)
    return out


def gen_nav2(r: random.Random, **kw) -> dict:
    sys = kw.get("sys") or r.choice("GGRE")
    nsv = kw.get("nsv") or r.choice([1, 2, 3, 5, 8, 12])
    ne = kw.get("ne") or r.choice([1, 2, 3, 4, 6])
    ts = kw.get("ts") or nav_times(r, ne, frac=kw.get("frac", r.random() < 0.4))
    ts = sorted(set(ts))
    pool = sv_pool(r, sys, nsv)
    recs = [(t, sv) for t in ts for sv in pool if r.random() < kw.get("fill", 0.7)] or [(ts[0], pool[0])]
    mode = kw.get("order") or r.choice(["time", "sv", "shuffle", "time"])
    if mode == "sv":
        recs.sort(key=lambda q: (q[1], q[0]))
    elif mode == "shuffle":
        r.shuffle(recs)
    dup = kw.get("dup", r.random() < 0.2)
    if dup:
        for _ in range(r.choice([1, 1, 2])):
            recs.insert(r.randrange(len(recs) + 1), r.choice(recs))
    junk = kw.get("junk", r.random() < 0.2)
    ids = Ids()
    lines = []
    nv = NVAL2[sys]
    last = r.choice(["full", "full", "omit", "blank", "mixed"])
    spare = r.random() < 0.3
    for t, sv in recs:
        v = [0 if r.random() < 0.08 else ids() for _ in range(nv)]
        lk = last if last != "mixed" else r.choice(["full", "omit", "blank"])
        if lk == "omit":
            v = v[:-1]
        elif lk == "blank":
            v[-1] = -1
        elif spare and sys == "G":
            v += [0, 0]
        lines.append({"k": "E", "prn": sv[1], **civil(t, True), "c": v[:3]})
        rest = v[3:]
        sizes = [4, 4, 4, 4, 3, 4, 4] if sys == "E" else [4] * MORE[sys]
        for z in sizes:
            lines.append({"k": "D", "c": rest[:z]})
            rest = rest[z:]
        if junk and r.random() < 0.3:
            lines.append({"k": "J", "txt": r.choice(JTEXT)})
    st = style(r)
    return {"fam": "nav2", "h": {"sys": sys}, "lines": lines,
            "meta": kw.get("meta") or {"version": r.choice([2.11, 2.1, 2.0]), **header_style(r)}, "style": st}


WIDTHS3 = {"G": [28, 29, 30, 31], "J": [28, 29, 30, 31], "C": [27, 28, 29, 30, 31], "E": [27, 28, 29, 31],
           "I": [28, 31], "R": [15], "S": [15]}


def nav3_lines(sys, v):
    """split values over the lines of a record"""
    n = len(v)
    if sys in "RS":
        sizes = [4, 4, 4]
    elif sys == "C" and n == 27:
        sizes = [4, 4, 4, 4, 2, 4, 2]
    elif sys == "C" and n == 28:
        sizes = [4, 4, 4, 4, 3, 4, 2]
    elif sys == "E" and n == 27:
        sizes = [4, 4, 4, 4, 3, 4, 1]
    else:
        sizes = [4, 4, 4, 4, 4, 4, 4]
    out, rest = [], v[3:]
    for z in sizes:
        out.append(rest[:z])
        rest = rest[z:]
    assert not rest
    return out


def gen_nav3(r: random.Random, **kw) -> dict:
    systems = kw.get("systems") or "".join(r.sample("GREJCIS", r.choice([1, 1, 2, 3, 4, 7])))
    nsv = kw.get("nsv") or r.choice([1, 2, 3, 5, 8])
    ne = kw.get("ne") or r.choice([1, 2, 3, 4])
    ts = kw.get("ts") or nav_times(r, ne)
    ts = sorted(set(ts))
    pool = sv_pool(r, systems, nsv)
    for s in systems:
        if not any(sv[0] == s for sv in pool) and r.random() < 0.5:
            pool += sv_pool(r, s, 1)
    recs = [(t, sv) for t in ts for sv in pool if r.random() < kw.get("fill", 0.7)] or [(ts[0], pool[0])]
    mode = kw.get("order") or r.choice(["time", "sv", "shuffle", "shuffle"])
    if mode == "sv":
        recs.sort(key=lambda q: (q[1], q[0]))
    elif mode == "shuffle":
        r.shuffle(recs)
    if kw.get("dup", r.random() < 0.3):
        for _ in range(r.choice([1, 1, 2, 3])):
            recs.insert(r.randrange(len(recs) + 1), r.choice(recs))
    junk = kw.get("junk", r.random() < 0.2)
    ids = Ids()
    wid = {}
    for sv in pool:
        wid[tuple(sv)] = r.choice(WIDTHS3[sv[0]])
    lines = []
    short = r.random() < 0.3
    seen = set()
    for t, sv in recs:
        key = tuple(sv)
        n = wid[key]
        v = [0 if r.random() < 0.05 else ids() for _ in range(n)]
        v[-1] = v[-1] or ids()
        if r.random() < 0.2:  # blank field in the middle of a record
            v[r.randrange(3, n - 1)] = -1
        # trailing fields omitted in some records of a satellite that has them in others
        if short and n > 28 and sv[0] in "GJ" and recs.count((t, sv)) == 1 and r.random() < 0.5:
            v = v[: r.randrange(28, n)]
        elif kw.get("padblank", True) and r.random() < 0.2 and sv[0] in "GJ" and n <= 30:
            v += [-1] * (31 - n)   # blank-padded
        lines.append({"k": "E", "sv": sv, **civil(t, False), "c": v[:3]})
        for c in nav3_lines(sv[0], v):
            lines.append({"k": "D", "c": c})
        seen.add(key)
        if junk and r.random() < 0.3:
            lines.append({"k": "J", "txt": r.choice(JTEXT)})
    return {"fam": "nav3", "h": {"sys": r.choice(["M", systems[0] if len(systems) == 1 else "M"])}, "lines": lines,
            "meta": kw.get("meta") or {"version": r.choice([3.0, 3.01, 3.02, 3.03, 3.04, 3.05]), **header_style(r)}, "style": style(r)}


# %% SP3
def gen_sp3(r: random.Random, **kw) -> dict:
    ver = kw.get("ver") or r.choice("acd")
    nsv = kw.get("nsv") or r.choice([1, 2, 3, 16, 17, 18, 34, 35] + ([85] if ver != "a" else []) + ([86, 110] if ver == "d" else []))
    ne = kw.get("ne") or r.choice([1, 2, 3, 5])
    while ne > 1 and ne * nsv > 150:
        ne -= 1
    pad = r.choice(["0", "0", " "])
    if ver == "a" and r.random() < 0.5:
        pool = [[" ", p, " "] for p in r.sample(range(1, 100), nsv if nsv < 99 else 32)]
    else:
        pool = [sv + [pad] for sv in sv_pool(r, "GRECJ", nsv)]
    nsv = len(pool)
    if r.random() < 0.5:
        pool.sort(key=lambda q: (q[0], q[1]))
    vel = r.random() < 0.5
    t = rnd_start(r)
    if r.random() < 0.3:
        t += timedelta(microseconds=r.randrange(1000000))
    ids = Ids()
    absent = r.random() < 0.4
    shuf = kw.get("shuffle", r.random() < 0.15)
    lines = []
    for _ in range(ne):
        c = civil(t, False)
        sixty = r.random() < 0.3
        if sixty and c["s"] == 0:   # the same instant written as second 60
            p = t - timedelta(minutes=1)
            c = civil(p, False)
            c["s"] = 60
            c["f"] = t.microsecond * 10
            if r.random() < 0.5 and p.minute == 59:
                q = t - timedelta(hours=1)
                c = civil(q, False)
                c["s"], c["mi"] = 0, 60
                c["f"] = t.microsecond * 10
                if q.hour == 23 and r.random() < 0.5:
                    w = t - timedelta(days=1)
                    c = civil(w, False)
                    c["s"], c["mi"], c["h"] = 0, 0, 24
                    c["f"] = t.microsecond * 10
        c["f"] *= 10  # eight decimals
        lines.append({"k": "T", **c})
        svs = [s for s in pool if not (absent and r.random() < 0.3)]
        if shuf:
            r.shuffle(svs)
        for sv in svs:
            c = [ids() for _ in range(4)]
            if r.random() < 0.06:   # no position known
                c[:3] = [0, 0, 0]
            if r.random() < 0.06:   # no clock known
                c[3] = 1
            lines.append({"k": "P", "sv": sv, "c": c})
            if r.random() < 0.15:
                lines.append({"k": "J", "txt": "EP  55  55  55     222  1234567 -1234567 5999999      -30       21 -1230000"})
            if vel and r.random() < 0.9:
                lines.append({"k": "V", "sv": sv, "c": [ids() for _ in range(4)]})
                if r.random() < 0.15:
                    lines.append({"k": "J", "txt": "EV  22  22  22     111  1234567  1234567 1234567  1234567 -1234567 -1234567"})
        if r.random() < 0.1:
            lines.append({"k": "J", "txt": r.choice(["/* a comment", "", "   "])})
        t += timedelta(seconds=r.choice([900, 300, 1, 0.5, 60, 3600, 86400 / 2]))
        if t.second and r.random() < 0.5:
            t = t.replace(second=0) + timedelta(minutes=1)
    if r.random() < 0.75:
        lines.append({"k": "EOF"})
    return {"fam": "sp3", "h": {"svs": pool, "ver": ver, "pv": "V" if vel else "P"}, "lines": lines,
            "meta": {"t0": lines[0], "tail": r.random() < 0.4, "ncom": r.choice([4, 4, 4, 0, 1, 9]) if ver == "d" else 4}, "style": style(r)}


GEN = {"obs2": gen_obs2, "obs3": gen_obs3, "nav2": gen_nav2, "nav3": gen_nav3, "sp3": gen_sp3}


# %% damage: fields and epoch or record lines that cannot be read
DATECOLS = {"obs2": [(1, 3), (4, 6), (7, 9), (10, 12), (13, 15), (16, 26), (28, 29)], "obs3": [(2, 6), (7, 9), (10, 12), (13, 15), (16, 18), (19, 29)],
            "nav2": [(3, 5), (6, 8), (9, 11), (12, 14), (15, 17), (17, 22)], "nav3": [(4, 8), (9, 11), (12, 14), (15, 17), (18, 20), (21, 23)],
            "sp3": [(3, 7), (8, 10), (11, 13), (14, 16), (17, 19), (20, 22)]}


def damage(r, d, count=True):
    fam = d["fam"]
    heads = [i for i, ln in enumerate(d["lines"]) if ln["k"] in "ET" and ln.get("fl", 0) < 2]
    cells = [i for i, ln in enumerate(d["lines"]) if ln.get("c") and ln["k"] in ("DSPVE")]
    for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
        if r.random() < 0.35 and heads:
            cols = DATECOLS[fam] + ([(29, 32)] if fam == "obs2" and count else [(32, 35)] if fam == "obs3" and count else [])
            ln, (a, b) = d["lines"][r.choice(heads)], r.choice(cols)
            if "dmg" not in ln:   # the date is still there where only the count is damaged
                ln |= {"dmg": [a, b, r.choice("**x ?")], "dated": (a, b) in ((29, 32), (32, 35))}
        elif cells:
            ln = d["lines"][r.choice(cells)]
            i = r.randrange(len(ln["c"]))
            if fam.startswith("obs"):
                c = list(ln["c"][i])
                k = r.choice([0, 0, 0, 1, 2])
                c[k] = -2
                ln["c"][i] = c
            else:
                ln["c"][i] = -2
    d["broken"] = True
    return d
