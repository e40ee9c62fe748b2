"""Scenarios for the file readers: which abstract files, and which calls on each, for each property."""
from __future__ import annotations
import random
from datetime import timedelta

import docs
from core import load, times
from docs import tt, E2020


def tplus(t, us):
    u = t[1] + us
    return [t[0] + u // 1000000, u % 1000000]


def doc_times(d) -> list:
    """epochs of the observation records / navigation records, ascending and distinct"""
    from datetime import datetime
    out = set()
    two = d["fam"] in ("obs2", "nav2")
    for ln in d["lines"]:
        if ln["k"] != "E" or ln.get("fl", 0) > 1:
            continue
        y = ln["y"] if not two else (ln["y"] + 1900 if ln["y"] >= 80 else ln["y"] + 2000)
        t = datetime(y, ln["mo"], ln["d"], ln["h"], ln["mi"]) + timedelta(seconds=ln["s"], microseconds=ln["f"] // 10 if d["fam"] != "nav3" else 0)
        out.add(tuple(tt(t)))
    return [list(x) for x in sorted(out)]


def doc_systems(d) -> list[str]:
    if d["fam"] == "obs2":
        return sorted({(s if s != " " else "G") for ln in d["lines"] if ln["k"] in "EC" for s, _ in ln.get("svs", [])})
    if d["fam"] == "obs3":
        return sorted(c["s"] for c in d["h"]["codes"])
    return sorted({ln["sv"][0] for ln in d["lines"] if ln["k"] == "E"})


def doc_names(d) -> list[str]:
    if d["fam"] == "obs2":
        return list(d["h"]["types"])
    return sorted({n for c in d["h"]["codes"] for n in c["c"]})


def window(r: random.Random, ts, allow_bad=False):
    def pick():
        t = r.choice(ts)
        k = r.random()
        if k < 0.5:
            return t
        if k < 0.6:
            return tplus(t, r.choice([-1, 1, 1000, -1000]))
        if k < 0.75:
            return tplus(t, r.choice([-500000, 500000, 1000000, -1000000]))
        if k < 0.83:
            return tplus(ts[0], -r.choice([1, 10**6, 3600 * 10**6, 40 * 86400 * 10**6]))
        if k < 0.91:
            return tplus(ts[-1], r.choice([1, 10**6, 3600 * 10**6, 40 * 86400 * 10**6]))
        i = r.randrange(len(ts))
        a, b = ts[i], ts[min(i + 1, len(ts) - 1)]
        us = ((b[0] - a[0]) * 10**6 + b[1] - a[1]) // 2
        return tplus(a, us)

    a, b = pick(), pick()
    if r.random() < 0.1:
        b = a
    if a > b and not (allow_bad and r.random() < 0.3):
        a, b = b, a
    return [a, b]


def tl_call(r, tl):
    k = r.choice(["dt", "dt", "str", "strspace", "strus"])
    return {"tl": k, "tlbox": r.choice(["tuple", "list"])}


def use_sel(r: random.Random, d, absent=0.15):
    sy = doc_systems(d) or ["G"]
    if r.random() < absent:
        u = [r.choice("GRECJSI")]
        if r.random() < 0.5:
            u.append(r.choice(sy))
    else:
        u = r.sample(sy, r.randint(1, len(sy)))
    return sorted(set(u), key=lambda x: r.random())


def use_call(r, u):
    return {"use": r.choice(["str", "set", "list", "tuple", "frozenset"] if len(u) == 1 else ["set", "list", "tuple", "frozenset"])}


def meas_sel(r: random.Random, d):
    nm = doc_names(d)
    n = r.choice([1, 1, 2, 2, 3, 5])
    m = []
    for _ in range(n):
        k = r.random()
        x = r.choice(nm)
        if k < 0.5:
            m.append(x)
        elif k < 0.75:
            m.append(x[: r.randint(1, len(x))])
        elif k < 0.85:
            m.append(r.choice("CLSDP"))
        elif k < 0.95:
            m.append(r.choice(["C1C", "L9Z", "Q", "C1", "L2", "S5", "D1", "X7", "C2W"]))
        elif m:
            m.append(m[0][:1])
    m = m or [nm[0]]
    if r.random() < 0.2:
        m = m + [m[0]]
    return m


def meas_call(r, m):
    return {"meas": r.choice(["str", "list", "tuple"] if len(m) == 1 else ["list", "list", "tuple"])}


def interval(r: random.Random, ts):
    k = r.random()
    if k < 0.6 and len(ts) > 1:
        i = r.randrange(len(ts) - 1)
        j = r.randrange(i + 1, min(len(ts), i + 4))
        us = (ts[j][0] - ts[i][0]) * 10**6 + ts[j][1] - ts[i][1]
        us += r.choice([0, 0, 0, 0, 1000000, -1000000, 100000, -1000])
    else:
        us = r.choice([1, 2, 5, 10, 15, 30, 31, 60, 90, 0.5, 1.5, 0.1, 3600, 10**5]) * 10**6
    us = int(max(us, 1000))
    return [us // 10**6, us % 10**6]


def iv_call(r, iv):
    if iv[1]:
        # a float has to give the number of microseconds exactly
        return {"iv": r.choice(["td", "float"])}
    return {"iv": r.choice(["int", "float", "td"])}


def any_opts(r: random.Random, d, want=None):
    """random options for this file: (o, call)"""
    fam = d["fam"]
    o, c = {}, {}
    ts = doc_times(d)
    want = want or {}
    p = lambda k, q: want.get(k, r.random() < q)
    if ts and p("tl", 0.4):
        o["tl"] = window(r, ts)
        c |= tl_call(r, o["tl"])
    if fam in ("obs2", "obs3", "nav3") and p("use", 0.4):
        o["use"] = use_sel(r, d, 0.1)
        c |= use_call(r, o["use"])
    if fam in ("obs2", "obs3"):
        if p("meas", 0.35):
            o["meas"] = meas_sel(r, d)
            c |= meas_call(r, o["meas"])
        if p("ind", 0.4):
            o["ind"] = True
        if ts and p("iv", 0.3):
            o["iv"] = interval(r, ts)
            c |= iv_call(r, o["iv"])
    if fam == "obs2" and p("fast", 0.6):
        c["fast"] = r.random() < 0.5
    return o, c


def src_call(r):
    k = r.random()
    if k < 0.7:
        return {}
    return r.choice([{"src": "str"}, {"src": "sio"}, {"verbose": True}, {"api": "special"}, {"nl": "\r\n"}])


def fix_api(c, fam):
    if c.get("api") == "special":
        c["api"] = "obs" if fam.startswith("obs") else "nav" if fam.startswith("nav") else "load"
    if fam == "sp3" and c.get("src") == "sio":   # SP3 is read from files only
        c = {}
    return c


# %% the properties
def c01(r, i):
    d = docs.gen_obs2(r, cap=1200)
    runs = [load(call=fix_api(src_call(r), "obs2"), ind=r.random() < 0.2)]
    if r.random() < 0.3:
        runs.append(load(call={"fast": False}))
    return d, runs


def c02(r, i):
    d = docs.gen_obs3(r, cap=1500)
    return d, [load(call=fix_api(src_call(r), "obs3"), ind=r.random() < 0.2)]


def c03(r, i):
    d = docs.gen_nav2(r)
    return d, [load(call=fix_api(src_call(r), "nav2"))]


def c04(r, i):
    d = docs.gen_nav3(r)
    return d, [load(call=fix_api(src_call(r), "nav3"))]


def c05(r, i):
    d = docs.gen_sp3(r)
    return d, [load(call=fix_api(src_call(r), "sp3"))]


def c06(r, i):
    fam = ["obs2", "obs3", "nav2", "nav3"][i % 4]
    big = {"obs2": dict(cap=200, ne=r.choice([2, 4, 8, 12])), "obs3": dict(cap=200, ne=r.choice([2, 4, 8])),
           "nav2": dict(nsv=r.choice([1, 2, 3, 5])), "nav3": dict(nsv=r.choice([1, 2, 3]))}[fam]
    if fam.startswith("nav") and r.random() < 0.5:   # records of several days, in order of time
        t = docs.rnd_start(r)
        t = t.replace(second=0, minute=0, year=min(t.year, 2078))
        n = r.choice([4, 6, 9, 12])
        big |= {"ts": [t + timedelta(hours=h) for h in sorted(r.sample(range(0, r.choice([30, 60, 100, 800]), 2), n))], "order": r.choice(["time", "time", "sv"])}
    d = docs.GEN[fam](r, **big)
    ts = doc_times(d)
    runs = [load()]
    for _ in range(5):
        tl = window(r, ts, allow_bad=True)
        c = tl_call(r, tl)
        if fam == "obs2":
            c["fast"] = r.random() < 0.5
        o = {"tl": tl}
        if fam != "nav2" and r.random() < 0.2:
            o["use"] = use_sel(r, d, 0.0)
            c |= use_call(r, o["use"])
        runs.append(load(call=c, **o))
    return d, runs


def c07(r, i):
    fam = ["obs2", "obs3", "nav3"][i % 3]
    kw = {"obs2": dict(cap=250, sys="M"), "obs3": dict(cap=250, ns=r.choice([1, 2, 3, 4, 7])), "nav3": {}}[fam]
    d = docs.GEN[fam](r, **kw)
    runs = [load(call={"use0": "none"})]
    for _ in range(5):
        u = use_sel(r, d)
        c = use_call(r, u)
        o = {"use": u}
        if fam == "obs2":
            c["fast"] = r.random() < 0.5
        if fam != "nav3" and r.random() < 0.3:
            o["ind"] = True
        runs.append(load(call=c, **o))
    return d, runs


def c08(r, i):
    fam = ["obs2", "obs3"][i % 2]
    d = docs.GEN[fam](r, cap=300)
    runs = [load(call={"meas0": r.choice(["none", "empty"])}), load(ind=True)]
    for _ in range(5):
        m = meas_sel(r, d)
        c = meas_call(r, m)
        o = {"meas": m}
        of = 1
        if fam == "obs2":
            c["fast"] = r.random() < 0.5
        if r.random() < 0.4:
            o["ind"] = True
            of = 2
        if r.random() < 0.2:
            o["use"] = use_sel(r, d, 0.0)
            c |= use_call(r, o["use"])
            of = 0
        runs.append(load(call=c, of=of, **o))
    return d, runs


def c09(r, i):
    fam = ["obs2", "obs3"][i % 2]
    kw = dict(cap=160, ne=r.choice([3, 6, 8, 12]), nsv=r.choice([1, 2, 3, 8, 13]))
    step = 0
    if r.random() < 0.45:   # even cadence with a gap or two
        step = r.choice([1, 1, 2, 5, 15, 30, 30])
        t = docs.rnd_start(r).replace(year=2012)
        n = r.choice([10, 16, 24])
        slots, at = [], 0
        for _ in range(n):
            slots.append(at)
            at += 1 if r.random() < 0.85 else r.choice([2, 3, 4, 7, 11, 40])
        kw |= dict(ts=[t + timedelta(seconds=step * a) for a in slots], nsv=r.choice([1, 2, 3]), nt=r.choice([1, 2]), cap=400)
        if fam == "obs3":
            del kw["nt"]
    d = docs.GEN[fam](r, **kw)
    ts = doc_times(d)
    runs = []
    for k in range(6):
        iv = interval(r, ts) if k else [0, 0]
        if k and step and r.random() < 0.7:
            iv = [step * r.choice([2, 2, 3, 3, 4, 5, 7]), 0]
        c = iv_call(r, iv)
        o = {"iv": iv}
        if fam == "obs2":
            c["fast"] = r.random() < 0.5
        if r.random() < 0.3:
            o["tl"] = window(r, ts)
            c |= tl_call(r, o["tl"])
        if r.random() < 0.2:
            o["use"] = use_sel(r, d, 0.0)
            c |= use_call(r, o["use"])
        runs.append(load(call=c, **o))
    iv = [-r.choice([1, 1, 2, 30]), r.choice([0, 500000])]   # negative: refused
    runs.append(load(call={"iv": "float"}, iv=iv))
    return d, runs


def c10(r, i):
    fam = ["obs2", "obs3"][i % 2]
    d = docs.GEN[fam](r, cap=500, ind=True)
    runs = [load(ind=True), load(call={"ind0": True})]
    for _ in range(2):
        o, c = any_opts(r, d, {"ind": True, "iv": False})
        runs.append(load(call=c, **o))
    return d, runs


def c11(r, i):
    d = docs.gen_obs2(r, cap=400)
    runs = [load(call={"fast": True}), load(call={"fast": False}, same=1), load(same=1)]
    for _ in range(2):
        o, c = any_opts(r, d, {"fast": False})
        runs.append(load(call=c | {"fast": True}, **o))
        runs.append(load(call=c | {"fast": False}, same=len(runs), **o))
    return d, runs


def c13(r, i):
    fam = ["obs2", "obs3", "nav2", "nav3"][i % 4]
    kw = {"obs2": dict(cap=300), "obs3": dict(cap=300), "nav2": {}, "nav3": {}}[fam]
    d = docs.GEN[fam](r, **kw)
    return d, [load(), times(call=r.choice([{}, {}, {"src": "str"}, {"src": "sio"}]))]


def c19(r, i):
    fam = ["obs2", "obs3", "nav2", "nav3", "sp3"][i % 5]
    kw = {"obs2": dict(cap=60, ne=r.choice([2, 3])), "obs3": dict(cap=60, ne=r.choice([2, 3])),
          "nav2": dict(nsv=r.choice([1, 2]), ne=2), "nav3": dict(nsv=r.choice([1, 2]), ne=2),
          "sp3": dict(nsv=r.choice([1, 2, 3, 5]), ne=r.choice([1, 2, 3]))}[fam]
    if fam == "obs2":
        k = r.choice([(1, 13), (6, 3), (7, 2), (16, 1), (5, 4), (11, 2), (2, 25), (6, 13)])
        kw |= dict(nt=k[0], nsv=k[1], cap=200)
    d = docs.GEN[fam](r, **kw)
    n = len(d["lines"])
    cuts = list(range(n)) if n <= 24 else sorted(r.sample(range(n), 24))
    runs = []
    for cut in cuts:
        o, c = {}, {}
        if fam == "obs2":
            c["fast"] = r.random() < 0.7
        if fam.startswith("obs") and r.random() < 0.3:
            o["ind"] = True
        runs.append(load(cut=cut, call=c, **o))
    return d, runs


def c23(r, i):
    fam = ["obs2", "obs3", "obs2", "obs3", "nav3"][i % 5]
    kw = dict(cap=350, ne=r.choice([3, 5, 8, 12]), nsv=r.choice([1, 2, 4, 9, 14])) if fam != "nav3" else {}
    d = docs.GEN[fam](r, **kw)
    runs = [load()]
    for _ in range(6):
        want = {k: r.random() < 0.65 for k in ("tl", "use", "meas", "ind", "iv", "fast")}
        o, c = any_opts(r, d, want)
        c |= fix_api(src_call(r), fam) if "tl" not in o else {}
        runs.append(load(call=c, **o))
        if r.random() < 0.25:   # the same once more, passed in another way
            c2 = {}
            if "use" in o:
                c2 |= use_call(r, o["use"])
            if "tl" in o:
                c2 |= tl_call(r, o["tl"])
            if "meas" in o:
                c2 |= meas_call(r, o["meas"])
            if "iv" in o:
                c2 |= iv_call(r, o["iv"])
            runs.append(load(call=c2, same=len(runs), **o))
    return d, runs


def c24(r, i):
    fam = ["obs2", "obs3", "nav2", "nav3", "sp3"][i % 5]
    kw = {"obs2": dict(cap=150, ne=r.choice([2, 3, 5, 8])), "obs3": dict(cap=150, ne=r.choice([2, 3, 5, 8])),
          "nav2": dict(nsv=r.choice([1, 2, 3]), ne=r.choice([2, 3]), dup=False), "nav3": dict(nsv=r.choice([1, 2, 4]), ne=r.choice([2, 3]), dup=False),
          "sp3": dict(nsv=r.choice([1, 2, 5, 18]), ne=r.choice([2, 3, 4]))}[fam]
    d = docs.GEN[fam](r, **kw)
    runs = []
    count = r.random() < 0.3
    for k in range(3):
        o, c = any_opts(r, d, {"iv": False} if count else {}) if k else ({}, {})
        if fam == "nav2":
            o.pop("tl", None)
        if fam == "obs2":
            c["fast"] = r.random() < 0.5
        if k == 0:
            c |= fix_api(src_call(r), fam)
        runs.append(load(call=c, **o))
    if fam != "sp3":
        runs.append(times())
    docs.damage(r, d, count)
    return d, runs


PLAN = {  # property: (function, quick, thorough)
    "C01": (c01, 1500, 15000), "C02": (c02, 2000, 20000), "C03": (c03, 2500, 20000), "C04": (c04, 1500, 12000),
    "C05": (c05, 2500, 20000), "C06": (c06, 800, 6000), "C07": (c07, 600, 5000), "C08": (c08, 500, 4000),
    "C09": (c09, 600, 5000), "C10": (c10, 800, 6000), "C11": (c11, 500, 4000), "C13": (c13, 1600, 12000),
    "C19": (c19, 500, 4000), "C23": (c23, 600, 5000), "C24": (c24, 2000, 15000),
}


def cases(prop: str, seed: int, n: int):
    fn = PLAN[prop][0]
    out = []
    for i in range(n):
        r = random.Random(f"{prop}/{seed}/{i}")
        d, runs = fn(r, i)
        out.append({"id": i, "doc": d, "runs": runs})
    return out
