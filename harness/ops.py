"""What a worker does with one job: render the abstract file, make the calls, project the results."""
from __future__ import annotations
import io, os, json
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np
import xarray
import georinex as gr

import render as R
from codec import decode, BAD

E2020 = np.datetime64("2020-01-01T00:00:00", "ns")
BASE = datetime(2020, 1, 1)
SCR = Path(os.environ["VERIF_SCRATCH"])


# %% projections
def ptime(t) -> list[int]:
    """numpy datetime64 -> [seconds, microseconds]"""
    t = np.datetime64(t)
    if np.isnat(t):
        return [0, -2]
    ns = int((t.astype("datetime64[ns]") - E2020).astype("int64"))
    s, rest = divmod(ns, 10**9)
    u, n = divmod(rest, 1000)
    return [s, u if n == 0 else -1]


def ptimes(a) -> list:
    a = np.atleast_1d(np.asarray(a))
    if a.size and a.dtype.kind != "M":
        return [[0, -3]] * a.size
    if a.size == 0:
        return []
    ns = (a.astype("datetime64[ns]") - E2020).astype("int64")
    out = []
    for x, raw in zip(ns.tolist(), a):
        if np.isnat(raw):
            out.append([0, -2])
            continue
        s, rest = divmod(x, 10**9)
        u, n = divmod(rest, 1000)
        out.append([s, u if n == 0 else -1])
    return out


def canon(v):
    if isinstance(v, np.ndarray):
        return canon(v.tolist())
    if isinstance(v, (np.floating, np.integer)):
        return canon(v.item())
    if isinstance(v, (list, tuple)):
        v = [canon(x) for x in v]
        return v[0] if len(v) == 1 else v   # NetCDF does not tell one value from a list of one
    if isinstance(v, float):
        return "nan" if v != v else f"{v:.12g}"
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, int):
        return f"{float(v):.12g}"
    return str(v)


NOATTR = {"filename", "fast_processing"}


def pattrs(a) -> str:
    return json.dumps({str(k): canon(v) for k, v in a.items() if k not in NOATTR}, sort_keys=True)


FAIL = {"ok": False, "err": "", "times": [], "svs": [], "vars": [], "cells": [], "attrs": ""}


def failed(e) -> dict:
    return dict(FAIL, err=e if isinstance(e, str) else type(e).__name__)


def pdataset(ds, fam) -> dict:
    if not isinstance(ds, xarray.Dataset):
        return dict(FAIL, ok=True, vars=["?" + type(ds).__name__])
    times = ptimes(ds["time"].values) if "time" in ds.coords else []
    svs = [str(s) for s in np.atleast_1d(ds["sv"].values)] if "sv" in ds.coords else []
    names, cells = [], []
    memo = {}

    def put(nm, arr):
        names.append(nm)
        vi = len(names)
        for i, j in zip(*np.nonzero(~np.isnan(arr))):
            v = float(arr[i, j])
            c = memo.get(v)
            if c is None:
                c = memo[v] = decode(v, fam)
            cells.append([int(i) + 1, int(j) + 1, vi, c])

    for nm in ds.data_vars:
        da = ds[nm]
        if fam == "sp3" and nm == "t0":
            continue
        try:
            if set(da.dims) == {"time", "sv"}:
                put(str(nm), da.transpose("time", "sv").values.astype(float))
            elif fam == "sp3" and set(da.dims) == {"time", "sv", "ECEF"}:
                for a in "xyz":
                    put(f"{nm}.{a}", da.sel(ECEF=a).transpose("time", "sv").values.astype(float))
            else:
                names.append("?" + str(nm) + "/" + ",".join(da.dims))
        except (ValueError, TypeError, KeyError):
            names.append("?" + str(nm))
    return {"ok": True, "err": "", "times": times, "svs": svs, "vars": names, "cells": cells, "attrs": pattrs(ds.attrs)}


# %% calls
def pytime(t) -> datetime:
    return BASE + timedelta(seconds=t[0], microseconds=t[1])


def kwargs(o: dict, c: dict, fam: str) -> dict:
    """keyword arguments of the call from the abstract options and the way they are passed"""
    kw = {}
    if o["use"]:
        k = c.get("use", "set")
        if k == "str":
            kw["use"] = o["use"][0]
        else:
            kw["use"] = {"set": set, "list": list, "tuple": tuple, "frozenset": frozenset}[k](o["use"])
    elif "use0" in c:
        kw["use"] = {"none": None, "empty": set()}[c["use0"]]
    if o["tl"]:
        a, b = map(pytime, o["tl"])
        k = c.get("tl", "dt")
        if k == "str":
            a, b = a.isoformat(), b.isoformat()
        elif k == "strspace":
            a, b = a.isoformat(sep=" "), b.isoformat(sep=" ")
        elif k == "strus":   # another order of the text than of the times
            a, b = (x.strftime("%d %b %Y %H:%M:%S.%f") for x in (a, b))
        kw["tlim"] = [a, b] if c.get("tlbox") == "list" else (a, b)
    if o["meas"]:
        kw["meas"] = o["meas"][0] if c.get("meas") == "str" else (tuple if c.get("meas") == "tuple" else list)(o["meas"])
    elif "meas0" in c:
        kw["meas"] = {"none": None, "empty": [], "blank": [""], "spaces": [" "]}[c["meas0"]]
    if o["ind"] or c.get("ind0"):
        kw["useindicators"] = bool(o["ind"])
    if o["iv"]:
        s = o["iv"][0] + o["iv"][1] / 1e6
        k = c.get("iv", "float")
        if k == "int" and o["iv"][1] == 0:
            s = o["iv"][0]
        elif k == "td":
            s = timedelta(seconds=o["iv"][0], microseconds=o["iv"][1])
        kw["interval"] = s
    if "fast" in c:
        kw["fast"] = c["fast"]
    if c.get("verbose"):
        kw["verbose"] = True
    return kw


def source(doc, text, c, n):
    k = c.get("src", "path")
    if k == "sio":
        return io.StringIO(text)
    d = SCR / "in"
    d.mkdir(exist_ok=True)
    fn = d / (c.get("name") or f"f{n}{ {'obs2': '.20o', 'obs3': '.rnx', 'nav2': '.20n', 'nav3': '.rnx', 'sp3': '.sp3'}[doc['fam']] }")
    with fn.open("w", newline="", encoding="latin-1") as f:
        f.write(text)
    return str(fn) if k == "str" else fn


def reads(job) -> dict:
    """one case: an abstract file and runs on it"""
    doc = job["doc"]
    out = []
    texts = {}
    for n, run in enumerate(job["runs"]):
        cut = run.get("cut", -1)
        if cut not in texts:
            texts[cut] = R.render(doc, cut)
        text = texts[cut]
        c = run.get("call", {})
        if c.get("nl"):
            text = text.replace("\n", c["nl"])
        src = source(doc, text, c, n)
        try:
            if run["op"] == "time":
                r = dict(FAIL, ok=True, times=ptimes(gr.gettime(src)))
            else:
                o = run["o"]
                fn = gr.load
                kw = kwargs(o, c, doc["fam"])
                api = c.get("api", "load")
                if api == "obs":
                    fn = gr.rinexobs
                elif api == "nav":
                    fn = gr.rinexnav
                    kw = {k: v for k, v in kw.items() if k in ("use", "tlim")}
                if api != "load" and isinstance(kw.get("tlim"), list):
                    kw["tlim"] = tuple(kw["tlim"])
                r = pdataset(fn(src, **kw), doc["fam"])
        except Exception as e:
            r = failed(e)
            r["msg"] = str(e)[:200]
        out.append(r)
    return {"r": out}
