"""Worker side of satellite positions."""
from __future__ import annotations
import io, shutil, tempfile
from datetime import datetime
from pathlib import Path

import numpy as np
import xarray
import georinex as gr

import ops
from ops import SCR, ptimes

E2020 = datetime(2020, 1, 1)


def pick(ds, p):
    how = p["how"]
    s = ds.sel(sv=[p["sv"]]) if how == "list" else ds.sel(sv=p["sv"])
    if how == "drop":
        s = s.dropna(dim="time", how="all")
    elif how == "one":
        s = s.isel(time=p["k"] % s.time.size)
    elif how == "back":
        s = s.isel(time=slice(None, None, -1))
    elif how == "where":
        s = ds.where(ds.sv == p["sv"], drop=True).squeeze("sv")
    elif how == "some":   # only what the orbit needs
        keep = [v for v in s.data_vars if v not in ("health", "TGD", "SVacc", "FitIntvl", "SVclockBias")]
        s = s[keep]
    return s


def hand(rec):
    """a dataset made without a file"""
    el = {k: float(v) for k, v in rec["el"].items()}
    ts = [np.datetime64("2020-01-01", "us") + np.timedelta64(s, "s") + np.timedelta64(u, "us") for s, u in rec["times"]]
    if rec["whole"]:
        el = {k: int(v) if v == int(v) else v for k, v in el.items()}
    if not rec["shared"]:
        el = {k: ("time", [v] * len(ts)) for k, v in el.items()}
    return xarray.Dataset(el, attrs={"svtype": rec["svtype"]}, coords={"time": np.array(ts, dtype="datetime64[ns]")})


def flat(a):
    return np.asarray(a.values if isinstance(a, xarray.DataArray) else a, dtype=float).ravel().tolist()


def orbit(job) -> dict:
    d = Path(tempfile.mkdtemp(dir=SCR))
    try:
        if job.get("hand"):
            sets = [hand(h) for h in job["hand"]]
        else:
            try:
                fn = d / job["name"]
                fn.write_text(job["text"])
                c = job["call"]
                kw = {}
                if c.get("use"):
                    kw["use"] = set(c["use"])
                if c.get("tl"):
                    kw["tlim"] = tuple(ops.pytime(t) for t in c["tl"])
                if c["via"] == "stream":
                    ds = gr.load(io.StringIO(job["text"]), **kw)
                elif c["via"] == "nc":
                    gr.load(fn, d / "out.nc", **kw)
                    ds = gr.load(d / "out.nc")
                else:
                    ds = gr.load(fn, **kw)
            except Exception as e:
                return {"load": f"{type(e).__name__}: {e}"[:300]}
        out = []
        for i, p in enumerate(job["picks"]):
            try:
                s = sets[i] if job.get("hand") else pick(ds, p)
                before = s.copy(deep=True)
                xyz = [flat(a) for a in gr.keplerian2ecef(s)]
                r = {"ok": True, "times": ptimes(s["time"].values), "xyz": xyz, "same": bool(s.identical(before))}
                if len({len(a) for a in xyz}) != 1:
                    r = {"ok": False, "msg": "coordinates of different length"}
                out.append(r)
            except Exception as e:
                out.append({"ok": False, "msg": f"{type(e).__name__}: {e}"[:200]})
        return {"svs": [] if job.get("hand") else [str(x) for x in ds.sv.values], "picks": out}
    finally:
        shutil.rmtree(d, ignore_errors=True)
