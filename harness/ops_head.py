"""Worker side of the header and metadata checks."""
from __future__ import annotations
import io, os
from pathlib import Path

import numpy as np
import georinex as gr
from pymap3d import ecef2geodetic

import render as R
import ops

SCR = ops.SCR
EMPTY = {"ok": False, "err": "", "kind": "", "ver": "", "sys": "", "labels": [], "pos": [], "t0": [], "t1": [], "iv": [], "iv2": [], "types": [],
         "corr": [], "tcorr": [], "name": "", "tsys": "", "geo": "none", "model": [], "svtype": [], "rcv": [], "offs": [], "times": [], "svs": [],
         "iono": {k: [] for k in ("GPS", "GAL", "QZS", "BDS", "IRN")}, "sp3": []}
INFO = {"version", "filetype", "rinextype", "systems", "fields", "fields_ind", "Nobs", "Nobsused", "Nl_sv", "Fmax", "position", "position_geodetic",
        "t0", "t1", "interval", "rxmodel", "# / TYPES OF OBSERV", "# OF SATELLITES", "IONOSPHERIC CORR", "TIME SYSTEM CORR"}


def num(x):
    x = float(x)
    return "nan" if x != x else f"{x:.12g}"


def nums(x):
    return [num(v) for v in np.atleast_1d(np.asarray(x, dtype=float)).tolist()]


def words(s):
    return " ".join(str(s).split())


def geo(d):
    p = d.get("position")
    if "position_geodetic" not in d:
        return "none"
    want = ecef2geodetic(*[float(v) for v in p][:3])
    got = d["position_geodetic"]
    return "ok" if len(got) == 3 and all(abs(float(a) - float(b)) < 1e-7 or (a != a and b != b) for a, b in zip(want, got)) else "bad"


def t_of(t):
    from datetime import datetime
    d = t - datetime(2020, 1, 1)
    return [d.days * 86400 + d.seconds, d.microseconds]


def twice(x):
    """2x as seconds and microseconds; not representable: impossible"""
    us = round(2e6 * x)
    return [us // 10**6, us % 10**6] if abs(2e6 * x - us) < 1e-2 else [0, -1]


def do_info(src):
    d = gr.rinexinfo(src)
    k = d["rinextype"]
    v = d["version"]
    return dict(kind=k if isinstance(k, str) else "?", ver=v if isinstance(v, str) else num(v), sys=str(d.get("systems", "")))


def do_header(src, fam):
    h = gr.rinexheader(src)
    r = dict(kind=str(h["rinextype"]), ver=num(h["version"]), sys=str(h["systems"]), geo=geo(h))
    r["labels"] = sorted([k, words(v)] for k, v in h.items() if k not in INFO)
    if "position" in h:
        r["pos"] = nums(h["position"]) if len(h["position"]) else []
    for k in ("t0", "t1"):
        if k in h:
            r[k] = t_of(h[k])
    if "interval" in h:
        r["iv"] = [num(h["interval"])]
    if fam == "obs2":
        r["types"] = [["", list(h["fields"])]]
    elif fam == "obs3":
        r["types"] = [[k, list(v)] for k, v in h["fields"].items()]
    for k, f in (("IONOSPHERIC CORR", "corr"), ("TIME SYSTEM CORR", "tcorr")):
        r[f] = [[a, nums(b)] for a, b in h.get(k, {}).items()]
    return r


def do_load(src, fn, kw):
    ds = fn(src, **kw)
    a = ds.attrs
    if "ECEF" in ds.coords:
        return dict(kind="sp3", sp3=[num(a["Nepoch"]), a["coord_sys"].strip(), a["orbit_type"].strip(), a["agency"].strip(), *map(str, ops.ptime(ds["t0"].values))],
                    times=ops.ptimes(ds.time.values), svs=[str(s) for s in ds.sv.values])
    r = dict(kind=str(a.get("rinextype", "")), ver=num(a["version"]) if "version" in a else "", name=a.get("filename", ""), tsys=str(a.get("time_system", "")))
    r["times"] = ops.ptimes(ds.time.values) if "time" in ds.coords else []
    r["svs"] = [str(s) for s in ds.sv.values] if "sv" in ds.coords else []
    if "position" in a:
        r["pos"] = nums(a["position"]) if len(a["position"]) else []
    r["geo"] = geo(a)
    if "rxmodel" in a:
        r["model"] = [words(a["rxmodel"])]
    if "interval" in a:
        r["iv"] = nums(a["interval"])
        if r["iv"] != ["nan"]:
            r["iv2"] = twice(float(a["interval"]))
    if "svtype" in a:
        r["svtype"] = [str(x) for x in a["svtype"]]
    for k in EMPTY["iono"]:
        if "ionospheric_corr_" + k in a:
            r.setdefault("iono", {x: [] for x in EMPTY["iono"]})[k] = [nums(a["ionospheric_corr_" + k])]
    if "receiver_clock_offset_applied" in a:
        r["rcv"] = nums(a["receiver_clock_offset_applied"])
    if "time_offset" in a:
        r["offs"] = nums(a["time_offset"])
    return r


def heads(job) -> dict:
    text = R.render(job["doc"]) if "doc" in job else job["text"]
    fam = job["fam"]
    d = SCR / "heads"
    d.mkdir(exist_ok=True)
    out = []
    for run in job["runs"]:
        c = run["call"]
        fn = d / c["file"]
        with fn.open("w", newline="", encoding="latin-1") as f:
            f.write(text)
        src = io.StringIO(text) if c["src"] == "sio" else str(fn) if c["src"] == "str" else fn
        try:
            if run["op"] == "info":
                r = do_info(src)
            elif run["op"] == "header":
                r = do_header(src, fam)
            elif run["op"] == "time":
                r = dict(times=ops.ptimes(gr.gettime(src)))
            else:
                api = {"obs": gr.rinexobs, "nav": gr.rinexnav}.get(c.get("api"), gr.load)
                kw = ops.kwargs(run["o"], c, fam)
                if api is gr.rinexnav:
                    kw = {k: v for k, v in kw.items() if k in ("use", "tlim")}
                if api is not gr.load and isinstance(kw.get("tlim"), list):
                    kw["tlim"] = tuple(kw["tlim"])
                r = do_load(src, api, kw)
            r = {**EMPTY, **r, "ok": True}
        except Exception as e:
            r = dict(EMPTY, err=type(e).__name__, msg=str(e)[:200])
        out.append(r)
        fn.unlink()
    return {"r": out}
