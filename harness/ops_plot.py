"""Worker side of the plots: figures are made without a display and looked at, never drawn."""
from __future__ import annotations
import io, os, shutil, tempfile
from pathlib import Path

import numpy as np
import pandas
import georinex as gr
from pymap3d import ecef2geodetic

import ops, ops_orbit, ops_tools
import render as R
from codec import decode
from ops import SCR, kwargs, ptimes
from ops_head import num
from ops_session import forked
from ops_store import argv_of, program

COLOURS = ["g", "orange", "r", "b"]


def micro(v):
    return int(round(float(v) * 1e6))


def times_of(x):
    x = np.asarray(x)
    if x.dtype.kind == "f":   # days
        return [[s, u] for s, u in ptimes((np.round(x * 86400e6)).astype("datetime64[us]"))]
    return ptimes(x)


def axes_of(ax, fam):
    from matplotlib.collections import PathCollection
    from matplotlib.colors import to_hex

    hexes = {to_hex(c): c for c in COLOURS}
    label = ax.get_ylabel()
    legend = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
    curves = []
    for i, ln in enumerate(ax.lines):
        x, y = ln.get_xdata(orig=True), np.asarray(ln.get_ydata(orig=True), dtype=float)
        name = str(ln.get_label())
        if label:
            # in the legend the curves are in the order they were drawn
            if name.startswith("_"):
                name = legend[i] if i < len(legend) else "?"
            ok = ~np.isnan(y)
            pts = [[t, decode(float(v), fam)] for t, v in zip(times_of(np.asarray(x)[ok]), y[ok])]
        else:
            x = np.asarray(x, dtype=float)
            ok = ~(np.isnan(x) | np.isnan(y))
            pts = [[micro(a), micro(b)] for a, b in zip(x[ok], y[ok])]
        curves.append({"name": name, "pts": pts})
    marks = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            face = c.get_facecolor()
            for k, (lon, lat) in enumerate(np.ma.getdata(c.get_offsets()).tolist()):
                size = c.get_sizes()
                marks.append({"name": str(c.get_label()), "lat": num(lat), "lon": num(lon), "colour": hexes.get(to_hex(face[k % len(face)]), "?"),
                              "size": int(min(2e9, round(float(size[k % len(size)]) * 1000)))})
    return {"title": ax.get_title(), "label": label, "legend": legend, "curves": curves, "marks": marks}


def figures(fam="obs3"):
    import matplotlib.pyplot as plt

    return [axes_of(ax, fam) for n in plt.get_fignums() for ax in plt.figure(n).axes]


def geodetic(rec):
    if rec.get("xyz"):
        x, y, z = rec["xyz"]
    else:
        x, y, z = (float(np.ravel(a)[0]) for a in gr.keplerian2ecef(ops_orbit.hand(rec)))
    lat, lon, _ = ecef2geodetic(x, y, z)
    return [micro(lon), micro(lat)]


def show_of(name, argv, fam):
    """a program in this child, and the figures it leaves"""
    import matplotlib.pyplot as plt
    import ops_store

    plt.close("all")
    keep = ops_store.forked
    ops_store.forked = lambda fn, *a: fn(*a)   # this is a child already
    try:
        r = program(name, argv)
    finally:
        ops_store.forked = keep
    return r | {"figs": figures(fam)}


def plot(job) -> dict:
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = str(SCR)
    import matplotlib.pyplot as plt
    import georinex.plots as grp
    import georinex.plots_geo as grg

    plt.close("all")
    d = Path(tempfile.mkdtemp(dir=SCR))
    try:
        if job["k"] == "map":
            return receivers(job, d, grg)
        parts, refs, titles = [], [], []
        fam = next((p["fam"] for p in job["parts"] if p["fam"].startswith("obs")), "obs3")
        via = job["via"]
        try:
            for p in job["parts"]:
                text = p["text"] if "text" in p else R.render(p["doc"])
                fn = d / p["name"]
                fn.write_text(text, encoding="latin-1")
                kw = kwargs(p["o"], p["call"], p["fam"])
                titles.append("" if via == "stream" else fn.name)
                refs.append([geodetic(x) for x in p.get("hand", [])])
                if via == "stream":
                    parts.append(gr.load(io.StringIO(text), **kw))
                elif via in ("nc", "ncpart"):
                    gr.load(fn, d / "out.nc", **kw)
                else:
                    parts.append(gr.load(fn, **kw))
            if via == "nc":
                parts = [gr.load(d / "out.nc")]
            elif via == "ncpart":   # each part of the converted file by its own call
                parts = [gr.rinexobs(d / "out.nc") if p["fam"].startswith("obs") else gr.rinexnav(d / "out.nc") for p in job["parts"]]
        except Exception as e:
            return {"skip": f"{type(e).__name__}: {e}"[:300]}
        data = parts[0] if len(parts) == 1 else tuple(parts)
        if via == "cli":
            p = job["parts"][0]
            r = forked(show_of, "read", [str(d / p["name"]), "-p", *argv_of(p["o"], p["call"])], fam)
            if r.get("machinery"):
                return r
            return {"ok": r["code"] == 0, "figs": r["figs"], "refs": refs, "titles": titles, "msg": r["out"][-300:]}
        try:
            before = [x.copy(deep=True) for x in parts if hasattr(x, "copy") and not isinstance(x, dict)]
            grp.timeseries(data)
            same = all(a.identical(b) for a, b in zip([x for x in parts if not isinstance(x, dict)], before))
            return {"ok": True, "figs": figures(fam), "refs": refs, "titles": titles, "msg": "", "same": same}
        except Exception as e:
            return {"ok": False, "figs": [], "refs": refs, "titles": titles, "msg": f"{type(e).__name__}: {e}"[:300]}
    finally:
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)


def receivers(job, d, grg):
    if job["via"] == "cli":
        geo = []
        try:
            for f in job["files"]:
                geo.append(ops_tools.make_file(f, d))
        except Exception as e:
            return {"skip": str(e)}
        if any(m is None for m in geo):
            return {"skip": "not made"}
        r = forked(show_of, "loc", [str(d), "-glob", *job["globs"]], "obs3")
        if r.get("machinery"):
            return r
        return {"ok": r["code"] == 0, "figs": r["figs"], "geo": [[m[1], m[2]] for m in geo], "msg": r["out"][-300:]}
    rows = job["rows"]
    t = pandas.DataFrame({"lat": [float(x[1]) for x in rows], "lon": [float(x[2]) for x in rows], "interval": [np.nan if x[3] < 0 else x[3] / 1000 for x in rows]},
                         index=[x[0] for x in rows])
    try:
        before = t.copy()
        grg.receiver_locations(t)
        return {"ok": True, "figs": figures(), "same": bool(before.equals(t)), "msg": ""}
    except Exception as e:
        return {"ok": False, "figs": [], "msg": f"{type(e).__name__}: {e}"[:300]}
