"""Worker side of the location table, file finding and time conversion."""
from __future__ import annotations
import io, os, shutil, tempfile
from datetime import datetime
from pathlib import Path

import numpy as np
import xarray
import georinex as gr
from georinex.geo import get_locations
from pymap3d import ecef2geodetic

import ops
from ops_head import num, t_of
from ops_store import JUNK, filebytes
from ops_session import text_of

SCR = ops.SCR


def make_file(f, d: Path):
    """-> (argument, geo, interval) ; None: could not be made"""
    p = d / f["sub"] / f["name"]
    p.parent.mkdir(parents=True, exist_ok=True)
    k = f["kind"]
    geo, iv = ["", ""], "nan"
    if f.get("pos"):
        geo = [num(x) for x in ecef2geodetic(*f["pos"])[:2]]
    if k == "dir":
        p.mkdir()
    elif k == "dangling":
        p.symlink_to(d / "nowhere.20o")
    elif k == "linkdir":
        (d / "elsewhere").mkdir(exist_ok=True)
        p.symlink_to(d / "elsewhere")
    elif k == "fifo":
        os.mkfifo(p)
    elif k == "link":
        (d / "target").write_bytes(f["raw"])
        p.symlink_to(d / "target")
    elif k == "missing":
        pass
    elif k == "stream":
        return io.StringIO(text_of(f)), geo, iv
    elif k == "raw":
        p.write_bytes(f["raw"])
    elif k == "junknc":
        p.write_bytes(JUNK[f["seed"] % 4])
    elif k == "nc":
        for g in f["parts"]:
            src = d / ("src" + g["box"]["suffix_name"])
            src.write_bytes(filebytes(g))
            ds = gr.load(src, p)
            if g["fam"].startswith("obs") and "interval" in ds.attrs:
                iv = num(ds.attrs["interval"])
            src.unlink()
    else:
        b = filebytes(f)
        if b is None:
            return None
        if f.get("link"):
            t = d / "links" / p.name
            t.parent.mkdir(exist_ok=True)
            t.write_bytes(b)
            p.symlink_to(t)
        else:
            p.write_bytes(b)
    return p, geo, iv


def tools(job) -> dict:
    d = Path(tempfile.mkdtemp(dir=SCR))
    try:
        made = []
        for f in job["files"]:
            try:
                m = make_file(f, d)
            except Exception:   # converted input that cannot be made: other checks tell
                m = None
            if m is None:
                return {"skip": True}
            made.append(m)
        out = []
        for st in job["steps"]:
            try:
                if st["a"] == "table":
                    args = [made[i][0] for i in st["ids"]]
                    if len(args) == 1 and st["bare"]:
                        args = args[0]
                    elif st["as"] == "tuple":
                        args = tuple(args)
                    t = get_locations(args)
                    rows = [[str(i), *(num(x) for x in r)] for i, r in zip(t.index, t[["lat", "lon", "interval"]].values.tolist())]
                    out.append({"ok": True, "rows": rows})
                elif st["a"] == "find":
                    path = d / st["sub"] / st["of"] if st["of"] else d / st["sub"]
                    g = gr.globber(str(path) if st["as"] == "str" else path, st["globs"][0] if st["bare"] else st["globs"])
                    out.append({"ok": True, "found": [q.name if isinstance(q, Path) and q.parent == d / st["sub"] else "?" + str(q) for q in g]})
                else:
                    a = np.array([np.datetime64("2020-01-01", "us") + np.timedelta64(s, "s") + np.timedelta64(u, "us") for s, u in st["times"]], dtype=f"datetime64[{st['unit']}]")
                    if st["shape"] == "0d":
                        da = xarray.DataArray(a[0])
                    elif st["shape"] == "coord":
                        da = xarray.Dataset(coords={"time": a})["time"]
                    elif st["shape"] == "pick":
                        da = xarray.Dataset(coords={"time": a})["time"][0]
                    elif st["shape"] == "2d":
                        da = xarray.DataArray(np.stack([a, a]), dims=("x", "time"))
                    else:
                        da = xarray.DataArray(a, dims=("time",))
                    r = gr.to_datetime(da)
                    if isinstance(r, np.ndarray):
                        r = r.ravel().tolist()
                    else:
                        r = [r]
                    out.append({"ok": True, "got": [t_of(t) if type(t) is datetime and t.tzinfo is None else [0, -1] for t in r]})
            except Exception as e:
                out.append({"ok": False, "rows": [], "found": [], "got": [], "msg": f"{type(e).__name__}: {e}"[:200]})
        return {"geo": [[m[1], m[2]] for m in made], "steps": out}
    finally:
        shutil.rmtree(d, ignore_errors=True)
