"""Sessions of calls on files and streams, in a child process of their own."""
from __future__ import annotations
import hashlib, io, json, os, pickle, shutil, struct, tempfile
from pathlib import Path

import numpy as np
import xarray
import georinex as gr

import box, ops
import render as R
from ops import SCR, canon, kwargs, ptimes

EXT = {"obs2": ".20o", "obs3": ".rnx", "nav2": ".20n", "nav3": ".rnx", "sp3": ".sp3"}


def forked(fn, *a):
    """run in a child that has made no call yet"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            b = pickle.dumps(fn(*a))
            with os.fdopen(w, "wb") as f:
                f.write(b)
        except BaseException:
            import traceback
            code = 1
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps({"machinery": traceback.format_exc()}))
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else {"machinery": "child gave nothing"}


def sha(x) -> str:
    return hashlib.sha1(x if isinstance(x, bytes) else str(x).encode()).hexdigest()[:16]


# %% tokens
def num(a):
    a = np.asarray(a)
    if not a.size:
        return "none"
    if a.dtype.kind == "M":
        return json.dumps(ptimes(a))
    if a.dtype.kind in "fiu":
        return a.astype(float).tobytes()
    return json.dumps([str(x) for x in a.ravel().tolist()])


DROPHDR = {"filetype", "version", "systems", "RINEX VERSION / TYPE", "PGM / RUN BY / DATE", "COMMENT"}


def token(x, names=False) -> str:
    """what a result amounts to: order of satellites and variables does not matter"""
    h = hashlib.sha1()

    def put(*parts):
        for p in parts:
            h.update(p if isinstance(p, bytes) else str(p).encode())
            h.update(b"|")

    if isinstance(x, xarray.Dataset):
        ds = x
        if "sv" in ds.dims:
            ds = ds.isel(sv=np.argsort([str(s) for s in ds.sv.values], kind="stable"))
        for c in sorted(map(str, ds.coords)):
            put("c", c, num(ds[c].values))
        for v in sorted(map(str, ds.data_vars)):
            da = ds[v].transpose(*sorted(map(str, ds[v].dims)))
            put("v", v, ",".join(map(str, da.dims)), num(da.values))
        put(attrs(ds.attrs, names))
    elif isinstance(x, np.ndarray):
        put("a", num(x))
    elif isinstance(x, dict):
        put("d", json.dumps({str(k): canon(v) if not isinstance(v, dict) else {a: canon(b) for a, b in v.items()}
                             for k, v in x.items()}, sort_keys=True, default=str))
    else:
        put("o", type(x).__name__, repr(x))
    return h.hexdigest()[:16]


def attrs(a, names) -> str:
    return json.dumps({str(k): canon(v) for k, v in a.items()
                       if names or k not in ("fast_processing", "filename")}, sort_keys=True)


def locs(src):
    df = gr.geo.get_locations(src)
    return {"rows": len(df), "lat": [f"{x:.9f}" for x in df["lat"]], "lon": [f"{x:.9f}" for x in df["lon"]],
            "interval": [str(x) for x in df["interval"]]}


def docall(src, k, kw):
    """-> (result object or None, token, information)"""
    inf = ["", ""]
    try:
        op = k["op"]
        if op == "load":
            x = gr.load(src, **kw)
        elif op == "obs":
            x = gr.rinexobs(src, **kw)
        elif op == "nav":
            x = gr.rinexnav(src, **{a: b for a, b in kw.items() if a in ("use", "tlim")})
        elif op == "time":
            x = gr.gettime(src)
        elif op == "header":
            x = gr.rinexheader(src)
        elif op == "locs":
            import georinex.geo
            x = locs(src if not isinstance(src, str) else Path(src).expanduser())
        elif op == "info":
            x = gr.rinexinfo(src)
            inf = [str(x["version"]), str(x["rinextype"])]
    except Exception:
        return None, "!", inf
    if op == "header" and k.get("part"):
        return x, token({a: b for a, b in x.items() if a not in DROPHDR and not a.startswith("CRINEX")}), inf
    return x, token(x), inf


def reference(text, k, fam, ext):
    d = tempfile.mkdtemp(dir=SCR)
    try:
        fn = Path(d) / ("ref" + ext)
        fn.write_bytes(text.encode("latin-1", "replace"))
        _, t, inf = docall(fn, k, kwargs(k["o"], k["call"], fam))
        return {"tok": t, "inf": inf}
    finally:
        shutil.rmtree(d)


def text_of(c) -> str:
    return c["text"] if "text" in c else R.render(c["doc"])


def play(job) -> dict:
    d = Path(tempfile.mkdtemp(dir=SCR))
    os.environ["HOME"] = str(d)
    try:
        return _play(job, d)
    finally:
        shutil.rmtree(d)


def _play(job, d):
    texts = [text_of(c) for c in job["contents"]]
    fams = [c["fam"] for c in job["contents"]]
    calls = job["calls"]
    shared = [kwargs(k["o"], k["call"], fams[0]) for k in calls]     # the same option objects all along
    opts0 = [repr(x) for x in shared]
    disk, pool, held, out = {}, {}, [], []

    for st in job["steps"]:
        ev = {}
        a = st["a"]
        if a == "write":
            b = box.pack(texts[st["c"]], st["box"])
            if b is None:
                out.append({"skip": True})
                return {"steps": out}
            fn = d / st["f"]
            fn.write_bytes(b)
            if st.get("mtime"):
                os.utime(fn, (1500000000, 1500000000))
            disk[st["f"]] = sha(b)
            ev["name"], ev["bytes"] = st["f"], sha(b)
        elif a == "stream":
            t = texts[st["c"]]
            if st.get("box"):
                b = box.pack(t, st["box"])
                if b is None:
                    out.append({"skip": True})
                    return {"steps": out}
                t = b.decode("latin-1")
            s = io.StringIO(t) if not st.get("newline") else io.StringIO(t, newline=st["newline"])
            pool[st["s"]] = (s, s.getvalue())
        elif a == "seek":
            s, v = pool[st["s"]]
            s.seek({0: 0, 1: len(v) // 2, 2: len(v)}[st["p"]])
        elif a == "scribble":
            x = held[st["i"] - 1][0] if st["i"] <= len(held) else None
            scribble(x)
            if x is not None:
                held[st["i"] - 1] = (x, token(x, True))
        elif a == "call":
            k = calls[st["k"]]
            if st["t"] == "f":
                src = d / st["f"]
                if st.get("as") == "str":
                    src = str(src)
                elif st.get("as") == "tilde":
                    src = "~/" + st["f"]
            else:
                src = pool[st["s"]][0]
            x, t, inf = docall(src, k, shared[st["k"]])
            held.append((x, token(x, True) if x is not None else ""))
            ev["tok"], ev["inf"] = t, inf
        # the world afterwards
        ev["disk"] = {f: sha((d / f).read_bytes()) if (d / f).exists() else "gone" for f in sorted(set(disk) | {p.name for p in d.iterdir()})}
        ev["streams"] = all(s.getvalue() == v for s, v in pool.values() if not s.closed) and not any(s.closed for s, _ in pool.values())
        ev["held"] = [token(x, True) if x is not None else "" for x, _ in held]
        ev["was"] = [t for _, t in held]
        ev["opts"] = [repr(x) for x in shared] == opts0
        out.append(ev)
    return {"steps": out}


def scribble(x):
    """spoil a result in place"""
    if isinstance(x, xarray.Dataset):
        for v in x.data_vars:
            if x[v].dtype.kind == "f":
                x[v].values[...] = -1.0
        x.attrs["spoiled"] = 1
        for k in list(x.attrs):
            if isinstance(x.attrs[k], list):
                x.attrs[k].append(0)
    elif isinstance(x, dict):
        for v in x.values():
            if isinstance(v, list):
                v.append("spoiled")
            elif isinstance(v, dict):
                v.clear()
        x.clear()
    elif isinstance(x, np.ndarray) and x.size:
        x[:] = x[0]


def session(job) -> dict:
    """a session and, for every content and call in it, that call alone on a fresh copy"""
    r = forked(play, job)
    if "machinery" in r:
        return r
    refs = []
    for c, k in job["refs"]:
        t = job["contents"][c]
        q = forked(reference, text_of(t), job["calls"][k], job["contents"][0]["fam"], EXT.get(t["fam"], ".txt"))
        if "machinery" in q:
            return q
        refs.append({"c": c, "k": k, **q})
    r["refs"] = refs
    return r
