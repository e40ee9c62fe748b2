"""Histories of conversions, in a child process of their own; what every file holds is recorded after each step."""
from __future__ import annotations
import io, os, random, runpy, shutil, sys, tempfile
from datetime import timedelta
from pathlib import Path

import numpy as np
import xarray
import georinex as gr

import box, ops
from ops import SCR, kwargs, ptimes, pytime
from ops_session import forked, sha, token, text_of, EXT, DROPHDR

JUNK = {0: b"", 1: b"this is no NetCDF file\n" * 20, 2: b"CDF\x01\x00\x00", 3: b"\x89HDF\r\n\x1a\n" + b"\x00" * 64}


# %% input files
def spoiled(b: bytes, how: str, seed: int) -> bytes:
    r = random.Random(seed)
    n = len(b)
    if how == "half":
        return b[: max(1, n // 2)]
    if how == "tail":
        return b[: max(1, n - r.randrange(1, 12))]
    if how == "flip":
        b = bytearray(b)
        for _ in range(8):
            b[r.randrange(n // 3, n)] ^= 0xFF
        return bytes(b)
    if how == "magic":   # only the first bytes of a packed file
        return b[:4] + bytes(r.randrange(256) for _ in range(60))
    if how == "nul":
        return b[: n // 3] + b"\x00" * 100 + b[n // 3:]
    if how == "letters":   # letters in place of digits in the data
        k = b.find(b"END OF HEADER")
        return b[: k + 20] + b[k + 20:].replace(b"1", b"x")
    if how == "nohead":
        k = b.find(b"END OF HEADER")
        return b[: max(k, 90)]
    return b


def filebytes(f: dict) -> bytes | None:
    if "raw" in f:
        return f["raw"]
    b = box.pack(text_of(f), f["box"])
    if b is not None and f.get("spoil"):
        b = spoiled(b, f["spoil"], f.get("seed", 0))
    return b


# %% what is in the files
class Snap:
    def __init__(self, d: Path):
        self.d = d
        self.memo = {}
        self.tmp = d / ".look.nc"

    def look(self, b: bytes):
        """-> kind and groups of a file"""
        h = sha(b)
        if h in self.memo:
            return self.memo[h]
        import netCDF4
        self.tmp.write_bytes(b)
        kind, groups = "other", []
        try:
            with netCDF4.Dataset(self.tmp) as f:
                names = list(f.groups)
                if f.variables or f.dimensions or f.ncattrs():
                    names.append("/")
            kind = "nc"
        except OSError:
            names = []
        for g in names:
            try:
                with xarray.open_dataset(self.tmp, group=None if g == "/" else g) as ds:
                    groups.append([g, token(ds.load(), True)])
            except Exception as e:
                groups.append([g, "unreadable " + type(e).__name__])
        self.tmp.unlink()
        self.memo[h] = kind, groups
        return kind, groups

    def __call__(self) -> list:
        out = []
        for p in sorted(self.d.rglob("*")):
            rel = str(p.relative_to(self.d))
            if p.is_file():
                b = p.read_bytes()
                kind, groups = ("src", []) if not rel.endswith(".nc") else self.look(b)
                out.append([rel, sha(b), kind, groups])
            else:
                out.append([rel, "dir", "dir", []])
        return out


# %% programs
def argv_of(o, c, interval=True):
    a = []
    if o["use"]:
        a += ["-u", *o["use"]]
    if o["meas"]:
        a += ["-m", *o["meas"]]
    if o["tl"]:
        a += ["-t", *(pytime(t).isoformat() for t in o["tl"])]
    if o["ind"]:
        a += ["-useindicators"]
    if c.get("fast") is False:
        a += ["-strict"]
    if o["iv"] and interval:
        a += ["-interval", repr(o["iv"][0] + o["iv"][1] / 1e6)]
    return a


def program(name: str, argv: list[str]) -> dict:
    """python -m georinex.<name> argv, in a child"""
    def go():
        so = io.StringIO()
        sys.stdout = so
        sys.argv = ["georinex." + name, *argv]
        code = 0
        try:
            runpy.run_module("georinex." + name, run_name="__main__", alter_sys=True)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else int(e.code is not None)
        except BaseException as e:
            code = 1
            so.write(f"\n{type(e).__name__}: {e}")
        return {"code": code, "out": so.getvalue()}
    return forked(go)


def place(d: Path, f: dict) -> bool:
    """a file, a directory, or a symbolic link to one of them or to nothing; False: cannot be packed"""
    p = d / f["name"]
    link = f.get("link")
    real = p
    if link:
        t = d.parent / (d.name + " links")
        t.mkdir(exist_ok=True)
        real = t / (sha(f["name"].encode()) + "x")
        p.symlink_to(real)
    if f.get("dir"):
        if link != "dangling":
            real.mkdir()
        return True
    b = filebytes(f)
    if b is None:
        return False
    real.write_bytes(b)
    return True


# %% playing a history
def returned(x):
    return list(x.values()) if isinstance(x, dict) else [x]


def close(x):
    for y in returned(x):
        if isinstance(y, xarray.Dataset):
            y.close()


def given(d: Path, name: str, as_):
    """a path below d, the working directory and home, as it is passed"""
    return {"str": str(d / name), "tilde": "~/" + name, "rel": name, "relpath": Path(name), "dot": f"./in/../{name}"}.get(as_, d / name)


def play(job) -> dict:
    d = Path(tempfile.mkdtemp(dir=SCR))
    os.environ["HOME"] = str(d)
    os.chdir(d)
    try:
        return _play(job, d)
    finally:
        shutil.rmtree(d)


def _play(job, d: Path) -> dict:
    for x in job["dirs"]:
        (d / x).mkdir()
    for f in job["files"]:
        if not place(d / "in", f):
            return {"skip": True}
    snap = Snap(d)
    out = [{"files": snap()}]
    held = []
    for st in job["steps"]:
        ev = {"ok": True, "tok": "", "res": []}
        a = st["a"]
        if a in ("load", "batch"):
            o = job["opts"][st["o"]]
            kw = kwargs(o["o"], o["call"], st.get("fam", "obs2"))
            dst = st["out"]["name"]
            dst = None if st["out"]["t"] == "none" else given(d, dst, st.get("as"))
        try:
            if a == "load":
                src = given(d, "in/" + job["files"][st["s"]]["name"], st.get("as"))
                if st["via"] == "cli":
                    q = program("read", [str(src), *(["-o", str(dst)] if dst else []), *argv_of(o["o"], o["call"])])
                    if "machinery" in q:
                        return q
                    ev["ok"] = q["code"] == 0
                    ev["msg"] = q["out"][-200:]
                else:
                    fn = gr.load
                    if st["via"] == "special":
                        fn = gr.rinexobs if st["fam"].startswith("obs") else gr.rinexnav
                        kw = kw if st["fam"].startswith("obs") else {k: v for k, v in kw.items() if k in ("use", "tlim")}
                    if st.get("gr"):
                        kw["group"] = st["gr"]
                    if st["ow"] or st.get("ow0"):
                        kw["overwrite"] = st["ow"]
                    x = fn(src, dst, **kw)
                    ev["tok"] = token(x, True)
                    held += [(y, token(y, True)) for y in returned(x)]
            elif a == "batch":
                kw.pop("interval", None)
                if st["via"] == "cli":
                    q = program("rinex2hdf5", [str(d / "in"), st["pat"], *(["-o", str(dst)] if dst else []), *argv_of(o["o"], o["call"], False)])
                    if "machinery" in q:
                        return q
                    ev["ok"] = q["code"] == 0
                    ev["msg"] = q["out"][-200:]
                else:
                    gr.batch_convert(given(d, "in", st.get("as")), st["pat"], dst, **kw)
            elif a == "junk":
                b = JUNK[st["j"]]
                (d / st["f"]).write_bytes(b)
            elif a == "remove":
                (d / st["f"]).unlink(missing_ok=True)
            elif a == "read":
                src = given(d, st["f"], st.get("as"))
                if st["via"] == "info":
                    i = (gr.rinexheader if st.get("gr") else gr.rinexinfo)(src)
                    if not (d / st["f"]).is_file() or not i["rinextype"]:
                        raise ValueError
                    ev["res"] = sorted([k, ""] for k in i["rinextype"])
                else:
                    grp = {"group": st["gr"]} if st["via"] != "load" and st.get("gr") else {}
                    x = {"load": gr.load, "obs": gr.rinexobs, "nav": gr.rinexnav}[st["via"]](src, **grp)
                    ev["res"] = sorted([k, token(v, True)] for k, v in x.items()) if isinstance(x, dict) else [["", token(x, True)]]
                    held += [(y, token(y, True)) for y in returned(x)]
        except Exception as e:
            ev["ok"] = False
            ev["msg"] = f"{type(e).__name__}: {e}"[:200]
        ev["files"] = snap()
        # datasets returned earlier are still in use, and are what they were
        ev["held"] = all(token(y, True) == t for y, t in held)
        out.append(ev)
    return {"steps": out}


def alone(f, o, c, fam):
    d = Path(tempfile.mkdtemp(dir=SCR))
    try:
        b = filebytes(f)
        p = d / f["name"]
        p.write_bytes(b)
        try:
            return {"tok": token(gr.load(p, **kwargs(o, c, fam)), True)}
        except Exception as e:
            return {"tok": "!", "msg": f"{type(e).__name__}: {e}"[:200]}
    finally:
        shutil.rmtree(d)


def store(job) -> dict:
    r = forked(play, job)
    if "machinery" in r or "skip" in r:
        return r
    refs = []
    for s, o, iv in job["refs"]:
        f = job["files"][s]
        if f.get("dir"):
            q = {"tok": "!"}
        else:
            oo = job["opts"][o]
            q = forked(alone, f, oo["o"] if iv else dict(oo["o"], iv=[]), oo["call"], f["fam"])
        if "machinery" in q:
            return q
        refs.append({"s": s, "o": o, "iv": iv, **q})
    r["refs"] = refs
    return r


# %% time lister
def lister(job) -> dict:
    """the time lister on a directory or one of its files, and what gettime and rinexheader give for each file alone"""
    top = Path(tempfile.mkdtemp(dir=SCR))
    d = top / "in"
    d.mkdir()
    try:
        for f in job["files"]:
            if not place(d, f):
                return {"skip": True}
        out = []
        for st in job["steps"]:
            q = program("time", [str(d / st["f"]) if st["f"] else str(d), *(["-glob", *st["glob"]] if st["glob"] else [])])
            if "machinery" in q:
                return q
            out.append({"code": q["code"], "lines": parse_listing(q["out"], [f["name"] for f in job["files"]])})
        refs = []
        for f in job["files"]:
            q = {"times": [], "iv": "", "ok": False} if f.get("dir") else forked(times_alone, d / f["name"])
            if "machinery" in q:
                return q
            refs.append(q)
        return {"steps": out, "refs": refs}
    finally:
        shutil.rmtree(top)


def times_alone(p):
    try:
        t = ptimes(gr.gettime(p))
        h = gr.rinexheader(p)
        iv = h.get("interval")
        return {"ok": True, "times": t, "iv": "" if iv is None or iv != iv else f"{float(iv):.6f}"}
    except Exception:
        return {"ok": False, "times": [], "iv": ""}


def parse_listing(text, names):
    """lines 'name: start stop count [interval]' -> [name, start, stop, count, interval]"""
    out = []
    for ln in text.splitlines():
        nm = next((n for n in names if ln.startswith(n + ": ")), None)
        if nm is None:
            continue
        p = ln[len(nm) + 2:].split()
        try:
            a, b = ptimes(np.array([p[0], p[1]], dtype="datetime64[ns]"))
            out.append([nm, a, b, int(p[2]), f"{float(p[3]):.6f}" if len(p) > 3 else ""])
        except (ValueError, IndexError):
            out.append([nm, [0, 0], [0, 0], -1, ln])
    return out
