"""Calls in several threads at once, one line of the code under test at a time in a given order."""
from __future__ import annotations
import io, os, random, shutil, sys, tempfile, threading, time
from pathlib import Path

import georinex as gr

import box
from ops import SCR, kwargs
from ops_session import EXT, docall, forked, sha, text_of, token
from ops_store import Snap, close

ROOT = os.path.dirname(gr.__file__) + os.sep
FOREVER = 10**12


class Baton:
    """threads p = 0.. take as many steps as they are granted; a step is a line of the code under test"""

    def __init__(self, n):
        self.cv = threading.Condition()
        self.credit, self.waiting, self.done, self.seen = [0] * n, [False] * n, [False] * n, [0] * n

    def step(self, p):
        if self.credit[p] <= 0:
            with self.cv:
                self.waiting[p] = True
                self.cv.notify_all()
                while self.credit[p] <= 0:
                    self.cv.wait()
                self.waiting[p] = False
        self.credit[p] -= 1
        self.seen[p] += 1

    def grant(self, p, q):
        """let p take q steps; returns when it has, has ended or does not move (waits for another thread)"""
        with self.cv:
            if self.done[p]:
                return
            self.credit[p] += q
            self.waiting[p] = False
            self.cv.notify_all()
            last, since = self.seen[p], time.monotonic()
            while not (self.done[p] or (self.waiting[p] and self.credit[p] <= 0)):
                self.cv.wait(0.2)
                if self.seen[p] != last:
                    last, since = self.seen[p], time.monotonic()
                elif time.monotonic() - since > 3:
                    return

    def end(self, p):
        with self.cv:
            self.done[p] = True
            self.cv.notify_all()

    def tracer(self, p):
        def local(frame, event, arg):
            if event == "line":
                self.step(p)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        return trace


def sources(job, d):
    (d / "in").mkdir()
    fams = [c["fam"] for c in job["contents"]]
    names = []
    for i, c in enumerate(job["contents"]):
        b = box.pack(text_of(c), job["boxes"][i])
        if b is None:
            return None
        fn = d / "in" / f"c{i}{EXT.get(c['fam'], '.txt')}"
        fn.write_bytes(b)
        names.append(fn)
    return fams, names


def prepare(job, d, p, names, fams):
    """what thread p calls: () -> (result, token)"""
    pr = job["procs"][p]
    k = job["calls"][pr["k"]]
    kw = job["_kw"][pr["k"]]
    src = names[pr["c"]]
    if pr["as"] == "stream":
        src = io.StringIO(text_of(job["contents"][pr["c"]]))
    elif pr["as"] == "str":
        src = str(src)
    if k["op"] == "convert":
        out = d / f"out{p}"
        out.mkdir()

        def go():
            try:
                x = gr.load(src, out / "x.nc" if pr["file"] else out, **kw)
                t = token(x)
                close(x)
                return None, t
            except Exception:
                return None, "!"
    elif k["op"] == "batch":
        out = d / f"out{p}"
        out.mkdir()

        def go():
            try:
                gr.batch_convert(d / "in", "*", out, **{a: b for a, b in kw.items() if a != "interval"})
                return None, ""
            except Exception:
                return None, "!"
    else:
        def go():
            x, t, inf = docall(src, k, kw)
            return x, t + "".join(inf)
    return go


def outputs(d, p):
    """what thread p wrote"""
    snap = Snap(d)
    out = d / f"out{p}"
    return str([[f.name, snap.look(f.read_bytes())] for f in sorted(out.iterdir())] if out.is_dir() else [])


def files(d):
    return sorted([str(f.relative_to(d)), sha(f.read_bytes())] for f in d.rglob("*") if f.is_file())


def play(job) -> dict:
    d = Path(tempfile.mkdtemp(dir=SCR))
    os.environ["HOME"] = str(d)
    os.chdir(d)
    try:
        return _play(job, d)
    finally:
        shutil.rmtree(d)


def _play(job, d):
    got = sources(job, d)
    if got is None:
        return {"skip": True}
    fams, names = got
    job["_kw"] = [kwargs(k["o"], k["call"], fams[0]) for k in job["calls"]]
    opts0 = repr(job["_kw"])
    only = job.get("only")
    ps = range(len(job["procs"])) if only is None else [only]
    before = [x for x in files(d) if x[0].startswith("in")]
    goes = {p: prepare(job, d, p, names, fams) for p in ps}
    baton = Baton(len(job["procs"]))
    res = {}

    def body(p):
        sys.settrace(baton.tracer(p))
        try:
            res[p] = goes[p]()
        except BaseException as e:
            res[p] = (None, "!" + type(e).__name__)
        finally:
            sys.settrace(None)
            baton.end(p)

    th = {p: threading.Thread(target=body, args=(p,), daemon=True) for p in ps}
    for p in ps:
        th[p].start()
    steps = []
    began, ended = set(), set()

    def note(p):
        for q in ps:
            if baton.done[q] and q not in ended:
                if q not in began:
                    steps.append({"a": "begin", "p": q + 1})
                    began.add(q)
                ended.add(q)
                th[q].join()
                steps.append({"a": "end", "p": q + 1, "tok": res[q][1], "out": outputs(d, q)})

    if only is None:
        for p, q in job["order"]:
            if p in ended:
                continue
            steps.append({"a": "work" if p in began else "begin", "p": p + 1})
            began.add(p)
            baton.grant(p, q)
            note(p)
    limit = time.monotonic() + 60
    while len(ended) < len(ps) and time.monotonic() < limit:
        for p in ps:
            if p not in ended:
                steps.append({"a": "work" if p in began else "begin", "p": p + 1})
                began.add(p)
                baton.grant(p, FOREVER)
                note(p)
    was = [res[p][1] if p in res else "?" for p in ps]
    held = []
    for p in ps:
        x, t = res.get(p, (None, "?"))
        k = job["calls"][job["procs"][p]["k"]]
        held.append(t if x is None else (token(x) + t[16:]))
    steps.append({"a": "finish", "held": held, "was": was, "opts": repr(job["_kw"]) == opts0, "before": [str(x) for x in before],
                  "after": [str(x) for x in files(d) if x[0].startswith("in")], "outs": [outputs(d, p) for p in ps],
                  "names": sorted(str(f.relative_to(d)) for f in d.rglob("*") if f.name != ".look.nc")})
    return {"steps": steps, "seen": baton.seen}


def threads(job) -> dict:
    alone, seen = [], []
    for p in range(len(job["procs"])):
        q = forked(play, job | {"only": p})
        if "machinery" in q or "skip" in q:
            return q
        e = next(s for s in q["steps"] if s["a"] == "end")
        alone.append({"tok": e["tok"], "out": e["out"], "names": q["steps"][-1]["names"]})
        seen.append(q["seen"][p])
    # the i-th action of a thread is the i-th part of its steps
    r = random.Random(job["seed"])
    cuts = {}
    for p, n in enumerate(seen):
        m = job["hist"].count(p + 1)
        pts = sorted(r.randrange(n + 1) for _ in range(m - 1)) if not job["fine"] else sorted(r.sample(range(max(1, n - 40), n + m), m - 1)) if job["fine"] == "late" else sorted(r.randrange(min(n, 60) + 1) for _ in range(m - 1))
        cuts[p] = [b - a for a, b in zip([0, *pts], [*pts, n])]
    order = []
    for x in job["hist"]:
        order.append((x - 1, cuts[x - 1].pop(0)))
    r = forked(play, job | {"order": order})
    if "machinery" in r or "skip" in r:
        return r
    return r | {"alone": alone, "lines": seen}
