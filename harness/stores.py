"""Checks of C15 (histories of conversions), C16 (batch conversion) and C21 (command-line programs)."""
from __future__ import annotations
import os, random
from collections import Counter

import core, docs, judge, scen
import box as B
import sessions as S
from pool import run_jobs

MODEL = {"A": "obs", "B": "obs", "C": "nav", "D": "fail", "E": "sp3"}
SPOIL = ["half", "tail", "flip", "magic", "nul", "letters", "nohead"]
RAWFAM = {"headonly2": "obs2", "headonly3": "obs3", "navhead": "nav2", "badlabel": "obs2", "badversion": "obs2", "v4": "obs3", "v5nav": "nav3", "badcrx": "obs2"}
V = "RINEX VERSION / TYPE"
RAW = {
    "empty": b"", "blank": b"\n" * 30, "binary": bytes(range(256)) * 4, "text": b"nothing to see here\n" * 9,
    "sp3b": b"#bP2020  1  1  0  0  0.00000000       1 ORBIT IGS14 HLM  IGS\n",
    "badversion": f"{'     x.yz           OBSERVATION DATA    G':<60}{V}\n{'':60}END OF HEADER\n".encode(),
    "badlabel": f"{'     2.11           OBSERVATION DATA    G':<60}{'RINEX VERSION / TIPE'}\n{'':60}END OF HEADER\n".encode(),
    "met": f"{'     2.11           METEOROLOGICAL DATA':<60}{V}\n{'':60}END OF HEADER\n".encode(),
    "clock": f"{'     3.00           C':<60}{V}\n{'':60}END OF HEADER\n".encode(),
    "v4": f"{'     4.00           OBSERVATION DATA    M':<60}{V}\n{'':60}END OF HEADER\n".encode(),
    "v5nav": f"{'     5.00           NAVIGATION DATA     M':<60}{V}\n{'':60}END OF HEADER\n".encode(),
    "headonly2": f"{'     2.11           OBSERVATION DATA    G':<60}{V}\n".encode(),
    "headonly3": f"{'     3.04           OBSERVATION DATA    G':<60}{V}\n".encode(),
    "navhead": f"{'     2.11           N: GPS NAV DATA':<60}{V}\n".encode(),
    "emptyzip": b"PK\x05\x06" + b"\x00" * 18, "badzip": b"PK\x03\x04" + b"\x00" * 40, "badz": b"\x1f\x9d\x90" + b"\xff" * 50,
    "badgz": b"\x1f\x8b\x08\x00" + b"\x07" * 40, "badbz": b"BZh9" + b"\x11" * 40,
    "badcrx": f"{'1.0                 COMPACT RINEX FORMAT':<60}{'CRINEX VERS   / TYPE'}\nrubbish\n".encode(),
    "notnc": b"CDF\x01 is not what this is",
}


def good(r, kind, i, **kw):
    """an input file that reads"""
    fam = {"obs": r.choice(["obs2", "obs3"]), "nav": r.choice(["nav2", "nav3"]), "sp3": "sp3"}[kind]
    c = S.doc_content(r, fam, tidy=True, **kw)
    if fam.startswith("obs"):
        c["doc"]["meta"]["interval"] = r.choice([None, None, 30.0, 15.0, 1.0, 0.5, 0.1, 0.0, 0.125, 10.007])
    box = dict(B.PLAIN)
    if r.random() < 0.45:
        box["outer"] = r.choice(["gz", "gzn", "bz2", "bz1", "zip", "zipn", "Z"])
    if fam.startswith("obs") and r.random() < 0.2:
        box["crx"] = True
    stem = r.choice(["site", "ABMF00GLP_R_", "x", "my file ", "a.b."]) + f"{i}"
    name = B.name(stem, S.EXT[fam], box) if r.random() < 0.85 else stem + r.choice(["", ".dat", ".NC", ".txt"])
    return {"fam": fam, "doc": c["doc"], "box": box, "name": name, "link": r.random() < 0.15}


def bad(r, i):
    """an input file that does not read, as a rule"""
    k = r.random()
    if k < 0.45:
        f = good(r, r.choice(["obs", "obs", "nav", "sp3"]), i)
        f["spoil"] = r.choice(SPOIL)
        f["seed"] = r.randrange(1000)
        return f
    if k < 0.95:
        kind = r.choice(sorted(RAW))
        name = f"bad{i}" + ("" if "zip" in kind or "gz" in kind else r.choice([".20o", ".rnx", ".20n", ".sp3", ".dat", ".crx", ".nc"]))
        return {"fam": RAWFAM.get(kind, "none"), "raw": RAW[kind], "name": name}
    return {"fam": "none", "dir": True, "name": f"folder{i}.20o", "link": r.choice([False, True, "dangling"])}   # no file behind it


def uniq(files):
    seen = set()
    for f in files:
        while f["name"] in seen:
            f["name"] = "q" + f["name"]
        seen.add(f["name"])
    return files


def option_table(r, files, cli=False):
    out = [{"o": core.opts(), "call": {}}]
    ds = [f["doc"] for f in files if "doc" in f]
    for _ in range(2):
        o, c = scen.any_opts(r, r.choice(ds)) if ds else ({}, {})
        c.pop("tlbox", None)
        if c.get("tl") == "strus":
            c["tl"] = "str"
        if len(out) == 2 and r.random() < 0.35:   # options that are refused
            t = r.choice([30000000, 0, 120])
            o, c = ({"tl": [[t + 60, 0], [t, 0]]}, {"tl": "str"}) if r.random() < 0.6 else ({"iv": [-30, 0]}, {})
        if r.random() < 0.4:
            c["fast"] = False
        out.append({"o": core.opts(**o), "call": c})
    return out


WAYS = ["path", "path", "path", "str", "str", "tilde", "rel", "relpath", "dot"]   # how a path is passed
OUTS = ["out", "out.nc", "o u t"]


def pattern(r, files, cover=None):
    """a pattern with one star, or a name"""
    names = [f["name"] for f in files]
    k = r.random()
    if k < 0.4:
        p = {"star": True, "pre": "", "suf": ""}
    elif k < 0.6:
        n = r.choice(names)
        p = {"star": True, "pre": n[: r.randint(1, min(4, len(n)))], "suf": ""}
    elif k < 0.85:
        n = r.choice(names)
        p = {"star": True, "pre": "", "suf": n[-r.randint(1, min(4, len(n))):]}
    elif k < 0.95:
        n = r.choice(names)
        p = {"star": True, "pre": n[:1], "suf": n[-1:]}
    else:
        p = {"star": False, "pre": r.choice(names), "suf": ""}
    if any(ch in p["pre"] + p["suf"] for ch in "*?[]"):
        return {"star": True, "pre": "", "suf": ""}
    return p


def glob_of(p):
    return p["pre"] + ("*" + p["suf"] if p["star"] else "")


# %% C15 (and C21): exported histories
def history_case(r, hist, cli=False):
    """concrete files and calls for an exported history"""
    src = {"A": good(r, "obs", "A"), "B": good(r, "obs", "B"), "C": good(r, "nav", "C"), "D": bad(r, "D"), "E": good(r, "sp3", "E")}
    if r.random() < 0.2:   # B another nav or obs of A's name is not possible in one directory
        src["A"] = good(r, "nav", "A")
        src["C"] = good(r, "obs", "C")
    need = {st["s"] for st in hist if st["a"] == "load"} | {s for st in hist if st["a"] == "batch" for s in st["ss"]}
    tag = "bt"
    three = any(st["a"] == "batch" and len(st["ss"]) == 3 for st in hist)
    if three:
        for s in "ADC":
            src[s]["name"] = tag + src[s]["name"]
    keys = [s for s in "ABCDE" if s in need]
    files = uniq([src[s] for s in keys])
    idx = {s: i for i, s in enumerate(keys)}
    opts = option_table(r, files, cli)
    outd = r.choice(OUTS)
    name = r.choice(["x.nc", "x.y.nc", "x y.nc"])
    aname = (src["A"]["name"] if "A" in idx else "A") + ".nc"
    where = {"dir": {"t": "dir", "name": outd}, "x": {"t": "file", "name": f"{outd}/{name}"}, "a": {"t": "file", "name": f"{outd}/{aname}"},
             "none": {"t": "none", "name": ""}, "other": {"t": "other", "name": r.choice([f"{outd}/x.dat", "nodir", f"{outd}/x", f"{outd}/x.nc.gz"])},
             "orphan": {"t": "orphan", "name": "no/x.nc"}}
    fn = {"out/x.nc": f"{outd}/{name}", "out/A.nc": f"{outd}/{aname}"}
    steps = []
    for st in hist:
        as_ = r.choice(WAYS)
        if st["a"] == "load":
            f = files[idx[st["s"]]]
            out = where[st["o"]]
            via = "load"
            if out["t"] == "file" and f["fam"] != "none" and f["fam"] != "sp3" and not f.get("spoil") and r.random() < 0.25:
                via = "special"
            ow = st["ow"]
            gr = st.get("gr", "") if out["t"] == "file" and f["fam"] not in ("none", "sp3") and not f.get("spoil") else ""
            if gr:
                via = "special"
            o = r.choice([0, 0, 1, 2] if not ow else [0, 1, 2, 2])
            tl = opts[o]["o"]["tl"]
            if tl and tl[1] < tl[0]:   # refused by load
                via, gr = "load", ""
            if cli and not ow:
                via, gr = "cli", ""
            steps.append({"a": "load", "s": idx[st["s"]], "fam": f["fam"], "out": out, "ow": ow, "ow0": r.random() < 0.3, "via": via,
                          "gr": gr, "o": o, "as": as_})
        elif st["a"] == "batch":
            p = {"star": True, "pre": "", "suf": ""}
            if len(st["ss"]) == 3:
                p["pre"] = tag
            steps.append({"a": "batch", "pat": p, "out": where["dir"], "o": r.choice([0, 0, 1, 2]), "via": "cli" if cli else "lib", "as": as_})
        elif st["a"] == "junk":
            steps.append({"a": "junk", "f": fn[st["f"]], "j": r.randrange(4)})
        elif st["a"] == "remove":
            steps.append({"a": "remove", "f": fn[st["f"]]})
        else:
            steps.append({"a": "read", "f": fn[st["f"]], "via": r.choice(["load", "load", "obs", "nav", "info"]), "gr": r.choice(["", "", "alt", "NAV", "OBS"]), "as": as_})
    for f in r.sample([fn["out/x.nc"], fn["out/A.nc"]] + [f"{outd}/{f['name']}.nc" for f in files], 2):
        steps.append({"a": "read", "f": f, "via": r.choice(["load", "load", "obs", "nav", "info"]), "gr": r.choice(["", "alt"]), "as": "path"})
    # the nameless group of SP3 data is not read back
    return finish({"dirs": ["in", outd], "files": files, "opts": opts, "steps": steps})


def finish(case):
    refs = set()
    for st in case["steps"]:
        if st["a"] == "load":
            refs.add((st["s"], st["o"], True))
        elif st["a"] == "batch":
            refs |= {(i, st["o"], False) for i in range(len(case["files"]))}
    case["refs"] = sorted(refs)
    return case


# %% C16
def batch_case(r, cli=False):
    n = r.choice([1, 2, 3, 4, 5, 6, 8])
    files = []
    for i in range(n):
        if r.random() < 0.45:
            files.append(bad(r, i))
        else:
            files.append(good(r, r.choice(["obs", "obs", "nav", "nav", "sp3"]), i))
    if not any("doc" in f and not f.get("spoil") for f in files):
        files.append(good(r, "obs", n))
    r.shuffle(files)
    files = uniq(files)
    opts = option_table(r, files, cli)
    outd = r.choice(OUTS)
    dirs = ["in", outd]
    steps = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        out = {"t": "dir", "name": outd} if k < 0.75 else {"t": "dir", "name": "in"} if k < 0.9 else {"t": "none", "name": ""} if k < 0.95 \
            else {"t": "other", "name": "nowhere"}
        # what an earlier run, or somebody else, left
        if r.random() < 0.4:
            f = r.choice(files)
            q = r.random()
            if q < 0.4:
                steps.append({"a": "junk", "f": f"{out['name'] if out['t'] == 'dir' else outd}/{f['name']}.nc", "j": r.randrange(4)})
            elif q < 0.8:
                steps.append({"a": "load", "s": files.index(f), "fam": f["fam"], "out": {"t": "dir", "name": outd}, "ow": r.random() < 0.3, "via": "load", "o": 0, "as": "path"})
            elif files[0] is not f and not f.get("dir"):   # the output of one file under the name of another
                steps.append({"a": "load", "s": files.index(f), "fam": f["fam"], "out": {"t": "file", "name": f"{outd}/{files[0]['name']}.nc"}, "ow": False, "via": "load", "o": 0, "as": "path"})
        steps.append({"a": "batch", "pat": pattern(r, files), "out": out, "o": r.choice([0, 0, 1, 1, 2, 2] if cli else [0, 0, 1, 2]), "via": "cli" if cli else "lib",
                      "as": r.choice(WAYS)})
        if r.random() < 0.3:
            f = r.choice(files)
            steps.append({"a": "read", "f": f"{outd}/{f['name']}.nc", "via": r.choice(["load", "info"]), "as": "path"})
    return finish({"dirs": dirs, "files": files, "opts": opts, "steps": steps})


# %% running
def job(c):
    return {"job": "store", "dirs": c["dirs"], "files": c["files"], "opts": c["opts"], "refs": c["refs"],
            "steps": [st | ({"pat": glob_of(st["pat"])} if "pat" in st else {}) for st in c["steps"]]}


NOOUT = {"t": "none", "name": ""}
NOPAT = {"star": True, "pre": "", "suf": ""}


def spec_case(c, rep):
    steps = []
    for st, ev in zip([{"a": "start"}] + c["steps"], rep["steps"]):
        steps.append({"a": st["a"], "s": st.get("s", 0), "o": st.get("o", 0), "out": st.get("out", NOOUT), "ow": st.get("ow", False), "gr": st.get("gr", ""),
                      "pat": st.get("pat", NOPAT), "f": st.get("f", ""), "via": st.get("via", ""), "ok": ev.get("ok", True),
                      "tok": ev.get("tok", ""), "held": ev.get("held", True), "res": ev.get("res", []), "files": ev["files"]})
    return {"id": c["id"], "files": [{"name": f["name"], "fam": f["fam"], "dir": bool(f.get("dir"))} for f in c["files"]],
            "refs": [{k: q[k] for k in ("s", "o", "iv", "tok")} for q in rep["refs"]], "steps": steps,
            "_w": 20 * sum(len(e["files"]) for e in rep["steps"])}


def run_cases(ctx, cases, budget):
    for i, c in enumerate(cases):
        c["id"] = i
    reps = run_jobs([job(c) for c in cases], timeout=120, budget=budget, scratch=ctx.scratch)
    done, tc = [], []
    for c, r in zip(cases, reps):
        if r is None:
            continue
        if r.get("machinery"):
            ctx.violation(["Unrecordable"], "conversion: " + r["machinery"].strip()[-300:], replay_of(c, 0))
            continue
        if r.get("timeout") or "died" in r:
            ctx.violation(["Timeout" if r.get("timeout") else "Died"], "conversion: did not finish", replay_of(c, 0))
            continue
        if r.get("skip"):
            ctx.count(left_out_by_packer=1)
            continue
        c["rep"] = r
        done.append(c)
        tc.append(spec_case(c, r))
    vs, st, tr = judge.validate("TraceStore", tc, os.path.join(ctx.scratch, "tlc"))
    ctx.states += st
    ctx.trans += tr
    return done, vs


def replay_of(c, step):
    import base64
    files = [dict(f, raw={"__b64__": base64.b64encode(f["raw"]).decode()}) if "raw" in f else f for f in c["files"]]
    return {"kind": "store", "case": {k: c[k] for k in ("dirs", "opts", "steps", "refs")} | {"files": files}, "step": step}


def report(ctx, done, vs):
    byid = {c["id"]: c for c in done}
    for v in vs:
        c = byid[v["id"]]
        st = ([{"a": "start"}] + c["steps"])[v["step"] - 1]
        ev = c["rep"]["steps"][v["step"] - 1]
        f = c["files"][st["s"]] if "s" in st else {}
        what = f"{st['a']} {st.get('via', '')}: {f.get('name', st.get('f', ''))} {f.get('fam', '')} {f.get('spoil', '')} out {st.get('out')} overwrite {st.get('ow')} " \
               f"options {c['opts'][st['o']]['o'] if 'o' in st else ''} pattern {st.get('pat')} -> ok {ev['ok']} {ev.get('msg', '')}"
        ctx.violation(v["clauses"], what, replay_of(c, v["step"]))


def c15_cases(ctx, n_pairs, n_deep, cli=False):
    pairs = sorted(ctx.emitted("MC_Store", "store_pairs"), key=str)
    deep = ctx.emitted("MC_Store", "store_deep", args=("-simulate", f"num={max(20, n_deep)}", "-depth", "10", "-seed", str(ctx.seed)))
    deep = sorted({str(h): h for h in deep}.values(), key=str)
    r = random.Random(f"{ctx.prop}/{ctx.seed}")
    r.shuffle(pairs)
    r.shuffle(deep)
    return [history_case(random.Random(f"{ctx.prop}/{ctx.seed}/{i}"), h, cli) for i, h in enumerate(pairs[:n_pairs] + deep[:n_deep])]


def run(ctx):
    t = ctx.thorough
    ctx.model(("MC_Store", "store_all" if t else "store_three"), ("MC_Store", "store_groups"))
    if ctx.prop == "C15":
        cases = c15_cases(ctx, *((4489, 4000) if t else (450, 220)))
    elif ctx.prop == "C16":
        cases = [batch_case(random.Random(f"C16/{ctx.seed}/{i}")) for i in range(6000 if t else 500)]
    else:
        cases = c15_cases(ctx, *((1500, 1200) if t else (150, 80)), cli=True)
        cases += [batch_case(random.Random(f"C21/{ctx.seed}/{i}"), cli=True) for i in range(1500 if t else 130)]
    done, vs = run_cases(ctx, cases, 2400 if t else 300)
    steps = [(c, st, ev) for c in done for st, ev in zip(c["steps"], c["rep"]["steps"][1:])]
    ctx.traces += len(steps)
    ctx.info["histories"] = len(done)
    ctx.info["steps"] = dict(Counter(st["a"] + ("" if ev["ok"] else " refused") for _, st, ev in steps))
    ctx.info["reads_that_fail_alone"] = sum(q["tok"] == "!" for c in done for q in c["rep"]["refs"])
    ctx.info["reads_alone"] = sum(len(c["rep"]["refs"]) for c in done)
    report(ctx, done, vs)
    if not ctx.violations and (not any(f[2] == "nc" and f[3] for c in done for e in c["rep"]["steps"] for f in e["files"])):
        raise judge.Machinery("nothing was ever converted")
    if ctx.prop == "C21":
        listing(ctx, 1200 if t else 120)
    for c in done[:: max(1, len(done) // 3)][:3]:
        ctx.samples.append({"steps": c["steps"][:4], "files": [e["files"] for e in c["rep"]["steps"][:2]]})


# %% time lister
def lister_case(r):
    n = r.choice([1, 2, 3, 4, 6])
    files = uniq([bad(r, i) if r.random() < 0.35 else good(r, r.choice(["obs", "obs", "nav", "sp3"]), i) for i in range(n)])
    for f in files:
        f["name"] = f["name"].replace(": ", "")
    steps = [{"f": "", "glob": []}]
    ps = [pattern(r, files) for _ in range(r.choice([1, 2]))]
    steps.append({"f": "", "glob": [glob_of(p) for p in ps], "pats": ps})
    for f in r.sample(files, min(2, len(files))):
        if not f.get("dir"):
            steps.append({"f": f["name"], "glob": []})
    return {"files": files, "steps": steps}


def run_lister(ctx, cases, budget=None):
    for i, c in enumerate(cases):
        c["id"] = i
    reps = run_jobs([{"job": "lister", "files": c["files"], "steps": c["steps"]} for c in cases], timeout=120, budget=budget, scratch=ctx.scratch)
    done, tc = [], []
    for c, r in zip(cases, reps):
        if r is None or r.get("skip"):
            continue
        if r.get("machinery"):
            ctx.violation(["Unrecordable"], "time lister: " + r["machinery"].strip()[-300:], replay_of(c | {"dirs": [], "opts": [], "refs": []}, -1))
            continue
        if r.get("timeout") or "died" in r:
            ctx.violation(["Timeout" if r.get("timeout") else "Died"], "time lister: did not finish", replay_of(c | {"dirs": [], "opts": [], "refs": []}, -1))
            continue
        c["rep"] = r
        done.append(c)
        tc.append({"id": c["id"], "files": [{"name": f["name"], "dir": bool(f.get("dir")), **q} for f, q in zip(c["files"], r["refs"])],
                   "steps": [{"f": st["f"], "pats": st.get("pats") or [NOPAT], "code": q["code"], "lines": q["lines"]} for st, q in zip(c["steps"], r["steps"])], "_w": 50 * len(c["steps"])})
    vs, st, tr = judge.validate("TraceLister", tc, os.path.join(ctx.scratch, "tlc"))
    ctx.states += st
    ctx.trans += tr
    return done, vs


def report_lister(ctx, done, vs):
    byid = {c["id"]: c for c in done}
    for v in vs:
        c = byid[v["id"]]
        st, ev = c["steps"][v["step"] - 1], c["rep"]["steps"][v["step"] - 1]
        ctx.violation(v["clauses"], f"time lister: {st} printed {ev} for {c['rep']['refs']}"[:600], {**replay_of(c | {"dirs": [], "opts": [], "refs": []}, v["step"]), "kind": "lister"})


def listing(ctx, n):
    done, vs = run_lister(ctx, [lister_case(random.Random(f"C21/list/{ctx.seed}/{i}")) for i in range(n)], 600 if ctx.thorough else 120)
    ctx.traces += sum(len(c["steps"]) for c in done)
    ctx.info["listings"] = sum(len(c["steps"]) for c in done)
    ctx.info["listed_lines"] = sum(len(q["lines"]) for c in done for q in c["rep"]["steps"])
    report_lister(ctx, done, vs)
    if not ctx.violations and (not ctx.info["listed_lines"]):
        raise judge.Machinery("the time lister listed nothing")


def replay(ctx, rp):
    import base64
    c = rp["replay"]["case"]
    for f in c["files"]:
        if "raw" in f:
            f["raw"] = base64.b64decode(f["raw"]["__b64__"])
    c["refs"] = [tuple(x) for x in c["refs"]]
    if rp["replay"]["kind"] == "lister":
        report_lister(ctx, *run_lister(ctx, [c]))
    else:
        report(ctx, *run_cases(ctx, [c], None))
    ctx.traces = 1
