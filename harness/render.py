"""Text of an abstract file."""
from __future__ import annotations
import random
from codec import obs_text, nav_text, sp3_text


def hl(content: str, label: str) -> str:
    return f"{content:<60.60}{label:<20}"


def n2(v: int, z: bool) -> str:
    return f"{v:02d}" if z else f"{v:2d}"


def obs_header(doc) -> list[str]:
    h, m = doc["h"], doc["meta"]
    v = 2 if doc["fam"] == "obs2" else 3
    out = [hl(f"{m['version']:9.2f}           {'OBSERVATION DATA':<20}{h['sys']:<20}", "RINEX VERSION / TYPE")]
    out.append(hl(f"{'georinex spec':<20}{'verif':<20}{'20200101 000000 UTC':<20}", "PGM / RUN BY / DATE"))
    for c in m.get("comments", ["generated"]):
        out.append(hl(c, "COMMENT"))
    out.append(hl("SITE", "MARKER NAME"))
    out.append(hl(f"{'OBS':<20}{'AGENCY':<40}", "OBSERVER / AGENCY"))
    rec = m.get("rec", ("0001", "MODEL X1", "1.0"))
    if rec:
        out.append(hl(f"{rec[0]:<20}{rec[1]:<20}{rec[2]:<20}", "REC # / TYPE / VERS"))
    out.append(hl(f"{'0':<20}{'ANT':<20}", "ANT # / TYPE"))
    for p in [m["pos"]] * m.get("nposlines", 1) if m.get("pos") else []:
        out.append(hl("".join(f"{x:14.4f}" for x in p), "APPROX POSITION XYZ"))
    out.append(hl("        0.0000        0.0000        0.0000", "ANTENNA: DELTA H/E/N"))
    if v == 2:
        out.append(hl("     1     1", "WAVELENGTH FACT L1/2"))
        ty = h["types"]
        for i in range(0, len(ty), 9):
            if m.get("inter") and i:
                out.append(hl("between", "COMMENT"))
            out.append(hl((f"{len(ty):6d}" if i == 0 else " " * 6) + "".join(f"    {t}" for t in ty[i : i + 9]),
                          "# / TYPES OF OBSERV"))
    else:
        for c in h["codes"]:
            cs = c["c"]
            for i in range(0, len(cs), 13):
                if m.get("inter"):
                    out.append(hl("between", "COMMENT"))
                pre = f"{c['s']}  {len(cs):3d}" if i == 0 else " " * 6
                out.append(hl(pre + "".join(f" {x}" for x in cs[i : i + 13]), "SYS / # / OBS TYPES"))
    if m.get("interval") is not None:
        out.append(hl(f"{m['interval']:10.3f}", "INTERVAL"))
    for key, lab in (("t0", "TIME OF FIRST OBS"), ("t1", "TIME OF LAST OBS")):
        t = m.get(key)
        if t:
            out.append(hl(f"{t.year:6d}{t.month:6d}{t.day:6d}{t.hour:6d}{t.minute:6d}{t.second:5d}.{t.microsecond * 10:07d}"
                          f"     {m.get('tsys', ''):<3}", lab))
    for lab, c in m.get("extra", []):
        out.append(hl(c, lab))
    out.append(hl("", "END OF HEADER"))
    return [x.rstrip() for x in out] if m.get("hstrip") else out


# %% fields that cannot be read
STARS = ["{}", "{:.3}", "12a45.6", "1.2.3", "--", "?", "#.#", "12 4.5", "1,234.5", "12.3.", "x"]


def unreadable(n, st, k):
    """text of n columns that is no number"""
    t = STARS[(st["seed"] + k) % len(STARS)]
    t = t.format("*" * n) if "{" in t else t
    return (t.rjust(n) if (st["seed"] >> 3) + k & 1 else t.ljust(n - 1).rjust(n))[:n] if len(t) < n else t[:n]


def digit(x, st):
    return str(x) if x >= 0 else " " if x == -1 else "*x?+.-"[st["seed"] % 6]


def obs_cells(cs, st) -> str:
    o = ""
    for k, (v, l, s) in enumerate(cs):
        o += obs_text(v, st["num"]) if v >= 0 else " " * 14 if v == -1 else unreadable(14, st, k)
        o += digit(l, st) + digit(s, st)
    return o


def garble(s, ln):
    """an epoch or record line with the columns [a, b) overwritten"""
    if "dmg" not in ln:
        return s
    a, b, c = ln["dmg"]
    return s[:a] + (c * (b - a))[: b - a] + s[b:]


def svid(sv, st) -> str:
    return sv[0] + n2(sv[1], st["zero"])


def render_obs2(doc, rr) -> list[str]:
    st = doc["style"]
    out = []
    for ln in doc["lines"]:
        k = ln["k"]
        if k == "E":
            z = st["zdate"]
            date = f" {ln['y']:02d} {n2(ln['mo'], z)} {n2(ln['d'], z)} {n2(ln['h'], z)} {n2(ln['mi'], z)}{ln['s']:3d}.{ln['f']:07d}"
            if ln.get("blank"):
                date = " " * 26
            s = f"{date}  {ln['fl']}{ln['n']:3d}" + "".join(svid(v, st) for v in ln["svs"])
            if st["clock"] and ln["fl"] < 2:
                s = f"{s:<68}{0.123456789:12.9f}"
            out.append((garble(s, ln), None))
        elif k == "C":
            out.append((" " * 32 + "".join(svid(v, st) for v in ln["svs"]), None))
        elif k == "D":
            out.append((obs_cells(ln["c"], st), 80))
        elif k == "H":
            out.append((hl(*ln["txt"]), None))
        else:
            out.append((ln["txt"], None))
    return trim(out, st, rr)


def render_obs3(doc, rr) -> list[str]:
    st = doc["style"]
    out = []
    width = 16 * max(len(c["c"]) for c in doc["h"]["codes"]) + 3
    for ln in doc["lines"]:
        k = ln["k"]
        if k == "E":
            date = f"> {ln['y']:04d} {ln['mo']:02d} {ln['d']:02d} {ln['h']:02d} {ln['mi']:02d}{ln['s']:3d}.{ln['f']:07d}"
            if ln.get("blank"):
                date = ">" + " " * 28
            s = f"{date}  {ln['fl']}{ln['n']:3d}"
            if st["clock"] and ln["fl"] < 2 and ln.get("ck") != "":
                s = f"{s:<41}{ln.get('ck') or '0.123456789012':>15}"
            out.append((garble(s, ln), None))
        elif k == "S":
            out.append((svid(ln["sv"], st) + obs_cells(ln["c"], st), width if st["num"] else None))
        elif k == "H":
            out.append((hl(*ln["txt"]), None))
        else:
            out.append((ln["txt"], None))
    return trim(out, st, rr)


def trim(pairs, st, rr) -> list[str]:
    out = []
    for s, w in pairs:
        t = st["trim"]
        if t == "mixed":
            t = "trim" if rr.random() < 0.5 else "pad"
        if t == "trim":
            out.append(s.rstrip())
        else:
            out.append(s.ljust(w or 0))
    return out


NAVTYPE2 = {"G": "N: GPS NAV DATA", "R": "GLONASS NAV DATA", "E": "E: GALILEO NAV DATA"}


def nav_header(doc) -> list[str]:
    h, m = doc["h"], doc["meta"]
    if doc["fam"] == "nav2":
        out = [hl(f"{m['version']:9.2f}           {NAVTYPE2[h['sys']]:<20}{m.get('col40', ''):<20}", "RINEX VERSION / TYPE")]
    else:
        out = [hl(f"{m['version']:9.2f}           {'NAVIGATION DATA':<20}{h['sys']:<20}", "RINEX VERSION / TYPE")]
    out.append(hl(f"{'georinex spec':<20}{'verif':<20}{'20200101 000000 UTC':<20}", "PGM / RUN BY / DATE"))
    for c in m.get("comments", ["generated"]):
        out.append(hl(c, "COMMENT"))
    for lab, c in m.get("extra", []):
        out.append(hl(c, lab))
    out.append(hl("", "END OF HEADER"))
    return [x.rstrip() for x in out] if m.get("hstrip") else out


def navf(v, st):
    return nav_text(v, st["nav"]) if v >= 0 else " " * 19 if v == -1 else unreadable(19, st, len(str(st)))


def render_nav2(doc, rr) -> list[str]:
    st = doc["style"]
    out = []
    for ln in doc["lines"]:
        if ln["k"] == "E":
            z = st["zdate"]
            s = f"{n2(ln['prn'], st['zero'])} {ln['y']:02d} {n2(ln['mo'], z)} {n2(ln['d'], z)} {n2(ln['h'], z)} {n2(ln['mi'], z)}"
            s += f"{ln['s']:3d}.{ln['f'] // 1000000}"
            out.append((garble(s + "".join(navf(v, st) for v in ln["c"]), ln), None))
        elif ln["k"] == "D":
            full = len(ln["c"]) == 4
            out.append(("   " + "".join(navf(v, st) for v in ln["c"]), 80 if full else None))
        else:
            out.append((ln["txt"], None))
    return navtrim(out, st, rr)


def navtrim(pairs, st, rr):
    # blank fields stay (they are content of the record); only padding differs
    out = []
    for s, w in pairs:
        t = st["trim"]
        if t == "mixed":
            t = "trim" if rr.random() < 0.5 else "pad"
        out.append(s.ljust(w or 0) if t == "pad" else s)
    return out


def render_nav3(doc, rr) -> list[str]:
    st = doc["style"]
    out = []
    for ln in doc["lines"]:
        if ln["k"] == "E":
            s = f"{svid(ln['sv'], st)} {ln['y']:04d} {ln['mo']:02d} {ln['d']:02d} {ln['h']:02d} {ln['mi']:02d} {ln['s']:02d}"
            out.append((garble(s + "".join(navf(v, st) for v in ln["c"]), ln), None))
        elif ln["k"] == "D":
            full = len(ln["c"]) == 4
            out.append(("    " + "".join(navf(v, st) for v in ln["c"]), 80 if full else None))
        else:
            out.append((ln["txt"], None))
    return navtrim(out, st, rr)


def sp3id(sv) -> str:
    return sv[0] + n2(sv[1], sv[2] == "0")


def sp3_header(doc) -> list[str]:
    h, m = doc["h"], doc["meta"]
    t, v = m["t0"], h["ver"]
    ne = sum(1 for l in doc["lines"] if l["k"] == "T")
    out = [f"#{v}{h['pv']}{t['y']:4d} {t['mo']:2d} {t['d']:2d} {t['h']:2d} {t['mi']:2d} {t['s']:2d}.{t['f']:08d} {m.get('nep', ne):7d} {'ORBIT':<5} {m.get('cs', 'IGS14'):<5} {m.get('ot', 'HLM'):<3} {m.get('ag', ' IGS'):<4}"]
    out.append("## 2000 259200.00000000   900.00000000 58000 0.0000000000000")
    n = len(h["svs"])
    rows = max(5, (n + 16) // 17)
    for i in range(rows):
        pre = f"+ {n:4d}   " if i == 0 else "+        "
        ids = [sp3id(s) for s in h["svs"][i * 17 : i * 17 + 17]]
        out.append(pre + "".join(ids) + "  0" * (17 - len(ids)))
    for i in range(rows):
        out.append("++       " + "  5" * 17)
    out.append("%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc")
    out.append("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc")
    out.append("%f  1.2500000  1.025000000  0.00000000000  0.000000000000000")
    out.append("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000")
    out.append("%i    0    0    0    0      0      0      0      0         0")
    out.append("%i    0    0    0    0      0      0      0      0         0")
    for _ in range(m.get("ncom", 4)):
        out.append("/* comment line of this file")
    return out


def render_sp3(doc, rr) -> list[str]:
    out = []
    for ln in doc["lines"]:
        k = ln["k"]
        if k == "T":
            out.append((garble(f"*  {ln['y']:4d} {ln['mo']:2d} {ln['d']:2d} {ln['h']:2d} {ln['mi']:2d} {ln['s']:2d}.{ln['f']:08d}", ln), None))
        elif k in "PV":
            x = k + sp3id(ln["sv"]) + "".join(sp3_text(v) if v >= 0 else unreadable(14, doc["style"], i) for i, v in enumerate(ln["c"]))
            if doc["meta"].get("tail"):   # standard deviations and flags
                x += " 10  9 11 102" + (" EP  MP" if k == "P" and rr.random() < 0.5 else "")
            out.append((x, 80))
        elif k == "EOF":
            out.append(("EOF", None))
        else:
            out.append((ln["txt"], None))
    return navtrim(out, doc["style"], rr)


def render(doc, cut: int = -1, header: bool = True) -> str:
    """text of the header and of the first cut lines (-1: all)"""
    rr = random.Random(doc["style"]["seed"])
    head = {"obs2": obs_header, "obs3": obs_header, "nav2": nav_header, "nav3": nav_header, "sp3": sp3_header}[doc["fam"]](doc)
    if "head" in doc:   # header lines given, or another first line after blank ones
        head = doc["head"]
    if "first" in doc:
        head = doc["first"] + head[1:]
    body = {"obs2": render_obs2, "obs3": render_obs3, "nav2": render_nav2, "nav3": render_nav3, "sp3": render_sp3}[doc["fam"]](doc, rr)
    if cut >= 0:
        body = body[:cut]
    text = "\n".join(head + body)
    return text + ("\n" if doc["style"]["final_nl"] or cut >= 0 else "")
