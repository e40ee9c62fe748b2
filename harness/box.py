"""Packing text the ways files come packed; no code of the library is used here."""
from __future__ import annotations
import bz2, gzip, io, zipfile

SUFFIX = {"none": "", "gz": ".gz", "gzm": ".gz", "bz2": ".bz2", "bzm": ".bz2", "Z": ".Z", "zip": ".zip", "zips": ".zip", "zipd": ".zip",
          "gzn": ".gz", "bz1": ".bz2", "zipn": ".zip", "zipb": ".zip"}
PLAIN = {"outer": "none", "crx": False, "nl": "lf", "chars": False, "suffix": "told"}


def hatanaka(text: str):
    """Compact RINEX of text, or None if the packer does not give the text back (packing needs tidy files)"""
    from hatanaka import rnx2crx, crx2rnx
    try:
        c = rnx2crx(text)
        back = crx2rnx(c)
    except Exception:
        return None
    if [x.rstrip() for x in back.splitlines()] != [x.rstrip() for x in text.splitlines()]:
        return None
    return c


def pack(text: str, p: dict, encoding="latin-1") -> bytes | None:
    if p["crx"]:
        text = hatanaka(text)
        if text is None:
            return None
    if p["chars"]:
        text = foreign(text)
    if p["nl"] == "crlf":
        text = text.replace("\n", "\r\n")
    b = text.encode(encoding)
    o = p["outer"]
    h = len(b) // 2
    if o == "none":
        return b
    if o == "gz":
        return gzip.compress(b, mtime=0)
    if o == "gzm":
        return gzip.compress(b[:h], mtime=0) + gzip.compress(b[h:], mtime=0)
    if o == "gzn":   # the name of the original file in the gzip header, stored blocks
        g = io.BytesIO()
        with gzip.GzipFile("original.rnx", "wb", 0, g, mtime=1234567890) as z:
            z.write(b)
        return g.getvalue()
    if o == "bz1":
        return bz2.compress(b, 1)
    if o == "bz2":
        return bz2.compress(b)
    if o == "bzm":
        return bz2.compress(b[:h]) + bz2.compress(b[h:])
    if o == "Z":
        import ncompress
        return ncompress.compress(b)
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", {"zipn": zipfile.ZIP_STORED, "zipb": zipfile.ZIP_BZIP2}.get(o, zipfile.ZIP_DEFLATED)) as z:
        if o == "zipd":
            z.writestr(zipfile.ZipInfo("data/"), "")
        z.writestr("data/first.rnx" if o == "zipd" else "z_first.rnx", b)
        if o == "zips":
            z.writestr("a_second.rnx", "     3.04           N: GNSS NAV DATA    M                   RINEX VERSION / TYPE\n")
            z.writestr("readme.txt", "not this one")
    return buf.getvalue()


def foreign(text: str) -> str:
    """characters outside ASCII in comment lines"""
    out = []
    for ln in text.split("\n"):
        if ln[60:67] == "COMMENT":
            ln = "Stationsh\u00f6he \u00fcber NN \u00b0\u00e9" + ln[22:]
        out.append(ln)
    return "\n".join(out)


def name(stem: str, ext: str, p: dict) -> str:
    """file name for a packing"""
    if p["suffix"] == "untold":
        return stem + ".dat"
    if p["suffix"] == "plain":   # as the file inside would be called
        return stem + ext
    s = ext + SUFFIX[p["outer"]]
    return stem + (s.upper() if p["suffix"] == "upper" and p["outer"] != "none" else s)
