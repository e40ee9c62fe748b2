"""Bijections between small value numbers (used in the specification) and the text of numbers in files.

Numbers 0..9 stand for themselves (indicator digits, zero fields); value numbers start at 100.
"""
from __future__ import annotations
import math

BAD = 99  # a value that stands for nothing in the file


def obs_value(i: int) -> float:
    k = i % 6
    if k == 0:
        v = (2 * i + 1) / 1000
    elif k == 1:
        v = 20000000 + i + 0.123
    elif k == 2:
        v = -(1000 + i + 0.25)
    elif k == 3:
        v = -(100000000 + i + 0.5)
    elif k == 4:
        v = 9000000000 + i + 0.125
    else:
        v = -(2 * i + 1) / 1000
    return float(f"{v:.3f}")


def obs_text(i: int, style: int = 0) -> str:
    s = f"{obs_value(i) if i else 0:14.3f}"   # 0: written as zero
    assert len(s) == 14
    if style == 1:  # no zero before the decimal point
        t = s.replace(" 0.", "  .").replace("-0.", " -.")
        s = t if len(t) == 14 else s
    return s


def sp3_value(i: int) -> float:
    k = i % 4
    if k == 0:
        v = 1000 + i + 0.123456
    elif k == 1:
        v = -(100000 + i + 0.654321)
    elif k == 2:
        v = 900000 + i + 0.5
    else:
        v = -(i + 0.000001)
    return float(f"{v:.6f}")


SP3SPECIAL = {0: 0.0, 1: 999999.999999}   # marks of bad values, kept as written


def sp3_text(i: int) -> str:
    s = f"{SP3SPECIAL[i] if i in SP3SPECIAL else sp3_value(i):14.6f}"
    assert len(s) == 14
    return s


def nav_parts(i: int):
    mant = 1 + i * 1e-6
    exp = (i * 7) % 25 - 12
    return (-1 if i % 3 == 0 else 1), mant, exp


def nav_value(i: int) -> float:
    s, m, e = nav_parts(i)
    return s * m * 10.0**e


def nav_text(i: int, style: int = 0) -> str:
    """19 columns. style: 0 'd.ddddE+ee', 1 same with D, 2 '0.ddddD+ee', 3 '.ddddD+ee', 4 lower precision"""
    if i == 0:
        s, m, e = 1, 0.0, 0
    else:
        s, m, e = nav_parts(i)
    sign = "-" if s < 0 else " "
    if style in (2, 3):
        if m != 0:
            m, e = m / 10, e + 1
        t = f"{m:.12f}"
        if style == 3:
            t = t[1:]
        t = f"{sign}{t}D{e:+03d}"
    elif style == 4:
        t = f"{sign}{m:.7f}E{e:+03d}"
    else:
        t = f"{sign}{m:.12f}{'D' if style == 1 else 'E'}{e:+03d}"
    assert len(t) <= 19, t
    return t.rjust(19)


def decode(v: float, fam: str) -> int:
    """value number of a float read back (negative: scaled by 1000); BAD if there is none"""
    if fam == "sp3" and v == SP3SPECIAL[1]:
        return 1
    if v in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9):
        return int(v)
    try:
        if fam in ("nav2", "nav3"):
            for f in (1, 1000):
                a = abs(v) / f
                e = math.floor(math.log10(a) + 1e-12)
                i = round((a / 10.0**e - 1) * 1e6)
                if i >= 100 and abs(nav_value(i) * f / v - 1) < 1e-9:
                    return i if f == 1 else -i
            return BAD
        val = sp3_value if fam == "sp3" else obs_value
        for i in candidates(v, fam):
            if i >= 100 and abs(val(i) - v) <= 1e-12 * max(1, abs(v)):
                return i
    except (ValueError, OverflowError):
        pass
    return BAD


def candidates(v: float, fam: str):
    a = abs(v)
    if fam == "sp3":
        return (
            round(a - 1000.123456), round(a - 100000.654321), round(a - 900000.5), round(a - 0.000001),
        )
    return (
        round((a * 1000 - 1) / 2), round(a - 20000000.123), round(a - 1000.25),
        round(a - 100000000.5), round(a - 9000000000.125),
    )
