"""Unicode data for the reference models.

General categories and simple lower-casing come from the installed utf8proc
(the Unicode data the tools are defined to use), NFC from Python's own
unicodedata, word break classes from the data file shipped in /repo/libexec.
"""
import ctypes
import ctypes.util
import gzip
import os
import re
import unicodedata
from bisect import bisect_right
from functools import lru_cache

from .build import REPO

_u8 = None
for _n in ("libutf8proc.so.3", "libutf8proc.so.2", "libutf8proc.so"):
    try:
        _u8 = ctypes.CDLL(_n)
        break
    except OSError:
        pass

CATS = ("Cn Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So "
        "Zs Zl Zp Cc Cf Cs Co").split()

if _u8 is not None:
    _u8.utf8proc_category.argtypes = [ctypes.c_int32]
    _u8.utf8proc_category.restype = ctypes.c_int
    _u8.utf8proc_tolower.argtypes = [ctypes.c_int32]
    _u8.utf8proc_tolower.restype = ctypes.c_int32

    @lru_cache(None)
    def category(cp):
        return CATS[_u8.utf8proc_category(cp)]

    @lru_cache(None)
    def lower(cp):
        return _u8.utf8proc_tolower(cp)
else:                                           # pragma: no cover
    @lru_cache(None)
    def category(cp):
        return unicodedata.category(chr(cp))

    @lru_cache(None)
    def lower(cp):
        s = chr(cp).lower()
        return ord(s) if len(s) == 1 else (0x69 if cp == 0x130 else cp)


def nfc(s):
    return unicodedata.normalize("NFC", s)


_wb = None


def _load_wb():
    global _wb
    rows = []
    with gzip.open(os.path.join(REPO, "libexec", "WordBreakProperty.txt.gz"), "rt",
                   encoding="utf-8") as f:
        for line in f:
            m = re.match(r"([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*;\s*(\w+)", line)
            if m:
                a = int(m.group(1), 16)
                b = int(m.group(2), 16) if m.group(2) else a
                rows.append((a, b, m.group(3)))
    rows.sort()
    _wb = ([r[0] for r in rows], rows)


@lru_cache(None)
def wordbreak(cp):
    if _wb is None:
        _load_wb()
    i = bisect_right(_wb[0], cp) - 1
    if i >= 0:
        a, b, v = _wb[1][i]
        if a <= cp <= b:
            return v
    return "Other"


@lru_cache(None)
def wb_members(name):
    wordbreak(0)
    return tuple(cp for a, b, v in _wb[1] if v == name for cp in range(a, b + 1))


def wb_classes():
    wordbreak(0)
    return sorted({r[2] for r in _wb[1]})
