"""Reference model of text intake and character rendering."""
from .uni import category, lower

VERSION = "7.0"
TITLE = "ocreval Vendor-Independent Interface Version "
DIVIDER = "-" * 48
NL = 10
SP = 32
REJECT = ord("~")
MARK = ord("^")
GRAPHIC = frozenset("Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm "
                    "Sc Sk So Co".split())
COMBINING = frozenset(("Mn", "Mc", "Me"))
BLANKS = frozenset((9, 11, 12, 13, 0xA0))
SPACECATS = frozenset(("Zs", "Zl", "Zp"))


class Malformed(Exception):
    pass


def is_blank(cp):
    return cp in BLANKS or (cp != NL and category(cp) in SPACECATS)


def strip_header(data):
    """(found, rest)"""
    if not data.startswith(TITLE.encode()):
        return False, data
    pos = data.find(b"\n")
    if pos < 0:
        return True, b""
    pos += 1
    dividers = 0
    while dividers < 2:
        end = data.find(b"\n", pos)
        if end < 0:
            return True, b""
        if data[pos:end] == DIVIDER.encode():
            dividers += 1
        pos = end + 1
    return True, data[pos:]


def scan(data, markers=True):
    """UTF-8 and suspect markers -> [(code point, suspect)]"""
    try:
        s = data.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Malformed(str(e))
    out = []
    if not markers:
        return [(ord(c), False) for c in s]
    suspect = False
    for c in s:
        if c == "^":
            suspect = True
        else:
            out.append((ord(c), suspect))
            suspect = False
    return out


def normalize(chars):
    """Drop extraneous spacing; stated line by line."""
    out = []
    line = []

    def flush(nl):
        # words and the blank runs between them
        while line and line[0][0] == SP:
            line.pop(0)
        while line and line[-1][0] == SP:
            line.pop()
        if not line:
            return
        i = 0
        while i < len(line):
            cp, sus = line[i]
            if cp != SP:
                out.append((cp, sus))
                i += 1
            else:
                mark = False
                while line[i][0] == SP:
                    mark = mark or line[i][1]
                    i += 1
                out.append((SP, mark))
        if nl is not None:
            out.append(nl)

    for cp, sus in chars:
        if cp == NL:
            flush((cp, sus))
            line = []
        else:
            line.append((SP if is_blank(cp) else cp, sus))
    flush(None)
    return out


def read(data, header=True, markers=True, fold=False):
    """Text as every text-reading tool sees it: list of (cp, suspect)."""
    if header:
        _, data = strip_header(data)
    t = normalize(scan(data, markers))
    if fold:
        t = [(lower(c), s) for c, s in t]
    return t


def show(cp, suspect=False, fake_newline=False):
    m = "^" if suspect else ""
    if cp == NL:
        return m + ("<\\n>" if fake_newline else "\n")
    if cp == SP:
        return m + " "
    cat = category(cp)
    if cat in GRAPHIC:
        return m + ("\u25cc" if cat in COMBINING else "") + chr(cp)
    return m + ("<%02X>" % cp if cp < 256 else "<%04X>" % cp)
