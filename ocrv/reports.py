"""Reference models of the three kinds of reports."""
from .text import REJECT, show
from .sync import REJECT as _R

ACC_TITLE = "ocreval Accuracy Report Version 7.0\n"
ACC_DIV = "-" * 35 + "\n"
WAC_TITLE = "ocreval Word Accuracy Report Version 7.0\n"
WAC_DIV = "-" * 40 + "\n"
EDO_TITLE = "ocreval Edit Operation Report Version 7.0\n"
EDO_DIV = "-" * 41 + "\n"

# (first, last, class): the documented ranges of the character classes.
RANGES = []
for _line in """
0 0 Unassigned
0 8 ASCII Control Codes
9 D ASCII Spacing Characters
E 1F ASCII Control Codes
20 20 ASCII Spacing Characters
21 2F ASCII Special Symbols
30 39 ASCII Digits
3A 40 ASCII Special Symbols
41 5A ASCII Uppercase Letters
5B 60 ASCII Special Symbols
61 7A ASCII Lowercase Letters
7B 7E ASCII Special Symbols
7F 7F ASCII Control Codes
80 9F Latin1 Control Codes
A0 A0 Latin1 Spacing Characters
A1 BF Latin1 Special Symbols
C0 D6 Latin1 Uppercase Letters
D7 D7 Latin1 Special Symbols
D8 DE Latin1 Uppercase Letters
DF F6 Latin1 Lowercase Letters
F7 F7 Latin1 Special Symbols
F8 FF Latin1 Lowercase Letters
100 17F Latin Extended-A
180 24F Latin Extended-B
250 2AF IPA Extensions
2B0 2FF Spacing Modifier Letters
300 36F Combining Diacritical Marks
370 3CF Basic Greek
3D0 3FF Greek Symbols and Coptic
400 4FF Cyrillic
530 58F Armenian
590 5CF Hebrew Extended-A
5D0 5EA Basic Hebrew
5EB 5FF Hebrew Extended-B
600 652 Basic Arabic
653 6FF Arabic Extended
900 97F Devanagari
980 9FF Bengali
A00 A7F Gurmukhi
A80 AFF Gujarati
B00 B7F Oriya
B80 BFF Tamil
C00 C7F Telugu
C80 CFF Kannada
D00 D7F Malayalam
E00 E7F Thai
E80 EFF Lao
10A0 10CF Georgian Extended
10D0 10FF Basic Georgian
1100 11FF Hanguljamo
1E00 1EFF Latin Extended Additional
1F00 1FFF Greek Extended
2000 206F General Punctuation
2070 209F Superscripts and Subscripts
20A0 20CF Currency Symbols
20D0 20FF Combining Diacritical Marks for Symbols
2100 214F Letterlike Symbols
2150 218F Number Forms
2190 21FF Arrows
2200 22FF Mathematical Operators
2300 23FF Miscellaneous Technical
2400 243F Control Pictures
2440 245F Optical Character Recognition
2460 24FF Enclosed Alphanumerics
2500 257F Box Drawing
2580 259F Block Elements
25A0 25FF Geometric Shapes
2600 26FF Miscellaneous Symbols
2700 27BF Dingbats
3000 303F CJK Symbols and Punctuation
3040 309F Hiragana
30A0 30FF Katakana
3100 312F Bopomofo
3130 318F Hangul Compatibility Jamo
3190 319F CJK Miscellaneous
3200 32FF Enclosed CJK Letters and Months
3300 33FF CJK Compatibility
3400 3D2D Hangul
3D2E 44B7 Hangul Supplementary-A
44B8 4DFF Hangul Supplementary-B
4E00 9FFF CJK Unified Ideographs
E000 F8FF Private Use Area
F900 FAFF CJK Compatibility Ideographs
FB00 FB4F Alphabetic Presentation Forms
FB50 FDFF Arabic Presentation Forms-A
FE20 FE2F Combining Half Marks
FE30 FE4F CJK Compatibility Forms
FE50 FE6F Small Form Variants
FE70 FEFE Arabic Presentation Forms-B
FF00 FFEF Halfwidth and Fullwidth Forms
FFF0 FFFD Specials
""".strip().split("\n"):
    _a, _b, _c = _line.split(" ", 2)
    RANGES.append((int(_a, 16), int(_b, 16), _c))
CLASS_NAMES = []
for _r in RANGES:
    if _r[2] not in CLASS_NAMES:
        CLASS_NAMES.append(_r[2])
_CLASS = {}
for _a, _b, _c in RANGES:
    for _k in range(_a, _b + 1):
        _CLASS[_k] = _c


def char_class(cp):
    return _CLASS.get(cp, "Unassigned")


def pct(num, den):
    return "  ------" if den == 0 else "%8.2f" % (100.0 * num / den)


class Acc:
    """Contents of an accuracy report."""

    def __init__(self):
        self.characters = self.errors = 0
        self.rejects = self.suspects = self.false_marks = 0
        self.marked = [0, 0, 0, 0]
        self.unmarked = [0, 0, 0, 0]
        self.total = [0, 0, 0, 0]
        self.conf = {}          # "{..}-{..}" -> [errors, marked]
        self.chars = {}         # code point -> [count, missed]

    def add(self, o):
        self.characters += o.characters
        self.errors += o.errors
        self.rejects += o.rejects
        self.suspects += o.suspects
        self.false_marks += o.false_marks
        for a, b in ((self.marked, o.marked), (self.unmarked, o.unmarked),
                     (self.total, o.total)):
            for i in range(4):
                a[i] += b[i]
        for d, e in ((self.conf, o.conf), (self.chars, o.chars)):
            for k, v in e.items():
                w = d.setdefault(k, [0, 0])
                w[0] += v[0]
                w[1] += v[1]
        return self

    def classes(self):
        out = {}
        for cp, (c, m) in self.chars.items():
            w = out.setdefault(char_class(cp), [0, 0])
            w[0] += c
            w[1] += m
        return out

    def format(self):
        o = [ACC_TITLE, ACC_DIV]
        val = lambda v, s: o.append("%8d   %s\n" % (v, s))
        row = lambda c, m, s: o.append("%8d %8d %s   %s\n" % (c, m, pct(c - m, c), s))
        val(self.characters, "Characters")
        val(self.errors, "Errors")
        o.append(pct(self.characters - self.errors, self.characters) +
                 "%  Accuracy\n\n")
        val(self.rejects, "Reject Characters")
        val(self.suspects, "Suspect Markers")
        val(self.false_marks, "False Marks")
        o.append(pct(self.rejects + self.suspects, self.characters) +
                 "%  Characters Marked\n")
        o.append(pct(self.characters - self.unmarked[3], self.characters) +
                 "%  Accuracy After Correction\n")
        o.append("\n     Ins    Subst      Del   Errors\n")
        for ops, s in ((self.marked, "Marked"), (self.unmarked, "Unmarked"),
                       (self.total, "Total")):
            o.append("%8d %8d %8d %8d   %s\n" % (tuple(ops) + (s,)))
        o.append("\n   Count   Missed   %Right\n")
        cl = self.classes()
        tc = tm = 0
        for name in CLASS_NAMES:
            if name in cl:
                if cl[name][0] > 0:
                    row(cl[name][0], cl[name][1], name)
                tc += cl[name][0]
                tm += cl[name][1]
        row(tc, tm, "Total")
        if self.errors > 0:
            o.append("\n  Errors   Marked   Correct-Generated\n")
            for k, (e, m) in sorted(self.conf.items(), key=lambda x: (
                    -x[1][0], -x[1][1], x[0].encode("utf-8"))):
                o.append("%8d %8d   %s\n" % (e, m, k))
        if self.characters > 0:
            o.append("\n   Count   Missed   %Right\n")
            for cp in sorted(self.chars):
                c, m = self.chars[cp]
                if c > 0:
                    row(c, m, "{%s}" % show(cp, False, True))
        return "".join(o).encode("utf-8")


def conf_side(chars):
    out = ""
    size = 0
    for c in chars:
        s = show(c, False, True)
        n = len(s.encode("utf-8"))
        if size + n > 24:
            return out + "..."
        out += s
        size += n
    return out


def conf_key(a, b):
    return "{%s}-{%s}" % (conf_side(a), conf_side(b))


def acc_from_alignment(a, b, segs):
    """a, b: [(cp, suspect)]; segs as in sync.py."""
    r = Acc()
    for match, ((a0, a1), (b0, b1)) in segs:
        characters = wild = rej = sus = 0
        for i in range(a0, a1):
            cp = a[i][0]
            if cp == REJECT:
                wild += 1
            else:
                characters += 1
                w = r.chars.setdefault(cp, [0, 0])
                w[0] += 1
                w[1] += 0 if match else 1
        r.characters += characters
        for j in range(b0, b1):
            if b[j][0] == REJECT:
                rej += 1
            elif b[j][1]:
                sus += 1
        r.rejects += rej
        r.suspects += sus
        if match:
            r.false_marks += sus
            continue
        gen = max(0, b1 - b0 - wild)
        errors = max(characters, gen)
        if errors == 0:
            continue
        ops = [max(0, characters - gen), min(characters, gen),
               max(0, gen - characters), errors]
        marked = rej + sus > 0
        r.errors += errors
        for i in range(4):
            (r.marked if marked else r.unmarked)[i] += ops[i]
            r.total[i] += ops[i]
        w = r.conf.setdefault(conf_key([x[0] for x in a[a0:a1]],
                                       [x[0] for x in b[b0:b1]]), [0, 0])
        w[0] += errors
        w[1] += errors if marked else 0
    return r


class BadReport(Exception):
    pass


class _Lines:
    def __init__(self, data):
        s = data.decode("utf-8") if isinstance(data, bytes) else data
        if s and not s.endswith("\n"):
            raise BadReport("no newline at the end")
        self.l = s.split("\n")[:-1]
        self.i = 0

    def next(self):
        if self.i >= len(self.l):
            raise BadReport("report ends early")
        self.i += 1
        return self.l[self.i - 1]

    def peek(self):
        return self.l[self.i] if self.i < len(self.l) else None

    def expect(self, s):
        x = self.next()
        if x != s:
            raise BadReport("line %d is %r, not %r" % (self.i, x, s))

    def value(self, name):
        x = self.next()
        f = x.split(None, 1)
        if len(f) != 2 or f[1] != name or not _isint(f[0]):
            raise BadReport("line %d is %r, not a %s line" % (self.i, x, name))
        return int(f[0])


def _isint(s):
    return s.lstrip("-").isdigit()


def unshow(s):
    """Inverse of show(cp, False, True)."""
    if s == "<\\n>":
        return 10
    if len(s) == 1:
        return ord(s)
    if len(s) == 2 and s[0] == "\u25cc":
        return ord(s[1])
    if s.startswith("<") and s.endswith(">") and len(s) > 2:
        return int(s[1:-1], 16)
    raise BadReport("character %r" % s)


def cut(line, columns):
    """(numeric fields, text after them and three blanks)"""
    i = 0
    f = []
    for _ in range(columns):
        while i < len(line) and line[i] == " ":
            i += 1
        j = i
        while j < len(line) and line[j] != " ":
            j += 1
        f.append(line[i:j])
        i = j
    if line[i:i + 3] != "   ":
        raise BadReport("row %r" % line)
    return f, line[i + 3:]


def parse_acc(data):
    r = Acc()
    L = _Lines(data)
    L.expect(ACC_TITLE[:-1])
    L.expect(ACC_DIV[:-1])
    r.characters = L.value("Characters")
    r.errors = L.value("Errors")
    L.next()
    L.next()
    r.rejects = L.value("Reject Characters")
    r.suspects = L.value("Suspect Markers")
    r.false_marks = L.value("False Marks")
    L.next()
    L.next()
    L.expect("")
    L.next()
    for name, ops in (("Marked", r.marked), ("Unmarked", r.unmarked),
                      ("Total", r.total)):
        f, t = cut(L.next(), 4)
        if t != name:
            raise BadReport("operations line %r" % t)
        ops[:] = [int(x) for x in f]
    L.expect("")
    L.next()
    while True:
        x = L.next()
        f, t = cut(x, 3)
        if t == "Total":
            break
    if L.peek() is not None:
        L.expect("")
    if r.errors > 0:
        L.expect("  Errors   Marked   Correct-Generated")
        while L.peek():
            f, t = cut(L.next(), 2)
            if t in r.conf:
                raise BadReport("confusion %r twice" % t)
            r.conf[t] = [int(f[0]), int(f[1])]
        if L.peek() is not None:
            L.expect("")
    if r.characters > 0:
        L.expect("   Count   Missed   %Right")
        while L.peek():
            f, t = cut(L.next(), 3)
            if not (t.startswith("{") and t.endswith("}")):
                raise BadReport("character row %r" % t)
            cp = unshow(t[1:-1])
            if cp in r.chars:
                raise BadReport("character %r twice" % t)
            r.chars[cp] = [int(f[0]), int(f[1])]
    if L.peek() is not None:
        raise BadReport("more lines than expected: %r" % L.peek())
    return r


# ------------------------------------------------------------- word accuracy

MAXLEN, MAXOCC, MAXPHRASE = 50, 10, 8


class Wac:
    """Contents of a word accuracy report: [count, missed] pairs."""

    def __init__(self):
        self.total = [0, 0]
        self.stop_len = {}
        self.non_len = {}
        self.distinct = {}      # 1..10, 11 for more
        self.phrase = {}
        self.stop = {}          # word -> pair
        self.non = {}

    PARTS = ("stop_len", "non_len", "distinct", "phrase", "stop", "non")

    def add(self, o):
        self.total[0] += o.total[0]
        self.total[1] += o.total[1]
        for p in self.PARTS:
            d = getattr(self, p)
            for k, v in getattr(o, p).items():
                w = d.setdefault(k, [0, 0])
                w[0] += v[0]
                w[1] += v[1]
        return self

    def format(self):
        o = [WAC_TITLE, WAC_DIV]
        wac = lambda v: "%8d %8d %s   " % (v[0], v[1], pct(v[0] - v[1], v[0]))
        o.append("%8d   Words\n%8d   Misrecognized\n" % tuple(self.total))
        o.append(pct(self.total[0] - self.total[1], self.total[0]) + "%  Accuracy\n")

        def numbers(d, limit, title, excess, total):
            o.append("\n%s\n   Count   Missed   %%Right   %s\n" % (
                title, "Occurs" if excess else "Length"))
            for i in range(1, limit + 1):
                if d.get(i, [0])[0] > 0:
                    o.append(wac(d[i]) + "    %2d\n" % i)
            if excess and d.get(limit + 1, [0])[0] > 0:
                o.append(wac(d[limit + 1]) + "   >%2d\n" % limit)
            if total:
                o.append(wac([sum(v[0] for v in d.values()),
                              sum(v[1] for v in d.values())]) + " Total\n")

        def terms(d, title):
            o.append("\n%s\n   Count   Missed   %%Right   \n" % title)
            for k in sorted(d, key=lambda s: s.encode("utf-8")):
                o.append(wac(d[k]) + k + "\n")

        numbers(self.stop_len, MAXLEN, "Stopwords", False, True)
        numbers(self.non_len, MAXLEN, "Non-stopwords", False, True)
        numbers(self.distinct, MAXOCC, "Distinct Non-stopwords", True, True)
        if self.total[0] > 0:
            numbers(self.phrase, MAXPHRASE, "Phrases", False, False)
            if sum(v[0] for v in self.stop_len.values()) > 0:
                terms(self.stop, "Stopwords")
            if sum(v[0] for v in self.non_len.values()) > 0:
                terms(self.non, "Non-stopwords")
        return "".join(o).encode("utf-8")


def wac_from_words(words, recognized, stopwords):
    r = Wac()
    for w, ok in zip(words, recognized):
        d = r.stop if w in stopwords else r.non
        p = d.setdefault(w, [0, 0])
        p[0] += 1
        p[1] += 0 if ok else 1
    r.total = [len(words), sum(1 for x in recognized if not x)]
    for d, lens in ((r.stop, r.stop_len), (r.non, r.non_len)):
        for w, (c, m) in d.items():
            p = lens.setdefault(min(len(w), MAXLEN), [0, 0])
            p[0] += c
            p[1] += m
    for w, (c, m) in r.non.items():
        p = r.distinct.setdefault(min(c, MAXOCC + 1), [0, 0])
        p[0] += 1
        p[1] += 1 if c == m else 0
    for i in range(len(words)):
        ok = True
        for j in range(MAXPHRASE):
            if i + j >= len(words):
                break
            ok = ok and recognized[i + j]
            p = r.phrase.setdefault(j + 1, [0, 0])
            p[0] += 1
            p[1] += 0 if ok else 1
    return r


def parse_wac(data):
    r = Wac()
    L = _Lines(data)
    L.expect(WAC_TITLE[:-1])
    L.expect(WAC_DIV[:-1])
    r.total = [L.value("Words"), L.value("Misrecognized")]
    L.next()

    def numbers(title, kind, d, total):
        L.expect("")
        L.expect(title)
        L.expect("   Count   Missed   %Right   " + kind)
        while True:
            if not total and not L.peek():
                return [0, 0]
            x = L.next()
            if x.endswith("    Total"):
                f = x.split()
                if len(f) != 4:
                    raise BadReport("row %r" % x)
                return [int(f[0]), int(f[1])]
            f, t = cut(x, 3)
            k = 11 if t.startswith("   >") else int(t)
            d[k] = [int(f[0]), int(f[1])]

    def terms(title, d):
        L.expect("")
        L.expect(title)
        L.expect("   Count   Missed   %Right   ")
        while L.peek():
            f, t = cut(L.next(), 3)
            if t in d:
                raise BadReport("word %r twice" % t)
            d[t] = [int(f[0]), int(f[1])]

    s = numbers("Stopwords", "Length", r.stop_len, True)
    n = numbers("Non-stopwords", "Length", r.non_len, True)
    numbers("Distinct Non-stopwords", "Occurs", r.distinct, True)
    if r.total[0] > 0:
        numbers("Phrases", "Length", r.phrase, False)
        if s[0] > 0:
            terms("Stopwords", r.stop)
        if n[0] > 0:
            terms("Non-stopwords", r.non)
    if L.peek() is not None:
        raise BadReport("more lines than expected: %r" % L.peek())
    return r


# ------------------------------------------------------------- edit operations

class Edo:
    def __init__(self, ins=0, dele=0, moves=None):
        self.ins = ins
        self.dele = dele
        self.moves = dict(moves or {})      # length -> count

    def add(self, o):
        self.ins += o.ins
        self.dele += o.dele
        for k, v in o.moves.items():
            self.moves[k] = self.moves.get(k, 0) + v
        return self

    def format(self):
        n = sum(self.moves.values())
        o = [EDO_TITLE, EDO_DIV, "%8d   Insertions\n%8d   Deletions\n%8d   Moves\n" % (
            self.ins, self.dele, n)]
        if n > 0:
            o.append("\nMoves\n   Count   Length\n")
            for k in sorted(self.moves):
                if self.moves[k] > 0:
                    o.append("%8d %8d\n" % (self.moves[k], k))
        return "".join(o).encode()

    def cost(self, x):
        return self.ins + sum(c * min(k, x) for k, c in self.moves.items())


def parse_edo(data):
    L = _Lines(data)
    L.expect(EDO_TITLE[:-1])
    L.expect(EDO_DIV[:-1])
    r = Edo(L.value("Insertions"), L.value("Deletions"))
    n = L.value("Moves")
    if n > 0:
        L.expect("")
        L.expect("Moves")
        L.expect("   Count   Length")
        while L.peek():
            f = L.next().split()
            if len(f) != 2:
                raise BadReport("row %r" % f)
            r.moves[int(f[1])] = int(f[0])
    if sum(r.moves.values()) != n:
        raise BadReport("Moves is %d, the table adds up to %d" % (
            n, sum(r.moves.values())))
    if L.peek() is not None:
        raise BadReport("more lines than expected: %r" % L.peek())
    return r
