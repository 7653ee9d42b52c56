"""Reference model of word segmentation: TR29 word boundary rules stated as
rules between positions (Unicode 8), with WB4 as in the tools: marks and format
characters are attached to the character before them, unless there is none on
their line."""
from . import text
from .uni import category, lower, nfc, wordbreak

NL = ("LF", "CR", "Newline")
EXT = ("Extend", "Format")
AHL = ("ALetter", "Hebrew_Letter")
MNLQ = ("MidNumLet", "Single_Quote")
START = frozenset("Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Co".split())

STOPWORDS = """a about after all also an and any are as at back be because been
but by can could did do does down each first for from get good had has have he her
him his how i if in into is it its just know like little long made make man many may
me more most my new no not now of on one only or other our out over said same see she
so some than that the their them then there these they this to too two up us used
very was way we were what when where which who why will with woman would you
your""".split()
assert len(STOPWORDS) == len(set(STOPWORDS)) == 110, len(STOPWORDS)


def segments(cps):
    """[(start, stop)] of a list of code points."""
    n = len(cps)
    # clusters: one base each, with what extends it
    clusters = []       # (property of base, start, stop)
    for i, cp in enumerate(cps):
        p = wordbreak(cp)
        if p in EXT and clusters and clusters[-1][0] not in NL:
            # an Extend/Format that starts a line is a base of its own
            clusters[-1][2] = i + 1
        else:
            clusters.append([p, i, i + 1])
    out = []
    for i, (p, a, b) in enumerate(clusters):
        if i == 0 or boundary(clusters, i):
            out.append([a, b])
        else:
            out[-1][1] = b
    return [tuple(x) for x in out]


def boundary(cl, i):
    """Is there a boundary between cluster i-1 and cluster i?"""
    l, r = cl[i - 1][0], cl[i][0]
    ll = cl[i - 2][0] if i >= 2 else None
    rr = cl[i + 1][0] if i + 1 < len(cl) else None
    if l == "CR" and r == "LF":
        return False                                            # WB3
    if l in NL or r in NL:
        return True                                             # WB3a, WB3b
    if l in AHL and r in AHL:
        return False                                            # WB5
    if l in AHL and (r == "MidLetter" or r in MNLQ) and rr in AHL:
        return False                                            # WB6
    if ll in AHL and (l == "MidLetter" or l in MNLQ) and r in AHL:
        return False                                            # WB7
    if l == "Hebrew_Letter" and r == "Single_Quote":
        return False                                            # WB7a
    if l == "Hebrew_Letter" and r == "Double_Quote" and rr == "Hebrew_Letter":
        return False                                            # WB7b
    if ll == "Hebrew_Letter" and l == "Double_Quote" and r == "Hebrew_Letter":
        return False                                            # WB7c
    if (l == "Numeric" or l in AHL) and r == "Numeric":
        return False                                            # WB8, WB9
    if l == "Numeric" and r in AHL:
        return False                                            # WB10
    if ll == "Numeric" and (l == "MidNum" or l in MNLQ) and r == "Numeric":
        return False                                            # WB11
    if l == "Numeric" and (r == "MidNum" or r in MNLQ) and rr == "Numeric":
        return False                                            # WB12
    if l == "Katakana" and r == "Katakana":
        return False                                            # WB13
    if (l in AHL or l in ("Numeric", "Katakana", "ExtendNumLet")) and \
            r == "ExtendNumLet":
        return False                                            # WB13a
    if l == "ExtendNumLet" and (r in AHL or r in ("Numeric", "Katakana")):
        return False                                            # WB13b
    if l == "Regional_Indicator" and r == "Regional_Indicator":
        return False                                            # WB13c
    return True


def words_of(chars):
    """chars: [(cp, suspect)] already folded."""
    cps = [c for c, _ in chars]
    return [nfc("".join(map(chr, cps[a:b]))) for a, b in segments(cps)
            if category(cps[a]) in START]


def words(data, header=True, markers=True):
    return words_of(text.read(data, header, markers, fold=True))


def stopwords(data):
    """Words of a stopword file, in order, with repetitions."""
    return words(data, header=False, markers=False)
