"""Generators of texts, files and reports."""
import random
import string

from hypothesis import strategies as st

from . import uni
from .reports import Acc, Edo, Wac, conf_key, CLASS_NAMES
from .text import DIVIDER

WEIRD = ("\u0301\u0308\u25cc\u0903\u20dd"      # combining, dotted circle
         "\U0001F600\U00010400\U0001F1E6"       # astral
         "\U0010FFFF\U0010FFFE\uE000\uFFFD\uFEFF\u00AD\u200D\u200B\u0378\x80\x00\x07\x7f"
         "\u00e9\u00df\u0130\u03a3\u4e2d\uac00\u0915\u05d0\u0627\u0e01\u00b5\u00d7")
MARKUP = "<>{}-\\n:=0<A>}{1 \n"
BLANKY = " \t\x0b\x0c\r\u00a0\u2003\u3000\u2028\u1680"
LETTERS = string.ascii_lowercase

ALPHABETS = [
    "ab", "ab", "ab~", "abc", "abcd \n", "ab~^", "ab \n~^", "aAbB",
    "abcdefgh", LETTERS[:16] + " \n", "a" * 3 + "b",
    MARKUP, WEIRD, WEIRD + "ab~ \n^", "ab" + BLANKY + "\n^",
    LETTERS + string.ascii_uppercase + string.digits + " .,'\n~^",
    "aeiou\u0301\u0308", "\u03b1\u03b2\u03b3 \u0391\n",
]

SIZES = (0, 1, 1, 2, 3, 4, 6, 8, 12, 20, 30)

ANY_CP = st.one_of(
    st.integers(0, 0x7f), st.integers(0x80, 0x7ff), st.integers(0x800, 0xd7ff),
    st.integers(0xe000, 0xffff), st.integers(0x10000, 0x10ffff),
    st.sampled_from([ord(c) for c in WEIRD]))


def anychar():
    return ANY_CP.map(chr)


@st.composite
def alphabet(draw):
    if draw(st.integers(0, 11)) == 0:
        return "".join(draw(st.lists(anychar(), min_size=1, max_size=6)))
    return draw(st.sampled_from(ALPHABETS))


@st.composite
def string_over(draw, alpha, sizes=SIZES):
    n = draw(st.sampled_from(sizes))
    return draw(st.text(alphabet=st.sampled_from(alpha), min_size=n // 2, max_size=n))


@st.composite
def edited(draw, base, alpha, maxops=4):
    s = base
    for _ in range(draw(st.integers(0, maxops))):
        op = draw(st.sampled_from(["del", "ins", "sub", "move", "dup", "mark", "rej"]))
        i = draw(st.integers(0, len(s)))
        n = draw(st.sampled_from([1, 1, 2, 3, 6, 15]))
        if op == "del":
            s = s[:i] + s[i + n:]
        elif op == "ins":
            s = s[:i] + draw(st.text(alphabet=st.sampled_from(alpha), min_size=1,
                                     max_size=n)) + s[i:]
        elif op == "sub":
            r = draw(st.text(alphabet=st.sampled_from(alpha), min_size=1, max_size=n))
            s = s[:i] + r + s[i + len(r):]
        elif op == "move":
            j = draw(st.integers(0, len(s)))
            block = s[i:i + n]
            rest = s[:i] + s[i + n:]
            j = min(j, len(rest))
            s = rest[:j] + block + rest[j:]
        elif op == "dup":
            j = draw(st.integers(0, len(s)))
            s = s[:j] + s[i:i + n] + s[j:]
        elif op == "mark":
            s = s[:i] + "^" + s[i:]
        else:
            s = s[:i] + "~" + s[i + n:]
    return s


@st.composite
def texts(draw, count=2, sizes=SIZES, maxops=4):
    """Related raw texts (they may hold '^', '~' and extraneous spacing)."""
    alpha = draw(alphabet())
    base = draw(string_over(alpha, sizes))
    out = []
    for i in range(count):
        how = draw(st.integers(0, 9))
        if how == 0:
            out.append(draw(string_over(alpha, sizes)))
        elif how == 1:
            out.append("")
        elif how == 2:
            out.append(base)
        else:
            out.append(draw(edited(base, alpha, maxops)))
    return out


@st.composite
def near_texts(draw, count, sizes=(2, 4, 8, 14, 20)):
    """Many copies of one raw text, of which a few are slightly edited."""
    alpha = draw(alphabet())
    base = draw(string_over(alpha, sizes))
    out = [base] * count
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
        i = draw(st.one_of(st.just(count - 1), st.integers(0, count - 1)))
        out[i] = draw(edited(base, alpha, 2))
    return out


def _longer(seed, count, lo, hi, changes):
    r = random.Random(seed)
    alpha = r.choice([a for a in ALPHABETS if len(a) > 1])
    n = r.randint(lo, hi)
    if r.random() < 0.4:
        lex = ["".join(r.choice(alpha) for _ in range(r.randint(1, 7)))
               for _ in range(r.randint(2, 30))]
        s = ""
        while len(s) < n:
            s += r.choice(lex) + (" " if r.random() < 0.8 else "\n")
        base = s[:n]
    else:
        base = "".join(r.choice(alpha) for _ in range(n))
    out = []
    for _ in range(count):
        s = base
        for _ in range(r.randint(0, max(1, changes))):
            i = r.randint(0, len(s))
            k = r.choice([1, 1, 1, 2, 3, 10, 25, 40])
            ins = "".join(r.choice(alpha) for _ in range(k))
            c = r.randint(0, 5)
            if c == 0:
                s = s[:i] + s[i + k:]
            elif c == 1:
                s = s[:i] + ins + s[i:]
            elif c == 2:
                s = s[:i] + ins + s[i + k:]
            elif c == 3:
                b = s[i:i + k]
                s = s[:i] + s[i + k:]
                j = r.randint(0, len(s))
                s = s[:j] + b + s[j:]
            elif c == 4:
                s = s[:i] + "~" + s[i + 1:]
            else:
                s = s[:i] + "^" + s[i:]
        out.append(s)
    return out


def longer_texts(count=2, lo=50, hi=300, changes=12):
    return st.integers(0, 2 ** 40).map(lambda x: _longer(x, count, lo, hi, changes))


def _quilt(seed, count, hi):
    r = random.Random(seed)
    base = [chr(c) for c in r.sample(range(0x4E00, 0x9F00), r.choice([40, 150, 500, 900]))]
    if r.random() < 0.4:        # with repetitions
        base = [r.choice(base) if r.random() < 0.1 else c for c in base]
    lengths = r.choice([(1, 2, 3, 5, 8), (1, 4, 20, 60, 130), (10, 30, 31, 33, 60, 64, 100),
                        (1, 2, 200, 300), (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129)])
    spots = [r.randrange(len(base)) for _ in range(r.randint(2, 12))]

    def piece():
        k = r.random()
        n = r.choice(lengths) + r.choice([0, 0, 0, -1, 1])
        if k < 0.75:
            at = r.choice(spots) if r.random() < 0.6 else r.randrange(len(base))
            return "".join(base[at:at + max(1, n)])
        if k < 0.9:             # in no other text, as good as always
            return "".join(chr(r.randrange(0xAC00, 0xD700)) for _ in range(
                r.choice([1, 3, n, 2 * n, 420 if r.random() < 0.3 else 5])))
        return r.choice(["~", "^", "~~", " ", "\n", "x", "ab", "^~", "X"])

    out = []
    for _ in range(count):
        size = r.randint(10, hi)
        s = []
        while sum(map(len, s)) < size:
            s.append(piece())
        out.append(s)
    for i in range(1, count):   # some are rearrangements or excerpts of others
        k = r.random()
        if k < 0.5:
            s = list(out[r.randrange(i)])
            for _ in range(r.choice([0, 1, 2, 3, 8])):
                if s:
                    x = r.randrange(len(s))
                    c = r.randrange(5)
                    if c == 0:
                        s.insert(r.randrange(len(s)), s.pop(x))
                    elif c == 1:
                        s[x] = s[x][:r.randint(0, len(s[x]))]
                    elif c == 2:
                        s[x] = s[x][r.randint(0, len(s[x])):]
                    elif c == 3:
                        s.insert(r.randrange(len(s) + 1), s[x])
                    else:
                        s.insert(x, piece())
            out[i] = s
    return ["".join(s) for s in out]


def quilts(count=2, hi=1500):
    """Texts made of overlapping slices of one base text, up to several hundred
    characters long, with other characters in between."""
    return st.integers(0, 2 ** 40).map(lambda x: _quilt(x, count, hi))


def header(extra=("some line",)):
    return ("ocreval Vendor-Independent Interface Version 7.0\n" + DIVIDER + "\n" +
            "".join(x + "\n" for x in extra) + DIVIDER + "\n")


def mixed_texts(count=2, sizes=SIZES, lo=50, hi=300, changes=12, share=4):
    """Mostly short texts, one in `share` longer."""
    return st.integers(0, share - 1).flatmap(
        lambda k: longer_texts(count, lo, hi, changes) if k == share - 1
        else texts(count, sizes))


def stretches(seed):
    """(a, b, segs): raw texts with mismatched stretches of up to some thousand
    characters between matches of distinct characters. No two stretches have a
    character in common and all grow (or all shrink), so segs is the only
    minimal alignment."""
    r = random.Random(seed)
    grow = r.random() < 0.5
    mark, rej = r.choice([0, 0.001, 0.01, 0.3]), r.choice([0, 0.001, 0.05])
    wild = r.choice([0, 0, 0.001, 0.2, 0.8])
    anchors = r.sample(range(0x4e00, 0x9f00), 400)
    a, b, segs = [], [], []
    pa = pb = 0

    def put(out, chars, rejects):
        for c in chars:
            if rejects and r.random() < rejects:
                c = "~"
            out.append(("^" if r.random() < mark else "") + c)

    for k in range(r.randint(1, 4)):
        if segs or r.random() < 0.6:
            n = r.choice([1, 1, 2, 30, 90])
            m = [chr(anchors.pop()) for _ in range(n)]
            put(a, m, 0)
            put(b, m, 0)
            segs.append((True, ((pa, pa + n), (pb, pb + n))))
            pa, pb = pa + n, pb + n
        n = r.choice([0, 1, 3, 24, 25, 100, 999, 1001, r.randint(2, 3000)])
        m = n + r.choice([0, 1, 2, 50, r.randint(1, 2000)])
        if not grow:
            n, m = m, n
        if n + m == 0:
            m, n = (1, 0) if grow else (0, 1)
        put(a, [r.choice("abc.\u00e9") for _ in range(n)], wild)
        put(b, [r.choice("xyz,\u00e8") for _ in range(m)], rej)
        segs.append((False, ((pa, pa + n), (pb, pb + m))))
        pa, pb = pa + n, pb + m
    if r.random() < 0.6:
        m = [chr(anchors.pop()) for _ in range(40)]
        put(a, m, 0)
        put(b, m, 0)
        segs.append((True, ((pa, pa + 40), (pb, pb + 40))))
    return "".join(a), "".join(b), segs


# ---------------------------------------------------------------- words

WORD_CPS = None


def word_cps():
    """Representatives of every word break class and boundary of classes."""
    global WORD_CPS
    if WORD_CPS is None:
        out = []
        for c in uni.wb_classes():
            m = uni.wb_members(c)
            out.append([x for x in sorted(set(list(m[:6]) + list(m[-4:]) +
                        list(m[:: max(1, len(m) // 25)]))) if not 0xD800 <= x < 0xE000])
        out.append([ord(c) for c in " -!?()\u4e2d\u3042\u00a7\u0e01\u2603\u00b2\u2460"
                    "\u2160\u1885\ue000\U000F0000\u00aa"])
        WORD_CPS = out
    return WORD_CPS


@st.composite
def wordish(draw, sizes=(0, 1, 2, 3, 4, 6, 9, 14)):
    """Text built from word break classes."""
    n = draw(st.sampled_from(sizes))
    groups = word_cps()
    out = []
    for _ in range(n):
        g = draw(st.sampled_from(groups))
        out.append(chr(draw(st.sampled_from(g))))
    return "".join(out)


SIMPLE_WORDS = ["the", "of", "The", "a", "x", "yz", "zebra", "don't", "caf\u00e9",
                "cafe\u0301", "I", "\u0130x", "3.14", "a_b", "\u00df", "w" * 49,
                "w" * 50, "w" * 51, "\u00e9" * 30, "v" * 80, "\u4e2d", "\u03c3\u03b1",
                "\U00010400\U00010401", "and", "and", "to", "man", "word", "words",
                "qu" * 40, "\u1e9e", "n\u0303", "\u05d0\u05d1\"\u05d2"]
# distinct words alike to careless comparison: long common prefixes and suffixes,
# equal lengths and byte sums
ALIKE = ["a" * 30 + "xy", "a" * 30 + "yx", "a" * 80 + "xy", "a" * 80 + "yx",
         "a" * 80 + "x", "a" * 80, "k" + "a" * 80, "l" + "a" * 80, "a" * 300 + "st",
         "a" * 300 + "ts", "a" * 300, "ab", "ba", "stop", "pots", "\u00e9\u00e8",
         "\u00e8\u00e9"]


def words_pool(extra=()):
    """Half the time ordinary words, else words that are easily confused."""
    pool = SIMPLE_WORDS + list(extra)
    return st.integers(0, 5).flatmap(
        lambda k: st.just(ALIKE if k == 0 else pool + ALIKE if k == 1 else pool))


@st.composite
def word_list(draw, sizes=(0, 1, 2, 3, 5, 8, 14, 25)):
    small = draw(st.booleans())
    pool = SIMPLE_WORDS[:6] if small else draw(words_pool())
    n = draw(st.sampled_from(sizes))
    return draw(st.lists(st.sampled_from(pool), min_size=n // 2, max_size=n))


@st.composite
def word_pair(draw):
    a = draw(word_list())
    b = list(a)
    for _ in range(draw(st.integers(0, 4))):
        i = draw(st.integers(0, len(b)))
        op = draw(st.integers(0, 3))
        if op == 0:
            del b[i:i + draw(st.integers(1, 3))]
        elif op == 1:
            b[i:i] = draw(st.lists(st.sampled_from(SIMPLE_WORDS), min_size=1, max_size=3))
        elif op == 2 and i < len(b):
            b[i] = draw(st.sampled_from(ALIKE if b[i] in ALIKE else SIMPLE_WORDS))
        else:
            j = draw(st.integers(0, len(b)))
            b[j:j] = b[i:i + 2]
    if draw(st.integers(0, 7)) == 0:
        b = draw(word_list())
    sep = draw(st.sampled_from([" ", "\n", ", ", " - "]))
    return sep.join(a), sep.join(b)


def _many_words(seed, lo=30, hi=400):
    r = random.Random(seed)
    lex = ["".join(r.choice(LETTERS[:r.choice((2, 4, 26))]) for _ in range(
        r.choice((1, 2, 3, 5, 8, 20, 49, 50, 51, 60)))) for _ in range(r.randint(2, 60))]
    lex += r.sample(["the", "and", "of", "in", "to", "I", "with", "woman"], 4)
    if r.random() < 0.4:
        # alike words: one letter exchanged with another, or appended
        for w in r.sample(lex, min(len(lex), 6)):
            w = list(w * r.choice((1, 1, 3, 8, 40)))
            lex.append("".join(w))
            i, j = r.randrange(len(w)), r.randrange(len(w))
            w[i], w[j] = w[j], w[i]
            lex.append("".join(w))
            lex.append("".join(w) + "a")
    a = [r.choice(lex) for _ in range(r.randint(lo, hi))]
    b = []
    for w in a:
        x = r.random()
        if x < 0.08:
            continue
        if x < 0.16:
            b.append(r.choice(lex))
        elif x < 0.2:
            b += [r.choice(lex), w]
        else:
            b.append(w)
    if r.random() < 0.3 and len(b) > 4:
        i, j = sorted(r.sample(range(len(b)), 2))
        b = b[j:] + b[i:j] + b[:i]
    return " ".join(a), " ".join(b)


def many_words():
    return st.integers(0, 2 ** 40).map(_many_words)


# ---------------------------------------------------------------- reports

COUNTS = st.one_of(st.integers(1, 12), st.integers(1, 300),
                   st.sampled_from([9, 10, 11, 99, 100, 20000, 60000, 140000, 99999999, 100000000,
                                    123456789, 999999999, 2**31 - 1, 2**31, 2**32,
                                    3 * 10**9, 10**12]))


@st.composite
def split_missed(draw, count):
    if count >= 1000 and draw(st.booleans()):
        # a percentage at or next to where its last printed digit changes
        k = draw(st.integers(0, 9999)) * 2 + 1
        return min(count, max(0, count * k // 20000 + draw(st.integers(0, 1))))
    return draw(st.one_of(st.just(0), st.just(count), st.integers(0, count)))


@st.composite
def acc(draw, big=True, alpha=None):
    """A consistent accuracy report as dict of plain values (see acc_obj)."""
    kind = draw(st.integers(0, 7))
    if kind == 0:
        return dict(chars={}, conf={}, rej=0, sus=0, fm=0)
    cps = draw(st.lists(st.one_of(
        st.sampled_from([ord(c) for c in alpha or (
            "abcABC019 .,<>{}\n\u25cc\u0301\u00e9\u0378\U0010ffff\x01\x7f\u00ad\u0903")]),
        ANY_CP.filter(lambda c: c not in (126,))), min_size=1, max_size=8, unique=True))
    chars = {}
    for cp in cps:
        n = draw(COUNTS if big else st.integers(1, 20))
        chars[cp] = [n, draw(split_missed(n))]
    conf = {}
    for _ in range(draw(st.integers(0, 5))):
        a = draw(st.lists(st.sampled_from(cps), max_size=draw(st.sampled_from([1, 2, 30]))))
        b = draw(st.lists(st.one_of(st.sampled_from(cps), st.just(126)),
                          max_size=draw(st.sampled_from([1, 2, 30]))))
        if not a and not b:
            continue
        e = draw(COUNTS if big else st.integers(1, 20))
        conf[conf_key(a, b)] = [e, draw(split_missed(e))]
    return dict(chars=chars, conf=conf, rej=draw(st.integers(0, 9)),
                sus=draw(st.integers(0, 9)), fm=draw(st.integers(0, 9)))


@st.composite
def _varied(draw, table, counts):
    """The same keys, mostly, with other counts."""
    out = {}
    for k in table:
        if draw(st.integers(0, 3)):
            n = draw(counts)
            out[k] = [n, draw(split_missed(n))]
    return out


@st.composite
def acc_family(draw, count):
    """Reports that share most of their characters and confusions."""
    first = draw(acc())
    out = [first]
    for _ in range(count - 1):
        out.append(dict(first, chars=draw(_varied(first["chars"], COUNTS)),
                        conf=draw(_varied(first["conf"], COUNTS)),
                        rej=draw(st.integers(0, 9))))
    return [d if d["chars"] else dict(d, conf={}) for d in draw(st.permutations(out))]


def acc_lists(count):
    return st.one_of(st.lists(acc(), min_size=count, max_size=count),
                     acc_family(count))


def acc_obj(d):
    r = Acc()
    r.chars = {k: list(v) for k, v in d["chars"].items()}
    r.conf = {k: list(v) for k, v in d["conf"].items()}
    r.characters = sum(v[0] for v in r.chars.values())
    r.errors = sum(v[0] for v in r.conf.values())
    r.rejects, r.suspects, r.false_marks = d["rej"], d["sus"], d["fm"]
    marked = sum(v[1] for v in r.conf.values())
    for ops, e in ((r.marked, marked), (r.unmarked, r.errors - marked)):
        x, y = e // 3, e // 2
        ops[:] = [x, y - x if y > x else 0, e - x - (y - x if y > x else 0), e]
    r.total = [a + b for a, b in zip(r.marked, r.unmarked)]
    return r


@st.composite
def wac(draw, big=False, words=None):
    kind = draw(st.integers(0, 7))
    if kind == 0:
        return dict(stop={}, non={}, phrase={})
    from .words import STOPWORDS
    alike = draw(st.integers(0, 4)) == 0
    pool = words or (ALIKE if alike else 0) or ["zebra", "x", "yz", "caf\u00e9", "v" * 50, "v" * 51, "v" * 69,
                     "v" * 70, "v" * 71, "w" * 200, "\u00e9" * 30, "3.14", "q", "nn",
                     "total", "length", "stopwords", "\u4e2d", "\U00010428"]
    n = COUNTS if big else st.one_of(st.integers(1, 12), st.integers(1, 60))
    d = dict(stop={}, non={}, phrase={})
    # reports made with different stopword lists may have been added up
    both = draw(st.integers(0, 4)) == 0
    for key, src in (("stop", STOPWORDS[:8]),
                     ("non", list(pool) + STOPWORDS[:8] if both else pool)):
        for w in draw(st.lists(st.sampled_from(src), max_size=6, unique=True)):
            c = draw(n)
            d[key][w] = [c, draw(split_missed(c))]
    total = sum(v[0] for k in ("stop", "non") for v in d[k].values())
    for i in range(1, 9):
        c = total - (i - 1)
        if c > 0:
            d["phrase"][i] = [c, draw(split_missed(c))]
    return d


@st.composite
def wac_lists(draw, count, words=None):
    """Reports, sometimes sharing most of their words."""
    one = lambda: wac(big=draw(st.booleans()), words=words)
    if draw(st.booleans()):
        return [draw(one()) for _ in range(count)]
    first = draw(one())
    out = [first]
    n = COUNTS if draw(st.booleans()) else st.integers(1, 12)
    for _ in range(count - 1):
        d = dict(stop=draw(_varied(first["stop"], n)), non=draw(_varied(first["non"], n)),
                 phrase={})
        total = sum(v[0] for k in ("stop", "non") for v in d[k].values())
        for i in range(1, 9):
            if total - (i - 1) > 0:
                d["phrase"][i] = [total - (i - 1), draw(split_missed(total - (i - 1)))]
        out.append(d)
    return draw(st.permutations(out))


def wac_obj(d):
    r = Wac()
    r.stop = {k: list(v) for k, v in d["stop"].items()}
    r.non = {k: list(v) for k, v in d["non"].items()}
    r.phrase = {int(k): list(v) for k, v in d["phrase"].items()}
    for src, lens in ((r.stop, r.stop_len), (r.non, r.non_len)):
        for w, (c, m) in src.items():
            p = lens.setdefault(min(len(w), 50), [0, 0])
            p[0] += c
            p[1] += m
            r.total[0] += c
            r.total[1] += m
    for w, (c, m) in r.non.items():
        p = r.distinct.setdefault(min(c, 11), [0, 0])
        p[0] += 1
        p[1] += 1 if c == m else 0
    return r


@st.composite
def edo(draw):
    lens = draw(st.lists(st.one_of(st.integers(1, 100), st.sampled_from([1, 2, 99, 100])),
                         max_size=6, unique=True))
    return dict(ins=draw(st.one_of(st.integers(0, 50), COUNTS)),
                dele=draw(st.one_of(st.integers(0, 50), COUNTS)),
                moves={l: draw(st.one_of(st.integers(1, 20), COUNTS)) for l in lens})


@st.composite
def edo_lists(draw, count):
    out = [draw(edo()) for _ in range(count)]
    if draw(st.booleans()):
        for d in out[1:]:
            d["moves"] = {l: draw(COUNTS) for l in out[0]["moves"] if draw(st.integers(0, 3))}
    return draw(st.permutations(out))


def edo_obj(d):
    return Edo(d["ins"], d["dele"], d["moves"])
