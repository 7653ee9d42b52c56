"""words are the Unicode word segments that start word-like, lower-cased, in NFC"""
from .common import *


def table(words_):
    d = {}
    for w in words_:
        d[w] = d.get(w, 0) + 1
    return d


def wordfreq_output(d):
    key = lambda w: w.encode("utf-8")
    total = "%8d   Total\n" % sum(d.values())
    row = lambda w: "%8d   %s\n" % (d[w], w)
    return ("   Count\n" + "".join(map(row, sorted(d, key=key))) + total + "\n\n" +
            "   Count\n" + "".join(map(row, sorted(d, key=lambda w: (-d[w], key(w))))) +
            total).encode("utf-8")


def check(ctx, case):
    s = case
    ctx.put("t", enc(s))
    ws = words.words(enc(s))
    out = ctx.ok("wordfreq", ["t"])
    check_equal("wordfreq", out, wordfreq_output(table(ws)), "text %r" % s[:300])
    if len(ws) > 1:
        ctx.mark()
    segs = words.segments(cps(text.read(enc(s), fold=True)))
    if any(b - a > 1 for a, b in segs) and len(segs) > 1:
        ctx.label("joined")


def check_order(ctx, case):
    """The order of the words, seen through wordacc's phrases: the words of the
    text against themselves with one word replaced must miss exactly it."""
    s, k = case
    ws = words.words(enc(s))
    if len(ws) < 2:
        return
    # a text of the same words, one by one on lines of their own
    k %= len(ws)
    ctx.put("c", enc(s))
    ctx.put("g", enc("\n".join(ws)))
    again = words.words(enc("\n".join(ws)))
    if again != ws:
        raise Skip()
    rep = reports.parse_wac(ctx.ok("wordacc", ["c", "g"]))
    require(rep.total == [len(ws), 0], "wordacc: the words are not in order: %r of %d",
            rep.total, len(ws))
    ctx.mark()


def singles(tier, rng):
    """Blocks of characters, each on a line of its own and between letters."""
    out = []
    size = 512
    for lo in range(0, 0x110000, size):
        c = [chr(x) for x in range(lo, lo + size) if not 0xD800 <= x < 0xE000 and x != 0x5E]
        if not c:
            continue
        interesting = any(uni.category(ord(x)) not in ("Cn",) for x in c)
        if tier == "quick" and not interesting and rng.random() < 0.8:
            continue
        if tier == "quick" and 0x20000 <= lo and lo < 0xE0000 and rng.random() < 0.85:
            continue
        if tier == "quick" and 0xF0000 <= lo and rng.random() < 0.9:
            continue
        out.append("\n".join(c))
        out.append("\n".join("a" + x + "b" + x + "7" + x + "8" for x in c))
        k = rng.randrange(len(CONTEXTS))
        out.append("\n".join(CONTEXTS[k] % {"x": x} for x in c))
        if tier != "quick":
            for ctx in CONTEXTS:
                out.append("\n".join(ctx % {"x": x} for x in c))
    rng.shuffle(out)
    return out


# between representatives of each class, so that every class shows
CONTEXTS = ("_%(x)s_%(x)s%(x)s_", "\u30a2%(x)s\u30a2%(x)s_", "\u05d0%(x)s\u05d0%(x)s",
            "\u05d0\"%(x)s\"\u05d0", "%(x)s' %(x)s", "1%(x)sa%(x)s2.%(x)s", "a:%(x)s:a",
            "\n%(x)s\u0300a", "\U0001F1E6%(x)s\U0001F1E7", "1,%(x)s,1", "a.%(x)s.a'%(x)s")


def edges(tier, rng):
    """The first and last character of every range with a word break property,
    and their neighbours, in every context."""
    c = set()
    before = uni.wordbreak(0)
    for cp in range(1, 0x110000):
        here = uni.wordbreak(cp)
        if here != before:
            c |= {cp - 2, cp - 1, cp, cp + 1}
        before = here
    c = sorted(x for x in c if 0 <= x < 0x110000 and not 0xD800 <= x < 0xE000 and x != 0x5E)
    out = []
    for ctx in CONTEXTS + ("%(x)s", "a%(x)sb%(x)s7%(x)s8"):
        for i in range(0, len(c), 300):
            out.append("\n".join(ctx % {"x": chr(x)} for x in c[i:i + 300]))
    rng.shuffle(out)
    return out


def classes(tier, rng):
    """All sequences of word break classes up to length 3 (4), several
    representatives."""
    import itertools
    groups = gen.word_cps()
    out = []
    lengths = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    for n in lengths:
        for combo in itertools.product(range(len(groups)), repeat=n):
            out.append("".join(chr(rng.choice(groups[g])) for g in combo))
    for _ in range(30000 if tier == "quick" else 400000):
        n = rng.choice((4, 4, 5, 6, 8))
        out.append("".join(chr(rng.choice(rng.choice(groups))) for _ in range(n)))
    rng.shuffle(out)
    # many sequences per text, on lines of their own
    per = 40
    return ["\n".join(out[i:i + per]) for i in range(0, len(out), per)]


SUBS = [
    Sub("classes", check, cases=classes, weight=3,
        rule="all sequences of up to 3 word break classes and random longer ones, 40 per "
        "text; non-trivial with more than one word"),
    Sub("characters", check, cases=singles, weight=3,
        rule="characters alone and between letters and digits, in blocks of 512"),
    Sub("edges", check, cases=edges, weight=2,
        rule="the first and last characters of every range of the word break table and "
        "their neighbours, in 13 contexts each"),
    Sub("segments", check, strategy=lambda: gen.wordish(), quick=5000, thorough=150000,
        weight=3, rule="random sequences of class representatives"),
    Sub("texts", check, strategy=lambda: gen.texts(1).map(lambda t: t[0]), quick=1500,
        thorough=30000, weight=1, rule="raw texts with marks and spacing"),
    Sub("order", check_order, strategy=lambda: st.tuples(gen.wordish(), st.integers(0, 9)),
        quick=1200, thorough=30000, weight=2, rule="word order, through wordacc"),
]
