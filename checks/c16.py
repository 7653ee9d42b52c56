"""ngram counts every n-gram of every file exactly once"""
from .common import *


def count(texts, n):
    d = {}
    for t in texts:
        for i in range(len(t) - n + 1):
            key = tuple(c for c, _ in t[i:i + n])
            w = d.setdefault(key, [0, 0])
            w[0] += 1
            w[1] += 1 if any(s for _, s in t[i:i + n]) else 0
    return d


def expected(d):
    total = "%8d %8d   Total\n" % (sum(v[0] for v in d.values()),
                                   sum(v[1] for v in d.values()))
    row = lambda k: "%8d %8d   {%s}\n" % (d[k][0], d[k][1],
                                          "".join(text.show(c, False, True) for c in k))
    head = "   Count  Suspect\n"
    one = sorted(d)
    two = sorted(d, key=lambda k: (-d[k][0], -d[k][1], k))
    return (head + "".join(map(row, one)) + total + "\n\n" +
            head + "".join(map(row, two)) + total).encode("utf-8")


def check(ctx, case):
    txts, n, how = case
    names = [ctx.put("f%d" % i, enc(t)) for i, t in enumerate(txts)]
    args = {0: [], 1: ["-n", str(n)], 2: ["-n%d" % n]}[how]
    if how == 0:
        n = 1
    out = ctx.ok("ngram", args + names)
    ts = [text.read(enc(t)) for t in txts]
    d = count(ts, n)
    check_equal("ngram %s" % args, out, expected(d))
    require(sum(v[0] for v in d.values()) == sum(max(0, len(t) - n + 1) for t in ts),
            "model total")
    if d and any(v[0] > 1 for v in d.values()):
        ctx.mark("n=%d" % n)
    if sum(1 for t in ts if t) > 1:
        ctx.label("several files")
    if any(v[1] for v in d.values()):
        ctx.label("suspects")


def cases(long=False):
    src = (lambda k: gen.longer_texts(k, 200, 2500, 10)) if long else \
        (lambda k: gen.texts(k))
    return st.integers(1, 5).flatmap(lambda k: st.tuples(
        src(k), st.integers(1, 3), st.integers(0, 2)))


def every(tier, rng):
    """Every character as a 1-gram (blocks), 2- and 3-grams across planes."""
    size = 4096
    out = []
    for lo in range(0, 0x110000, size):
        t = "".join(chr(c) for c in range(lo, lo + size)
                    if not 0xD800 <= c < 0xE000 and c != 0x5E)
        if not t:
            continue
        out.append(([t], 1, 1))
    rng.shuffle(out)
    out += [([t[0][0][:700]], n, 1) for t in out[:40] for n in (2, 3)]
    return out


SUBS = [
    Sub("texts", check, strategy=cases, quick=5500, thorough=120000, weight=3,
        rule="1-5 texts; non-trivial when an n-gram occurs repeatedly"),
    Sub("longer", check, strategy=lambda: cases(True), quick=700, thorough=15000,
        weight=3, rule="texts of up to 2500 characters"),
    Sub("every character", check, cases=every, weight=3,
        rule="all scalar values as 1-grams"),
]
