"""vote outputs the weighted majority of its voters at every position"""
from .common import *
from ocrv import voting

FRACTIONS = ["%d/%d" % (m, n) for n in range(1, 10) for m in range(1, n + 1)]


def options(draw):
    w = draw(st.one_of(st.none(), st.sampled_from(FRACTIONS),
                       st.sampled_from(["1/2", "1/3", "2/3", "1/9"])))
    s = draw(st.one_of(st.none(), st.sampled_from(FRACTIONS),
                       st.sampled_from(["1/2", "1/1", "2/3", "1/3"])))
    return w, s


def frac(f):
    return (int(f[0]), int(f[2])) if f else (1, 1)


def expected(ts, w, s):
    m, n = frac(w)
    threshold = len(ts) * n * frac(s)[0] // frac(s)[1] if s else 0
    return voting.render(voting.vote(ts, m, n, threshold))


def check(ctx, case):
    txts, w, s = case
    names = ["t%d" % i for i in range(len(txts))]
    for n, t in zip(names, txts):
        ctx.put(n, enc(t))
    args = (["-w", w] if w else []) + (["-s", s] if s else []) + names
    out = ctx.ok("vote", args)
    ts = [text.read(enc(t)) for t in txts]
    check_equal("vote %s" % " ".join(args), out, expected(ts, w, s))
    if len({tuple(cps(t)) for t in ts}) > 1 and any(ts):
        ctx.mark("%d voters" % len(ts), "weights" if w else "no weights",
                 "threshold" if s else "no threshold")
        if any(c == sync.REJECT for t in ts for c, _ in t):
            ctx.label("rejects")
        if any(x for t in ts for _, x in t):
            ctx.label("suspects")
    elif s is None and ts and cps(ts[0]):
        check_equal("vote of identical texts", out,
                    "".join(text.show(c) for c in cps(ts[0])).encode())


@st.composite
def few(draw):
    n = draw(st.integers(2, 6))
    return (draw(gen.texts(n, sizes=(1, 2, 4, 8, 14, 20))),) + options(draw)


@st.composite
def many(draw):
    n = draw(st.one_of(st.sampled_from([15, 16]), st.integers(7, 16)))
    return (draw(st.one_of(gen.texts(n, sizes=(2, 4, 8, 14), maxops=2),
                           gen.near_texts(n))),) + options(draw)


@st.composite
def columns(draw):
    """One stretch without anything in common to all: pure voting."""
    n = draw(st.integers(2, 9))
    txts = draw(st.lists(st.text(alphabet=st.sampled_from("aaab~^"), max_size=5),
                         min_size=n - 1, max_size=n - 1))
    pre = draw(st.sampled_from(["", "x", "xy "]))
    txts = [pre + t for t in txts] + [draw(st.sampled_from(["", pre, pre + "~", pre + "c"]))]
    return (draw(st.permutations(txts)),) + options(draw)


@st.composite
def longer(draw):
    n = draw(st.integers(2, 5))
    return (draw(gen.longer_texts(n, 50, 250, 10)),) + options(draw)


@st.composite
def quilts(draw):
    n = draw(st.integers(2, 6))
    return (draw(gen.quilts(n, 700)),) + options(draw)


def check_outvoted(ctx, case):
    """Metamorphic: a text outvoted at a position does not influence it."""
    base, k, alts, pos = case
    chars = [c for c in base]
    pos %= len(chars)
    names = []
    outs = []
    for v, alt in enumerate(alts):
        files = []
        for i in range(2 * k + 1):
            s = "".join(chars) if i != k else \
                "".join(chars[:pos]) + alt + "".join(chars[pos + 1:])
            files.append(ctx.put("v%d_%d" % (v, i), enc("<<" + s + ">>\n")))
        outs.append(ctx.ok("vote", files))
    ctx.mark()
    check_equal("vote with an outvoted text", outs[1], outs[0])
    check_equal("vote with an outvoted text", outs[0], enc("<<" + base + ">>\n"))


def outvoted():
    # distinct characters: the position is unambiguous for the alignment
    base = st.lists(st.sampled_from("abcdefghijklmnopqrstuvw"), min_size=3, max_size=10,
                    unique=True).map("".join)
    return st.tuples(base, st.integers(1, 5),
                     st.lists(st.sampled_from("XYZ~"), min_size=2, max_size=2),
                     st.integers(0, 20))


SUBS = [
    Sub("few", check, strategy=few, quick=5500, thorough=120000, weight=3,
        rule="2-6 related texts with -w/-s; non-trivial when the texts differ"),
    Sub("columns", check, strategy=columns, quick=5000, thorough=100000, weight=3,
        rule="stretches of rejects, suspects, ended texts"),
    Sub("many", check, strategy=many, quick=1200, thorough=30000, weight=2,
        rule="7-16 texts"),
    Sub("longer", check, strategy=longer, quick=500, thorough=15000, weight=2,
        rule="texts of up to 250 characters"),
    Sub("quilts", check, strategy=quilts, quick=500, thorough=15000, weight=2,
        rule="texts made of overlapping slices of one text"),
    Sub("outvoted", check_outvoted, strategy=outvoted, quick=600, thorough=10000,
        rule="a single deviating text among 3-11"),
]
