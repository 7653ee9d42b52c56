"""vote -O uses the three voters closest to the median, in order of closeness"""
from .common import *
from ocrv import voting
from .c09 import options, expected


def check(ctx, case):
    txts, w, s, debug = case
    names = ["t%d" % i for i in range(len(txts))]
    for n, t in zip(names, txts):
        ctx.put(n, enc(t))
    opts = (["-w", w] if w else []) + (["-s", s] if s else [])
    out = ctx.ok("vote", ["-O"] + opts + (["-D"] if debug else []) + names)
    ts = [text.read(enc(t)) for t in txts]
    rank, dist = voting.ranking(ts)
    best = rank[:3]
    want = b""
    if debug:
        want = b"".join(b"%11.1f %s\n" % (dist[i], names[i].encode()) for i in rank)
    check_equal("vote -O %s" % " ".join(opts), out,
                want + expected([ts[i] for i in best], w, s))
    if len(best) >= 2:
        plain = ctx.ok("vote", opts + [names[i] for i in best])
        check_equal("vote -O against vote of the chosen ones", out, want + plain)
    if len(ts) > 3 and rank != sorted(rank):
        ctx.mark("dropped")
    elif rank != sorted(rank):
        ctx.mark("reordered")
    if len(set(dist)) < len(dist):
        ctx.label("tied distances")


@st.composite
def voters(draw, long=False):
    n = draw(st.one_of(st.sampled_from([2, 3, 3, 4, 4, 5, 6]), st.integers(2, 16)))
    if long:
        t = draw(gen.longer_texts(n, 50, 200, 10))
    else:
        t = draw(st.one_of(gen.texts(n, sizes=(2, 4, 8, 14, 20)), gen.near_texts(n)))
    return (t,) + options(draw) + (draw(st.booleans()),)


@st.composite
def quilts(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 7, 8, 11, 16]))
    return (draw(gen.quilts(n, 700 if n < 6 else 250)),) + options(draw) + (
        draw(st.booleans()),)


@st.composite
def runs(draw):
    """Texts in which few pairs occur, hundreds of times."""
    piece = st.tuples(st.sampled_from(["a", "ab", "a~", "\u00e9b", "a^b"]), st.one_of(
        st.integers(1, 300), st.sampled_from([127, 128, 255, 256, 257])))
    n = draw(st.integers(2, 7))
    ts = draw(st.lists(st.lists(piece, min_size=1, max_size=2), min_size=n, max_size=n))
    return (["".join(p * k for p, k in t) for t in ts],) + options(draw) + (
        draw(st.booleans()),)


SUBS = [
    Sub("voters", check, strategy=voters, quick=4000, thorough=100000, weight=3,
        rule="2-16 related texts; non-trivial when -O reorders or drops"),
    Sub("longer", check, strategy=lambda: voters(True), quick=500, thorough=15000,
        weight=2, rule="texts of up to 200 characters"),
    Sub("quilts", check, strategy=quilts, quick=300, thorough=9000, weight=2,
        rule="texts made of overlapping slices of one text"),
    Sub("runs", check, strategy=runs, quick=300, thorough=9000, weight=2,
        rule="texts of long repetitions, whose pairs occur hundreds of times"),
]
