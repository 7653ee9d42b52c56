"""multi-file alignment is the recursive longest-common-substring alignment"""
from .common import *


LONG = (3, 12, 27, 60, 95, 123, 200, 240, 256, 1000, 1022, 4000)


def check(ctx, case):
    txts, flags = case
    names = ["f%d" % i if i % 3 else "file%d" % i for i in range(len(txts))]
    if len(txts[0]) % 4 == 1:       # one long name
        i = len(txts[-1]) % len(txts)
        k = LONG[len(txts[0]) // 4 % len(LONG)]
        names[i] = names[i] + "n" * k if k < 250 else "./" * (k // 2) + names[i]
    if len(txts) == 2 and "H" not in flags:
        flags = "H" + flags
    for n, t in zip(names, txts):
        ctx.put(n, enc(t))
    r = ctx.run("synctext", ["-" + f for f in flags] + names)
    if not 2 <= len(txts) <= 16:
        require(r.rc == 1 and not r.out and r.err,
                "synctext accepts %d files: %r", len(txts), r)
        ctx.mark("refused")
        return
    require(r.rc == 0, "synctext fails on %s files: %r", len(txts), r)
    ts = [text.read(enc(t), fold="i" in flags) for t in txts]
    segs = sync.multi_segments([cps(t) for t in ts])
    validate_alignment([cps(t) for t in ts], segs, "model")
    check_equal("synctext %s of %d files" % (flags, len(txts)), r.out,
                synctext_output(names, ts, segs, "s" in flags))
    n = sum(1 for s in segs if s[0])
    if n:
        ctx.mark("%d files" % len(txts))
    if n > 2:
        ctx.label("several matches")


FLAGS = ["", "", "H", "s", "i", "is"]


def few():
    return st.integers(2, 5).flatmap(lambda n: st.tuples(
        gen.texts(n, sizes=(1, 2, 4, 8, 12, 20)), st.sampled_from(FLAGS)))


def many():
    return st.sampled_from([6, 8, 12, 15, 16, 16, 17, 18, 1]).flatmap(
        lambda n: st.tuples(
            st.one_of(gen.texts(n, sizes=(4, 8, 12, 20), maxops=2), gen.near_texts(n)),
            st.sampled_from(FLAGS)))


def longer():
    return st.integers(2, 4).flatmap(lambda n: st.tuples(
        gen.longer_texts(n, 50, 250, 10), st.sampled_from(FLAGS)))


def quilts():
    return st.integers(2, 6).flatmap(lambda n: st.tuples(
        gen.quilts(n, 1500), st.sampled_from(FLAGS)))


def small(tier, rng):
    import itertools
    strings = ["".join(p) for n in range(5) for p in itertools.product("ab", repeat=n)]
    strings += ["a~b", "~", "~a~", "ba~"]
    out = []
    for _ in range(3000 if tier == "quick" else 60000):
        k = rng.choice((2, 2, 3, 3, 4))
        out.append(([rng.choice(strings) for _ in range(k)], "H" if k == 2 else ""))
    return out


SUBS = [
    Sub("few", check, strategy=few, quick=6000, thorough=120000, weight=3,
        rule="2-5 related texts; non-trivial when something matches"),
    Sub("many", check, strategy=many, quick=1600, thorough=30000, weight=3,
        rule="1 and 6-18 texts"),
    Sub("longer", check, strategy=longer, quick=700, thorough=20000, weight=2,
        rule="2-4 texts of up to 250 characters"),
    Sub("quilts", check, strategy=quilts, quick=700, thorough=20000, weight=2,
        rule="2-6 texts made of overlapping slices of one text, up to 1500 characters"),
    Sub("tiny", check, cases=small, weight=2, rule="2-4 texts over {a,b,~} up to length 4"),
]
