"""synctext shows a minimal alignment from which both texts can be read back"""
from .common import *
from ocrv.uni import lower

NAMES = [("c", "g"), ("first.txt", "g"), ("a", "bb%sd"), ("x y", "{1}"), ("g", "g2"),
         ("n" * 40, "m" * 70), ("c", "n" * 130), ("f" * 255, "\u00e9" * 60), ("./c", "g"),
         ("./" * 500 + "a", "b"), ("a", "./" * 2000 + "b")]


def check(ctx, case):
    (a, b), flags, names = case
    names = list(names)
    for n, t in zip(names, (a, b)):
        ctx.put(n, enc(t))
    fold = "i" in flags
    args = ["-" + f for f in flags]
    out = ctx.ok("synctext", args + names)
    ta, tb = text.read(enc(a), fold=fold), text.read(enc(b), fold=fold)
    segs = synctext_alignment(out, names, [ta, tb], "s" in flags)
    if segs is None:
        ctx.label("undecided")
        return
    validate_alignment([cps(ta), cps(tb)], segs)
    require(segs == [] or sync.segments_cost(segs) == sync.levenshtein(cps(ta), cps(tb)),
            "synctext: not a minimal alignment")
    if not flags and sync.REJECT not in cps(ta):
        # and it is the one accuracy charges (all of C05 checks this further)
        rep = reports.parse_acc(ctx.ok("accuracy", names))
        require(rep.errors == sync.segments_cost(segs),
                "accuracy charges %s, synctext's alignment costs %s", rep.errors,
                sync.segments_cost(segs))
    gaps = sum(1 for s in segs if not s[0])
    if gaps and gaps < len(segs):
        ctx.mark("gaps %s" % (gaps if gaps < 4 else "4+"), *flags)
    if segs != sync.edit_segments(cps(ta), cps(tb)):
        ctx.label("other tie")


def check_stretches(ctx, case):
    """The alignment is known by construction."""
    seed, flags, names = case
    a, b, segs = gen.stretches(seed)
    for n, t in zip(names, (a, b)):
        ctx.put(n, enc(t))
    out = ctx.ok("synctext", ["-" + f for f in flags] + list(names))
    ts = [text.read(enc(t), fold="i" in flags) for t in (a, b)]
    check_equal("synctext", out, synctext_output(list(names), ts, segs, "s" in flags))
    if max(max(hi - lo for lo, hi in s[1]) for s in segs if not s[0]) > 1000:
        ctx.mark("over 1000")


def case(txts):
    return st.tuples(txts, st.sampled_from(["", "", "i", "s", "is", "s"]),
                     st.sampled_from(NAMES))


SUBS = [
    Sub("pairs", check, strategy=lambda: case(gen.texts(2)), quick=4500,
        thorough=120000, weight=3,
        rule="related raw text pairs with -i/-s; non-trivial when there are matches "
        "and gaps"),
    Sub("longer", check, strategy=lambda: case(gen.longer_texts(2, 60, 500, 25)),
        quick=800, thorough=20000, weight=2, rule="edited texts of up to 500 characters"),
    Sub("quilts", check, strategy=lambda: case(gen.quilts(2, 300)), quick=400,
        thorough=12000, weight=2, rule="texts made of overlapping slices of one text"),
    Sub("stretches", check_stretches, strategy=lambda: case(st.integers(0, 2 ** 40)),
        quick=600, thorough=20000, weight=2, rule="mismatched stretches of up to "
        "5000 characters between known matches"),
]
