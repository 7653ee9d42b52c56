"""accuracy charges the minimum number of edit operations"""
from .common import *


def minimal(ctx, a, b, rep, what="accuracy"):
    """a, b: [(cp, suspect)]"""
    ca, cb = cps(a), cps(b)
    require(rep.characters == sum(1 for c in ca if c != sync.REJECT),
            "%s: Characters is %s", what, rep.characters)
    require(rep.errors == rep.total[3], "%s: Errors differs from the operations", what)
    if sync.REJECT not in ca:
        d = sync.levenshtein(ca, cb)
        require(rep.errors == d, "%s: Errors is %s, %s operations suffice", what,
                rep.errors, d)
        require((rep.errors == 0) == (ca == cb and sync.REJECT not in cb),
                "%s: zero errors for different texts", what)
        return True
    def charge(segs):
        return sum(max(sum(1 for i in range(*x[1][0]) if ca[i] != sync.REJECT),
                       max(0, x[1][1][1] - x[1][1][0] -
                           sum(1 for i in range(*x[1][0]) if ca[i] == sync.REJECT)))
                   for x in segs if not x[0])
    segs, complete = find_alignment(ca, cb, lambda s: charge(s) == rep.errors)
    if segs is None and complete:
        raise Violation("%s: Errors is %d; no minimal alignment with wildcards is "
                        "charged that much (one is charged %d)" % (
                            what, rep.errors, charge(sync.edit_segments(ca, cb))))
    return segs is not None


def check(ctx, case):
    a, b = case
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    rep = reports.parse_acc(ctx.ok("accuracy", ["c", "g"]))
    ta, tb = text.read(enc(a)), text.read(enc(b))
    if ta and tb and cps(ta) != cps(tb):
        ctx.mark("wildcard" if sync.REJECT in cps(ta) else "plain",
                 "longer correct" if len(ta) > len(tb) else "shorter correct")
    if not minimal(ctx, ta, tb, rep):
        ctx.label("undecided")


def small(tier, rng):
    """All pairs over {a,b,~} up to a length, in a random order, batched."""
    import itertools
    top = 4 if tier == "quick" else 5
    strings = ["".join(p) for n in range(top + 1)
               for p in itertools.product("ab~", repeat=n)]
    pairs = [(x, y) for x in strings for y in strings]
    rng.shuffle(pairs)
    return pairs[:2500] if tier == "quick" else pairs[:60000]


def check_long(ctx, case):
    check(ctx, case)


def check_known(ctx, case):
    """Texts assembled so that the distance is known by construction: distinct
    anchors that cannot be crossed cheaply."""
    blocks = case
    a = b = ""
    dist = 0
    for i, (x, y) in enumerate(blocks):
        anchor = chr(0x4e00 + i) * 40
        a += anchor + x
        b += anchor + y
        dist += sync.levenshtein_plain([ord(c) for c in x], [ord(c) for c in y])
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    rep = reports.parse_acc(ctx.ok("accuracy", ["c", "g"]))
    if len(blocks) > 1 and dist:
        ctx.mark("anchored")
    require(rep.errors == dist, "accuracy: Errors is %s, %s by construction",
            rep.errors, dist)


def anchored():
    s = st.text(alphabet=st.sampled_from("abc"), max_size=8)
    return st.lists(st.tuples(s, s), min_size=1, max_size=6)


SUBS = [
    Sub("pairs", check, strategy=lambda: gen.texts(2), quick=4500, thorough=150000,
        weight=3, rule="related raw text pairs over varied alphabets; non-trivial when "
        "both texts are non-empty and differ"),
    Sub("exhaustive", check, cases=small, weight=2,
        rule="random part of all pairs over {a,b,~} of length <= 4 (5)"),
    Sub("longer", check_long, strategy=lambda: gen.longer_texts(2, 60, 700, 25),
        quick=900, thorough=20000, weight=2, rule="edited texts of up to 700 characters"),
    Sub("quilts", check_long, strategy=lambda: gen.quilts(2, 700), quick=500,
        thorough=15000, weight=2, rule="texts made of overlapping slices of one text"),
    Sub("anchored", check_known, strategy=anchored, quick=500, thorough=10000,
        rule="distance known by construction"),
]
