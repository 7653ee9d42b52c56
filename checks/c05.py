"""every figure of an accuracy report follows from one optimal alignment"""
from .common import *


def invariants(rep, a, b, what="accuracy"):
    """What holds whatever the alignment."""
    ca = cps(a)
    require(rep.characters == sum(1 for c in ca if c != sync.REJECT),
            "%s: Characters is %s", what, rep.characters)
    for ops in (rep.marked, rep.unmarked, rep.total):
        require(ops[3] == sum(ops[:3]), "%s: Ins+Subst+Del differs from Errors: %s",
                what, ops)
    require([x + y for x, y in zip(rep.marked, rep.unmarked)] == rep.total,
            "%s: Marked and Unmarked do not add up to Total", what)
    require(rep.errors == rep.total[3], "%s: Errors differs from Total", what)
    require(sum(v[1] for v in rep.chars.values()) == rep.total[0] + rep.total[1]
            or sync.REJECT in ca, "%s: missed characters differ from Ins+Subst", what)
    require(sum(v[0] for v in rep.conf.values()) == rep.errors,
            "%s: confusions do not add up to Errors", what)
    require(sum(v[1] for v in rep.conf.values()) == rep.marked[3],
            "%s: marked confusions do not add up to the marked errors", what)
    want = {}
    for c in ca:
        if c != sync.REJECT:
            want[c] = want.get(c, 0) + 1
    require({c: v[0] for c, v in rep.chars.items()} == want,
            "%s: character counts differ from the correct text", what)
    require(rep.rejects == sum(1 for c, _ in b if c == sync.REJECT),
            "%s: Reject Characters is %s", what, rep.rejects)
    require(rep.suspects == sum(1 for c, s in b if s and c != sync.REJECT),
            "%s: Suspect Markers is %s", what, rep.suspects)


def check(ctx, case):
    a, b = case
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    out = ctx.ok("accuracy", ["c", "g"])
    shown = ctx.ok("synctext", ["c", "g"])
    ta, tb = text.read(enc(a)), text.read(enc(b))
    rep = reports.parse_acc(out)
    invariants(rep, ta, tb)
    segs = synctext_alignment(shown, ["c", "g"], [ta, tb])
    if segs is None:
        ctx.label("undecided")
        check_equal("accuracy report", out, rep.format())
        return
    want = reports.acc_from_alignment(ta, tb, segs)
    if out != want.format():
        # another alignment that looks the same when displayed?
        other, complete = find_alignment(
            cps(ta), cps(tb), lambda s:
            synctext_output(["c", "g"], [ta, tb], s) == shown and
            reports.acc_from_alignment(ta, tb, s).format() == out)
        if other is None:
            check_equal("accuracy report for the alignment synctext shows", out,
                        want.format())
    if rep.errors:
        ctx.mark()
    for l, c in (("marked", rep.marked[3]), ("false marks", rep.false_marks),
                 ("truncated", any("..." in k for k in rep.conf)),
                 ("merged", len(rep.conf) < sum(1 for s in segs if not s[0])),
                 ("wildcard", sync.REJECT in cps(ta))):
        if c:
            ctx.label(l)


def check_stretches(ctx, case):
    """The alignment is known by construction."""
    a, b, segs = gen.stretches(case)
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    out = ctx.ok("accuracy", ["c", "g"])
    ta, tb = text.read(enc(a)), text.read(enc(b))
    want = reports.acc_from_alignment(ta, tb, segs)
    check_equal("accuracy report", out, want.format())
    if max(max(hi - lo for lo, hi in s[1]) for s in segs if not s[0]) > 1000:
        ctx.mark("over 1000")


@st.composite
def confusable(draw):
    """Single-error lines separated by unambiguous anchors, so that confusions
    repeat, merge and need ordering."""
    pieces = draw(st.lists(st.sampled_from([
        ("a", "b"), ("a", "^b"), ("b", ""), ("", "b"), ("a", "~"), ("~", "b"), ("~", "bb"),
        ("~a", "x"), ("~", ""), ("", "~"), ("ab", "x"), ("x", "abc"), ("\u0301", "a"), ("<", "}"), ("\U0010ffff", "a"),
        ("\u0378" * 3, "b"), ("\u0378" * 4, "b"), ("p" * 23, "q" * 24), ("p" * 24, "q" * 25),
        ("\u00e9" * 12, "q"), ("\u00e9" * 13, "q"), ("p" * 23 + "\u00e9", "q"),
        ("p" * 40, "q" * 30), ("p" * 40 + "x", "q" * 30 + "y"), ("A", "~^c"), ("e\u0301", "\u00e9"),
        ("a\nb", "x"), ("^a", "b"), ("a", "^~"), ("c", "^c"), ("dd", "^d^d"),
        ("\x01", "\x02"), ("\u4e2d", "\uac00")]), min_size=1, max_size=14))
    a = b = ""
    for i, (x, y) in enumerate(pieces):
        anchor = "%d" % (i % 10) * draw(st.sampled_from([45, 46]))
        a += anchor + x
        b += ("^" if draw(st.integers(0, 5)) == 0 else "") + anchor + y
    return a, b


SUBS = [
    Sub("pairs", check, strategy=lambda: gen.texts(2), quick=2600, thorough=90000,
        weight=3, rule="related raw text pairs; non-trivial when there are errors"),
    Sub("confusions", check, strategy=confusable, quick=1500, thorough=40000,
        weight=3, rule="anchored errors that repeat, merge, truncate, are marked"),
    Sub("longer", check, strategy=lambda: gen.longer_texts(2, 60, 500, 20),
        quick=500, thorough=15000, weight=2, rule="edited texts of up to 500 characters"),
    Sub("quilts", check, strategy=lambda: gen.quilts(2, 300), quick=400,
        thorough=12000, weight=2, rule="texts made of overlapping slices of one text"),
    Sub("stretches", check_stretches, strategy=lambda: st.integers(0, 2 ** 40),
        quick=600, thorough=20000, weight=2, rule="mismatched stretches of up to "
        "5000 characters with few marks, between known matches; non-trivial when one "
        "is longer than 1000"),
]
