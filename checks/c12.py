"""every Unicode character has one faithful, reversible report form and one class"""
from .common import *
from ocrv.reports import RANGES, CLASS_NAMES, Acc

SCALARS = 0x110000


def scalars(lo, hi):
    return [c for c in range(lo, min(hi, SCALARS)) if not 0xD800 <= c < 0xE000
            and c != 0x5E]


def check_block(ctx, case):
    """A block of code points: accuracy lists each, accsum reads each back."""
    lo, hi = case
    t = scalars(lo, hi)
    if not t:
        return
    # 'x' around each so that blanks and newlines survive as such
    src = "".join("x" + chr(c) for c in t) + "x"
    ctx.put("c", enc(src))
    ctx.put("g", b"")
    ctx.put("zero", Acc().format())
    ta = text.read(enc(src))
    want = reports.acc_from_alignment(ta, [], [(False, ((0, len(ta)), (0, 0)))])
    out = ctx.ok("accuracy", ["c", "g"])
    check_equal("accuracy of U+%04X..U+%04X" % (lo, hi - 1), out, want.format())
    ctx.put("r", out)
    check_equal("accsum reads U+%04X..U+%04X back" % (lo, hi - 1),
                ctx.ok("accsum", ["r", "zero"]), out)
    rep = reports.parse_acc(out)
    # every character of the block in one row
    expect = {}
    for c, _ in ta:
        if c != 126:
            expect[c] = expect.get(c, 0) + 1
    require({c: v[0] for c, v in rep.chars.items()} == expect,
            "characters of U+%04X..U+%04X are not listed once each", lo, hi - 1)
    ctx.mark()


def blocks(size):
    def f(tier, rng):
        out = [(i, i + size) for i in range(0, SCALARS, size)]
        rng.shuffle(out)
        return out
    return f


def check_confusions(ctx, case):
    """Each character as a confusion of its own, with the form of char_to_string."""
    chars = [c for c in case if c not in (0x5E, 0x7E) and not 0xD800 <= c < 0xE000]
    a, b = "", ""
    for i, c in enumerate(chars):
        anchor = "%d" % (i % 10) * 4
        a += anchor + chr(c)
        b += anchor
    a += "||||"
    b += "||||"
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    ta, tb = text.read(enc(a)), text.read(enc(b))
    out = ctx.ok("accuracy", ["c", "g"])
    segs = sync.edit_segments(cps(ta), cps(tb))
    want = reports.acc_from_alignment(ta, tb, segs).format()
    if out != want:
        rep = reports.parse_acc(out)
        shown = set()
        for c, _ in ta:
            shown.add(reports.conf_key([c], []))
        bad = [k for k in rep.conf if k not in shown and len(k) < 16]
        require(not bad or len(ta) != len(tb) + len(chars),
                "confusion %r belongs to no character", bad)
        require(rep.errors == sync.levenshtein(cps(ta), cps(tb)), "errors differ")
    ctx.put("r", out)
    ctx.put("zero", Acc().format())
    check_equal("accsum reads confusions back", ctx.ok("accsum", ["r", "zero"]), out)
    ctx.mark()


def boundaries(tier, rng):
    """Both sides of every class range, of UTF-8 lengths and of planes."""
    edge = {0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xFF, 0x100,
            0xFFF, 0x1000, 0xFFFFF, 0x100000}
    for a, b, _ in RANGES:
        edge |= {a - 1, a, b, b + 1}
    for p in range(17):
        edge |= {p << 16, (p << 16) + 0xFFFF, (p << 16) + 0xFFFE}
    e = sorted(c for c in edge if 0 <= c < SCALARS)
    out = [e[i:i + 30] for i in range(0, len(e), 30)]
    for _ in range(600 if tier == "quick" else 12000):
        lo = rng.randrange(SCALARS)
        if rng.random() < 0.5:
            lo = rng.randrange(0x3400)
        out.append(list(range(lo, min(lo + 40, SCALARS))))
    return out


def check_single(ctx, case):
    """The class and the form of single characters, each in a report of its own."""
    c = case
    ctx.put("c", enc("x" + chr(c) + "x"))
    ctx.put("g", b"xx")
    out = ctx.ok("accuracy", ["c", "g"])
    t = text.read(enc("x" + chr(c) + "x"))
    want = reports.acc_from_alignment(
        t, [(120, False)] * 2, sync.edit_segments(cps(t), [120, 120]))
    check_equal("accuracy of U+%04X" % c, out, want.format())
    ctx.mark(reports.char_class(c))


def singles(tier, rng):
    out = set()
    for a, b, _ in RANGES:
        out |= {a - 1, a, b, b + 1}
    for _ in range(800 if tier == "quick" else 20000):
        out.add(rng.randrange(SCALARS))
    return [c for c in sorted(out) if 0 <= c < SCALARS and not 0xD800 <= c < 0xE000
            and c not in (0x5E, 0x7E)]


def check_inject(ctx, case):
    """Forms are pairwise different."""
    seen = {}
    for c in range(SCALARS):
        if 0xD800 <= c < 0xE000 or text.is_blank(c):
            continue
        s = text.show(c, False, True)
        require(s not in seen, "U+%04X and U+%04X look alike", c, seen.get(s, 0))
        require(reports.unshow(s) == c, "U+%04X is not reversible", c)
        seen[s] = c
    ctx.mark()


SUBS = [
    Sub("every character", check_block, cases=blocks(2048), weight=4,
        rule="all 1,112,064 scalar values in blocks: written by accuracy, read back by "
        "accsum"),
    Sub("boundaries", check_confusions, cases=boundaries, weight=2,
        rule="characters as confusions of their own"),
    Sub("single", check_single, cases=singles, weight=2,
        rule="one character per report, both sides of every class boundary"),
    Sub("model", check_inject, cases=lambda t, r: [0], serial=True,
        rule="the documented form is injective (model)"),
]
