"""transposed alignment finds moved blocks, longest first"""
from .common import *


def render(chars, parts, show_suspect):
    o = [SEP, "\n"]
    for num, lo, hi in parts:
        if num is not None:
            o.append("{%d:" % num)
        for cp, sus in chars[lo:hi]:
            o.append(text.show(cp, show_suspect and sus))
        if num is not None:
            o.append("}")
    o.append("\n")
    return "".join(o)


def invariants(a, b, s1, s2):
    for chars, parts in ((a, s1), (b, s2)):
        pos = 0
        for num, lo, hi in parts:
            require(lo == pos < hi, "a text is not covered in order")
            pos = hi
        require(pos == len(chars), "a text is not covered")
    m1 = [(n, a[lo:hi]) for n, lo, hi in s1 if n is not None]
    m2 = {n: b[lo:hi] for n, lo, hi in s2 if n is not None}
    require([n for n, _ in m1] == list(range(1, len(m1) + 1)), "numbers do not ascend")
    require(dict(m1) == m2, "a match differs between the texts")
    require(all(sync.REJECT not in x for _, x in m1), "'~' is matched")
    left1 = {c for n, lo, hi in s1 if n is None for c in a[lo:hi]}
    left2 = {c for n, lo, hi in s2 if n is None for c in b[lo:hi]}
    require(not (left1 & left2) - {sync.REJECT}, "a common character is left unmatched")


def check(ctx, case):
    (a, b), flags = case
    ctx.put("a", enc(a))
    ctx.put("b", enc(b))
    out = ctx.ok("synctext", ["-T"] + ["-" + f for f in flags] + ["a", "b"])
    ta, tb = (text.read(enc(t), fold="i" in flags) for t in (a, b))
    s1, s2 = sync.transposed(cps(ta), cps(tb))
    invariants(cps(ta), cps(tb), s1, s2)
    want = render(ta, s1, "s" in flags) + render(tb, s2, "s" in flags) + SEP
    check_equal("synctext -T", out, want.encode("utf-8"))
    order = [n for n, _, _ in s2 if n is not None]
    if order:
        ctx.mark("moved" if order != sorted(order) else "in order")


def check_refused(ctx, case):
    n, flags = case
    for i in range(n):
        ctx.put("f%d" % i, b"abc\n")
    r = ctx.run("synctext", ["-T"] + flags + ["f%d" % i for i in range(n)])
    ctx.mark("%d files" % n)
    if n == 2:
        require(r.rc == 0, "synctext -T refuses 2 files")
    else:
        require(r.rc == 1 and not r.out and r.err, "synctext -T accepts %d files", n)


FLAGS = ["", "", "", "s", "i", "is"]


def blocks():
    """Permuted blocks: many moves of chosen sizes."""
    piece = st.text(alphabet=st.sampled_from("abcdef"), min_size=1, max_size=6)

    @st.composite
    def s(draw):
        ps = draw(st.lists(piece, min_size=2, max_size=7))
        if draw(st.integers(0, 7)) == 0:     # many, each of its own characters
            n, c = draw(st.integers(8, 60)), 0x4E00
            ps = []
            for l in draw(st.lists(st.integers(1, 12), min_size=n, max_size=n)):
                ps.append("".join(map(chr, range(c, c + l))))
                c += l
        q = draw(st.permutations(ps))
        return ["".join(ps), "".join(q)], draw(st.sampled_from(FLAGS))
    return s()


SUBS = [
    Sub("pairs", check, strategy=lambda: st.tuples(gen.texts(2), st.sampled_from(FLAGS)),
        quick=6000, thorough=150000, weight=3,
        rule="related raw text pairs; non-trivial when something matches"),
    Sub("blocks", check, strategy=blocks, quick=3500, thorough=80000, weight=3,
        rule="permuted blocks"),
    Sub("longer", check, strategy=lambda: st.tuples(
        gen.longer_texts(2, 50, 220, 12), st.sampled_from(FLAGS)),
        quick=900, thorough=20000, weight=2, rule="texts of up to 220 characters"),
    Sub("quilts", check, strategy=lambda: st.tuples(
        gen.quilts(2, 1500), st.sampled_from(FLAGS)), quick=700, thorough=20000, weight=2,
        rule="texts made of overlapping slices of one text, up to 1500 characters"),
    Sub("count", check_refused, cases=lambda tier, rng: [
        (n, f) for n in (1, 2, 3, 4, 16, 17) for f in ([], ["-H"], ["-i"])],
        rule="number of files"),
]
