"""editop accounts for every character by insertion, deletion or moved block"""
from .common import *
from ocrv import moves


def check(ctx, case):
    a, b = case
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    ta, tb = cps(text.read(enc(a))), cps(text.read(enc(b)))
    out = ctx.ok("editop", ["c", "g"])
    log = []
    want = moves.editop(ta, tb, log)
    check_equal("editop", out, want.format())
    check_equal("editop -D", ctx.ok("editop", ["-D", "c", "g"]),
                "".join(log).encode() + want.format())
    n = sum(want.moves.values())
    if ta == tb and sync.REJECT not in ta:
        require((want.ins, want.dele, n) == (0, 0, 0), "model: equal texts")
    if n:
        ctx.mark("moves %s" % (n if n < 4 else "4+"))
    if 100 in want.moves:
        ctx.label("100 or longer")


@st.composite
def permuted(draw):
    """Blocks of distinct characters, permuted: block structure is known."""
    n = draw(st.one_of(st.integers(2, 9), st.integers(2, 9), st.integers(10, 40)))
    lens = draw(st.lists(st.sampled_from([1, 1, 2, 3, 4, 7]), min_size=n, max_size=n))
    if draw(st.integers(0, 9)) == 0:
        lens[0] = draw(st.sampled_from([99, 100, 101, 130]))
    blocks, c = [], 0x4E00
    for l in lens:
        blocks.append("".join(chr(c + i) for i in range(l)))
        c += l
    perm = draw(st.permutations(blocks))
    gen_side = list(perm)
    for _ in range(draw(st.integers(0, 3))):
        i = draw(st.integers(0, len(gen_side)))
        gen_side.insert(i, draw(st.sampled_from(["~", "x", "yz", " "])))
    if draw(st.integers(0, 3)) == 0:
        gen_side.pop(draw(st.integers(0, len(gen_side) - 1)))
    return "".join(blocks), "".join(gen_side)


def check_known(ctx, case):
    check(ctx, case)
    a, b = case
    # what is moved exists on both sides
    rep = reports.parse_edo(ctx.ok("editop", ["c", "g"]))
    ta, tb = cps(text.read(enc(a))), cps(text.read(enc(b)))
    common = set(ta) & set(tb) - {sync.REJECT}
    require(rep.ins == sum(1 for c in ta if c not in common and c != sync.REJECT),
            "editop: %d insertions", rep.ins)
    require(rep.dele == sum(1 for c in tb if c not in common),
            "editop: %d deletions", rep.dele)


def perms(tier, rng):
    """All permutations of up to 6 blocks (1..7 in thorough)."""
    import itertools
    out = []
    for n in range(2, 7 if tier == "quick" else 8):
        for p in itertools.permutations(range(n)):
            lens = [rng.choice((1, 2, 3)) for _ in range(n)]
            bl, c = [], 0x4E00
            for l in lens:
                bl.append("".join(chr(c + i) for i in range(l)))
                c += l
            out.append(("".join(bl), "".join(bl[i] for i in p)))
    rng.shuffle(out)
    return out


SUBS = [
    Sub("permuted", check_known, strategy=permuted, quick=2500, thorough=60000, weight=3,
        rule="2-40 permuted blocks of distinct characters; non-trivial when moves are needed"),
    Sub("permutations", check, cases=perms, weight=2,
        rule="all permutations of up to 6 (7) blocks"),
    Sub("texts", check, strategy=lambda: gen.texts(2), quick=3000, thorough=90000,
        weight=3, rule="related raw texts"),
    Sub("longer", check, strategy=lambda: gen.longer_texts(2, 50, 220, 12), quick=500,
        thorough=15000, weight=2, rule="texts of up to 220 characters"),
    Sub("quilts", check, strategy=lambda: gen.quilts(2, 1500), quick=600, thorough=15000,
        weight=2, rule="texts made of overlapping slices of one text"),
]
