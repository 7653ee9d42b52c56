"""Large inputs for the single properties: sizes beyond the capacities and
counter widths met in C programs (255, 503, 4096, 32767, 65535), so that each
property's own check covers them.  subs(property) gives the sub-checks."""
import random

from .common import *
from . import c27
from .c27 import CPU, cycle, known_pair, plain, word

WIDTHS = (254, 255, 256, 257, 502, 503, 504, 1023, 1024, 1025, 4095, 4096, 4097, 32766,
          32767, 32768, 32769, 65534, 65535, 65536, 65537)


def only(cases, *keep):
    """The cases whose first items are among those given."""
    def f(tier, rng):
        for c in cases(tier, rng):
            if c[0] in keep:
                yield c
    return f


# ---- C01, C02: reading

def raw_text(n, seed):
    r = random.Random(seed)
    kinds = ["ab \n^", "a\u00a0\u3000 \t\n^b", "abc" * 30 + " \n", "\u4e2d\u00e9\U0001f600^ ",
             "a" * 300 + " ", " \n\t^"]
    out = []
    left = n
    while left > 0:
        k = min(left, r.choice([1, 40, 400, 4000, 30000]))
        s = r.choice(kinds)
        out.append("".join(r.choice(s) for _ in range(k)))
        left -= k
    return "".join(out)


def check_read(ctx, case):
    from ocrv import voting
    from .c16 import count, expected
    n, seed, head = case
    data = (gen.header().encode() if head else b"") + enc(raw_text(n, seed))
    ctx.put("f", data)
    ctx.put("e", b"")
    t = text.read(data)
    check_equal("ngram of a file of %d bytes" % len(data),
                ctx.ok("ngram", ["-n1", "f"], cpu=CPU), expected(count([t], 1)))
    segs = [(False, ((0, len(t)), (0, 0)))] if t else []
    check_equal("synctext -s of a file of %d bytes" % len(data),
                ctx.ok("synctext", ["-s", "f", "e"], cpu=CPU),
                synctext_output(["f", "e"], [t, []], segs, True))
    ctx.mark()


def read_cases(tier, rng):
    for n in (3000, 4096, 8191, 20000, 33000, 66000) * (3 if tier == "quick" else 20):
        yield [n + rng.randrange(50), rng.randrange(10 ** 9), rng.randrange(3) == 0]
    for n in WIDTHS[-8:]:
        yield [n, rng.randrange(10 ** 9), False]


def check_long_line(ctx, case):
    """Header lines, blank runs, lines and mark runs of any length."""
    from .c16 import count, expected
    kind, n = case
    if kind == "header line":
        raw = gen.header(("x" * n, "y")) + "a^b\n"
    elif kind == "header lines":
        raw = gen.header(("x",) * n) + "a^b\n"
    elif kind == "blanks":
        raw = "a" + " " * n + "b\n" + " " * n + "\nc" + "\t" * n
    elif kind == "blank lines":
        raw = "a" + "\n" * n + "b" + " \n" * n
    elif kind == "marks":
        raw = "a" + "^" * n + "b"
    elif kind == "marked":
        raw = "^a" * n + "b"
    elif kind == "first line":
        raw = "x" * n + "\na^b"
    else:
        raw = "a" + "\u0301" * n + "b"
    ctx.put("f", enc(raw))
    for k in (1, 2):
        check_equal("ngram -n%d (%s, %d)" % (k, kind, n),
                    ctx.ok("ngram", ["-n%d" % k, "f"], cpu=CPU),
                    expected(count([text.read(enc(raw))], k)))
    ctx.mark(kind)


def long_line_cases(tier, rng):
    for kind in ("header line", "header lines", "blanks", "blank lines", "marks", "marked",
                 "first line", "combining"):
        for n in (97, 98, 99, 100, 101, 196, 197, 198, 199, 200) + WIDTHS:
            if tier == "thorough" or n < 300 or rng.random() < 0.5:
                yield [kind, n]


def check_deep(ctx, case):
    """Malformed or rare sequences behind n bytes of text."""
    from .c02 import WAYS, OTHER
    from .inv import argv, names_of, place, refused
    n, bad, unit, at = case
    tool, args, roles, k = WAYS[at % len(WAYS)]
    data = (unit * (n // len(unit) + 1))[:n - n % len(unit)] + b"x" * (n % len(unit)) + bad
    files = [[r, data if i == k else OTHER[r]] for i, r in enumerate(roles)]
    names = place(ctx, files)
    r = ctx.run(tool, argv(args, names), cpu=CPU)
    try:
        data.decode("utf-8")
        require(r.rc == 0, "%s refuses well-formed UTF-8 (%d bytes): %s", tool, len(data),
                brief(r.err))
    except UnicodeDecodeError:
        refused(r, tool, "malformed UTF-8 behind %d bytes" % n)
        require(r.out == b"", "%s writes a result for malformed UTF-8", tool)
    ctx.mark(tool)


BAD = [b"\x80", b"\xc3", b"\xe4\xb8", b"\xf0\x9f\x98", b"\xc0\x80", b"\xed\xa0\x80",
       b"\xf4\x90\x80\x80", b"\xff", b"\xe0\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xc3a",
       b"\xe4\xb8a", b"\xf0\x9f\x98a", b"\xf0\x80\x80\x80", b"\xf5\x80\x80\x80"]
GOOD = [b"\xf4\x8f\xbf\xbf", b"\xc3\xa9", b"\xe4\xb8\xad", b"\xef\xbf\xbf", b"\x00",
        b"\xef\xbb\xbf", b"\xf0\x90\x80\x80"]


def deep_cases(tier, rng):
    for n in (65534, 65536, 70000, 200000):
        for bad in BAD:
            yield [n, bad + rng.choice([b"", b"x\n"]), rng.choice([b"ab ", b"a\n", b"xyz"]),
                   rng.randrange(100)]
    for n in (510, 511, 512, 1023, 1024, 2047, 4093, 4094, 4095, 4096, 4097, 8190, 8191,
              8192, 12287, 12288) * (3 if tier == "quick" else 30):
        for bad in rng.sample(BAD, 5):
            yield [n, bad + rng.choice([b"", b"x", b"abcde\n"]),
                   rng.choice([b"ab ", b"a\n", b"xyz"]), rng.randrange(100)]
        yield [n, rng.choice(GOOD) + rng.choice([b"", b"x", b"\n"]),
               rng.choice([b"ab ", b"a\n", b"\xc3\xa9", b"\xe4\xb8\xad"]),
               rng.randrange(100)]


# ---- C04 to C06: pairs

def pair_cases(tier, rng):
    sizes = [(300, 20), (600, 25), (1500, 20), (2500, 40), (5000, 20), (9000, 30),
             (33000, 400), (66000, 3000), (70000, 9000)]
    if tier == "thorough":
        sizes = sizes * 6 + [(20000, 30), (140000, 5000), (300000, 40000)]
    for n, gap in sizes:
        yield [n, gap, rng.randrange(10 ** 9)]


def extreme_cases(tier, rng):
    for n in (253, 254, 255, 256, 257, 510, 512, 1100):
        yield ["apart", n, n]
        yield ["rejects", n, rng.choice([n, 1, n - 1, 2 * n])]
        yield ["apart", n, rng.choice([1, 5, n - 1, n + 1])]
    for n in WIDTHS:
        yield ["same char", n, rng.choice([0, 1, n - 1, n + 1, n // 2])]
        yield ["same char", rng.choice([0, 1, n // 2]), n]
        yield ["empty", n // 3 + 1, 0]
    yield ["equal", 13108, 0]


def check_counts(ctx, case):
    """Every figure of the report with a given size."""
    kind, n, seed = case
    r = random.Random(seed)
    src = "".join(cycle(n, seed))
    if kind == "marks":           # equal, all marked
        a, b = src, "".join("^" + c for c in src)
    elif kind == "some marks":
        a, b = src, "".join(r.choice(["^", "", ""]) + c for c in src)
    elif kind == "rejects":
        a, b = "", "~" * n
    elif kind == "marked rejects":
        a, b = "", "^~" * n
    elif kind == "lost":
        a, b = src, ""
    elif kind == "lost to a mark":
        a, b = src, "^q"
    elif kind == "extra":
        a, b = "", src
    elif kind == "extra marked":
        a, b = "", "^" + src
    elif kind == "wildcards":
        a, b = "~" * n, "x" * r.choice([1, n])
    elif kind == "classes":
        a = "".join(r.choice("aZ5 .\u00e9\u0416\u4e2d\u0301\U00010400") for _ in range(n))
        a = " ".join(a.split()) or "a"
        b = a
    else:
        raise Broken(kind)
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    ta, tb = text.read(enc(a)), text.read(enc(b))
    if kind == "lost to a mark" and not sync.REJECT in cps(ta):
        segs = [(False, ((0, len(ta)), (0, len(tb))))]
    elif cps(ta) == cps(tb) and sync.REJECT not in cps(ta):
        segs = [(True, ((0, len(ta)), (0, len(tb))))]
    else:
        segs = [(False, ((0, len(ta)), (0, len(tb))))]
    check_equal("accuracy (%s, %d)" % (kind, n), ctx.ok("accuracy", ["c", "g"], cpu=CPU),
                reports.acc_from_alignment(ta, tb, segs).format())
    check_equal("synctext -s (%s, %d)" % (kind, n),
                ctx.ok("synctext", ["-s", "c", "g"], cpu=CPU),
                synctext_output(["c", "g"], [ta, tb], segs, True))
    ctx.mark(kind)


def count_cases(tier, rng):
    for kind in ("marks", "some marks", "rejects", "marked rejects", "lost", "extra",
                 "extra marked", "lost to a mark", "classes"):
        for n in WIDTHS:
            if n > 5000 and kind == "lost to a mark":
                continue
            if tier == "thorough" or n < 1000 and rng.random() < 0.7 or rng.random() < 0.4:
                yield [kind, n, rng.randrange(10 ** 9)]


def check_repeated(ctx, case):
    """Few confusions, each occurring hundreds of times."""
    n, gap, marked, seed = case
    r = random.Random(seed)
    src = cycle(n * (gap + 1), seed)
    kinds = [("\u03b1", "\u03b2"), ("\u03b1", "^\u03b2"), ("\u03b3", "\u03b4"),
             ("\u03b5", ""), ("", "\u03b6"), ("", "^~"), ("\u03b5", "~")]
    kinds = r.sample(kinds, r.randint(1, 4))
    a, b, segs = [], [], []
    la = lb = 0
    for i in range(n):
        run = src[i * gap:(i + 1) * gap]
        a += run
        b += run
        segs.append((True, ((la, la + gap), (lb, lb + gap))))
        la += gap
        lb += gap
        x, y = r.choice(kinds)
        a.append(x)
        b.append(y)
        m = len(y.replace("^", ""))
        segs.append((False, ((la, la + len(x)), (lb, lb + m))))
        la += len(x)
        lb += m
    a, b = "".join(a), "".join(b)
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    ta, tb = text.read(enc(a)), text.read(enc(b))
    check_equal("accuracy with %d repeated confusions" % n,
                ctx.ok("accuracy", ["c", "g"], cpu=CPU),
                reports.acc_from_alignment(ta, tb, segs).format())
    check_equal("synctext with %d gaps" % n, ctx.ok("synctext", ["c", "g"], cpu=CPU),
                synctext_output(["c", "g"], [ta, tb], segs))
    ctx.mark()


def repeated_cases(tier, rng):
    for n in (120, 254, 255, 256, 300, 520, 1000, 2500) * (4 if tier == "quick" else 20):
        yield [n, rng.choice([8, 12, 20]), 0, rng.randrange(10 ** 9)]


# ---- C07 to C10: alignments of several files, votes

def many_gaps(k, n, seed, variants=("", "", "x", "yx", "~", "^y")):
    """k texts with about n gaps between blocks of clear lengths."""
    r = random.Random(seed)
    blocks, c = [], 0x4E00
    for i in range(n):
        l = 2 + i % 4
        blocks.append("".join(chr(c + j) for j in range(l)))
        c += l
    return ["".join(b + r.choice(variants) for b in blocks) for _ in range(k)]


def check_multi(ctx, case):
    k, n, flags, seed = case
    texts_ = many_gaps(k, n, seed)
    names = [ctx.put("f%d" % i, enc(t)) for i, t in enumerate(texts_)]
    ts = [text.read(enc(t)) for t in texts_]
    if k == 2 and "H" not in flags:
        flags += "H"
    check_equal("synctext of %d files with %d blocks" % (k, n),
                ctx.ok("synctext", ["-" + f for f in flags] + names, cpu=CPU),
                synctext_output(names, ts, sync.multi_segments([cps(t) for t in ts]),
                                "s" in flags))
    ctx.mark("%d files" % k)


def multi_cases(tier, rng):
    for n in (100, 254, 255, 256, 257, 300, 520) * (4 if tier == "quick" else 20):
        yield [rng.randint(2, 6), n, rng.choice(["", "s"]), rng.randrange(10 ** 9)]
    yield [16, 120, "s", rng.randrange(10 ** 9)]
    yield [3, 1100, "s", rng.randrange(10 ** 9)]


def check_votes(ctx, case):
    from .c09 import expected
    k, n, w, s, seed = case
    r = random.Random(seed)
    texts_ = many_gaps(k, n, seed, ("", "x", "x", "yx", "~", "^y", "^x", "xyzzy"))
    names = [ctx.put("f%d" % i, enc(t)) for i, t in enumerate(texts_)]
    ts = [text.read(enc(t)) for t in texts_]
    args = (["-w", w] if w else []) + (["-s", s] if s else [])
    check_equal("vote of %d texts with %d blocks" % (k, n),
                ctx.ok("vote", args + names, cpu=CPU), expected(ts, w, s))
    ctx.mark("%d voters" % k)


def vote_cases(tier, rng):
    from .c09 import FRACTIONS
    for n in (100, 255, 256, 300, 520) * (4 if tier == "quick" else 20):
        yield [rng.randint(2, 6), n, rng.choice([None] + FRACTIONS),
               rng.choice([None] + FRACTIONS), rng.randrange(10 ** 9)]
    yield [16, 120, "1/3", "2/3", rng.randrange(10 ** 9)]


def check_columns(ctx, case):
    """One long stretch without a character common to all: a long vote."""
    from .c09 import expected
    k, n, w, s, seed = case
    r = random.Random(seed)
    texts_ = []
    for i in range(k - 1):
        m = n if i == 0 else r.choice([n, n - 1, n // 2, n])
        texts_.append("".join(r.choice(["a", "a", "b", "^a", "^b", "~"]) for _ in range(m)))
    texts_.append("c" * r.choice([0, 1, n]))
    r.shuffle(texts_)
    names = [ctx.put("f%d" % i, enc(t)) for i, t in enumerate(texts_)]
    ts = [text.read(enc(t)) for t in texts_]
    args = (["-w", w] if w else []) + (["-s", s] if s else [])
    check_equal("vote over %d columns" % n, ctx.ok("vote", args + names, cpu=CPU),
                expected(ts, w, s))
    ctx.mark()


def column_cases(tier, rng):
    from .c09 import FRACTIONS
    for n in (250, 255, 256, 257, 1000, 4096, 32768, 65535, 65537):
        yield [rng.randint(3, 6), n, rng.choice([None] + FRACTIONS),
               rng.choice([None] + FRACTIONS), rng.randrange(10 ** 9)]


def check_ranking(ctx, case):
    """-O with many different pairs, or pairs with high counts."""
    from ocrv import voting
    k, n, kind, seed = case
    r = random.Random(seed)
    if kind in ("counts", "run"):
        base = ("ab" if kind == "counts" else "a") * n
        most, more = (len(base) // 2, 300) if kind == "counts" else (24, 3)
        texts_ = [base[:len(base) - r.randrange(most + 1)] +
                  r.choice(["c", "d", ""]) * r.randrange(more) for _ in range(k)]
    else:
        base = cycle(n, seed)
        texts_ = []
        for _ in range(k):
            t = list(base)
            for _ in range(r.choice([0, 1, 3, 300])):
                t[r.randrange(len(t))] = r.choice("xyz~")
            texts_.append("".join(t[:r.choice([n, n, n - 1, n // 2])]))
    names = [ctx.put("f%d" % i, enc(t)) for i, t in enumerate(texts_)]
    rank, dist = voting.ranking([text.read(enc(t)) for t in texts_])
    head = b"".join(b"%11.1f %s\n" % (dist[i], names[i].encode()) for i in rank)
    out = ctx.ok("vote", ["-O", "-D"] + names, cpu=CPU)
    check_equal("vote -O -D (%s, %d)" % (kind, n), out[:len(head)], head)
    plain_ = ctx.ok("vote", [names[i] for i in rank[:3]], cpu=CPU)
    check_equal("vote -O (%s, %d)" % (kind, n), out[len(head):], plain_)
    if rank != sorted(rank):
        ctx.mark(kind)


def ranking_cases(tier, rng):
    for n in (100, 260, 520, 1100, 5000) * (4 if tier == "quick" else 20):
        yield [rng.randint(3, 8), n, "pairs", rng.randrange(10 ** 9)]
    for n in (130, 260, 600, 2000):
        yield [rng.randint(3, 5), n, "counts", rng.randrange(10 ** 9)]
    for n in (32779, 32780, 40000, 65546, 65549) * (1 if tier == "quick" else 4):
        yield [rng.randint(3, 5), n, "run", rng.randrange(10 ** 9)]
    for n in (17000, 33000) if tier == "quick" else (33000, 66000):
        yield [3, n, "pairs", rng.randrange(10 ** 9)]


def check_transposed(ctx, case):
    from .c08 import render
    kind, n, flags, seed = case
    r = random.Random(seed)
    if kind == "identical":
        a = "".join(cycle(n, seed))
        b = a + "Z" * r.choice([0, 1, n])
    elif kind == "swapped":
        x = "".join(cycle(n, seed))
        y = "".join(chr(0xAC00 + i % 3000) for i in range(n + r.choice([1, -1])))
        a, b = x + y, y + x
    elif kind == "nothing":
        a, b = "a" * n, "b" * r.choice([1, n])
    else:
        blocks, c = [], 0x4E00
        for i in range(n):
            l = 1 + i % 7
            blocks.append("".join(r.choice(["", "", "", "^"]) + chr(c + j)
                                  for j in range(l)))
            c += l
        a = "".join(blocks)
        if kind == "some":
            for _ in range(6):
                blocks.insert(r.randrange(n), blocks.pop(r.randrange(n)))
        else:
            r.shuffle(blocks)
        b = "".join(x + r.choice(["", "", "x", "~"]) for x in blocks)
    ctx.put("a", enc(a))
    ctx.put("b", enc(b))
    ta, tb = text.read(enc(a)), text.read(enc(b))
    s1, s2 = sync.transposed(cps(ta), cps(tb))
    want = render(ta, s1, "s" in flags) + render(tb, s2, "s" in flags) + SEP
    check_equal("synctext -T (%s, %d)" % (kind, n),
                ctx.ok("synctext", ["-T"] + ["-" + f for f in flags] + ["a", "b"], cpu=CPU),
                enc(want))
    ctx.mark(kind)


def transposed_cases(tier, rng):
    for n in (1000, 32768, 65537):
        for kind in ("identical", "swapped"):
            yield [kind, n, "", rng.randrange(10 ** 9)]
    for n in (256, 1000, 3000):
        yield ["nothing", n, "s", rng.randrange(10 ** 9)]
    for n in (60, 130, 260, 300):
        yield ["shuffled", n, rng.choice(["", "s"]), rng.randrange(10 ** 9)]
        yield ["some", 3 * n, rng.choice(["", "s"]), rng.randrange(10 ** 9)]


# ---- C13, C20, C21: reports

def check_group(ctx, case):
    from .c13 import expected
    n, m, seed = case
    r = random.Random(seed)
    pool = [c for c in range(33, 0x11000) if not 0xD800 <= c < 0xE000 and c not in (94, 126)]
    d = dict(chars={c: [r.choice([1, 5, 99999999]), 1] for c in r.sample(pool, n)},
             conf={}, rej=0, sus=0, fm=0)
    rep = gen.acc_obj(d)
    inside = list(d["chars"])
    group = "".join(chr(r.choice(inside) if r.random() < 0.8 else r.choice(pool))
                    for _ in range(m))
    ctx.put("group", enc(group))
    ctx.put("r", rep.format())
    check_equal("groupacc of %d characters and a group of %d" % (n, m),
                ctx.ok("groupacc", ["group", "r"], cpu=CPU), expected(group, rep))
    ctx.mark()


def group_cases(tier, rng):
    for n, m in ((300, 255), (300, 256), (600, 257), (1000, 3000), (5000, 5000),
                 (20000, 70000), (66000, 66000), (3, 66000), (256, 1)) * (3 if tier == "quick" else 15):
        yield [n, m, rng.randrange(10 ** 9)]


def wac_big(n, order, seed, share=1.0):
    r = random.Random(seed)
    ws = [word(i, 4) for i in range(n)]
    if order == "random":
        r.shuffle(ws)
    stop = {w: [r.choice([1, 2, 300, 99999999]), 1] for w in ws[::3] if r.random() < share}
    non = {"q" + w: [r.choice([1, 2, 300, 70000]), r.randint(0, 1)] for w in ws
           if r.random() < share}
    return dict(stop=stop, non=non, phrase={i: [9000 + i, 40 * i] for i in range(1, 9)})


def check_wac_sum(ctx, case):
    from .c20 import total
    n, order, seed = case
    objs = [gen.wac_obj(wac_big(n, order, seed + i, (1, 0.5, 0.2)[i])) for i in range(3)]
    names = [ctx.put("r%d" % i, o.format()) for i, o in enumerate(objs)]
    check_equal("wordaccsum of reports of %d words" % n,
                ctx.ok("wordaccsum", names, cpu=CPU), total(objs).format())
    ctx.put("part", ctx.ok("wordaccsum", names[:2], cpu=CPU))
    check_equal("wordaccsum of a partial sum of %d words" % n,
                ctx.ok("wordaccsum", [names[2], "part"], cpu=CPU), total(objs).format())
    ctx.mark(order)


def wac_sum_cases(tier, rng):
    for n in (200, 255, 256, 350, 520, 1100, 4000, 15000) * (3 if tier == "quick" else 15):
        yield [n, rng.choice(["up", "random"]), rng.randrange(10 ** 9)]
    yield [100000, "random", rng.randrange(10 ** 9)]


def check_nonstop(ctx, case):
    from .c21 import expected
    n, k, seed = case
    r = random.Random(seed)
    rep = gen.wac_obj(wac_big(n, "up", seed))
    ws = list(rep.stop) + list(rep.non)
    stop = " ".join(r.choice(ws) if r.random() < 0.7 else "no%d" % r.randrange(k)
                    for _ in range(k))
    if r.random() < 0.3:
        r.shuffle(ws)
        stop = "\n".join(ws)
    ctx.put("stop", enc(stop))
    ctx.put("r", rep.format())
    check_equal("nonstopacc with %d stopwords" % k,
                ctx.ok("nonstopacc", ["stop", "r"], cpu=CPU), expected(stop, rep))
    ctx.mark()


def nonstop_cases(tier, rng):
    for n, k in ((100, 111), (200, 254), (300, 300), (500, 520), (700, 1000), (3000, 1500),
                 (50, 66000), (9000, 9000)) * (4 if tier == "quick" else 20):
        yield [n, k, rng.randrange(10 ** 9)]


# ---- C17 to C19: words

def check_segments(ctx, case):
    from .c17 import table, wordfreq_output
    kind, n, seed = case
    r = random.Random(seed)
    if kind == "long word":
        t = "a" * n + " " + "b1" * (n // 2) + " c"
    elif kind == "marks":
        t = "a" + "\u0301" * n + "b"
    elif kind == "combining":
        t = "e\u0301" * n
    elif kind == "format":
        t = "a" + "\u00ad" * n + "." + "\u200d" * n + "b"
    elif kind == "apostrophes":
        t = "a'" * n + "b"
    elif kind == "numbers":
        t = "1,2." * n + "3"
    elif kind == "wide":
        t = "\U00010400" * n + "\u3042" * n + "\u30a2" * n
    elif kind == "flags":
        t = "\U0001F1E6" * n
    else:
        t = "".join(chr(r.choice(r.choice(gen.word_cps()))) for _ in range(n))
    ctx.put("f", enc(t))
    check_equal("wordfreq (%s, %d)" % (kind, n), ctx.ok("wordfreq", ["f"], cpu=CPU),
                wordfreq_output(table(words.words(enc(t)))))
    ctx.mark(kind)


def segment_cases(tier, rng):
    for kind in ("long word", "marks", "combining", "format", "apostrophes", "numbers",
                 "wide", "flags", "random", "random"):
        for n in (100, 255, 256, 257, 1023, 1024, 4096, 32768) if tier == "quick" else WIDTHS:
            yield [kind, n, rng.randrange(10 ** 9)]


def check_frequencies(ctx, case):
    """Words whose frequencies differ by much, or by one around a width."""
    from .c17 import table, wordfreq_output
    ns, seed = case
    ws = [w for i, n in enumerate(ns) for w in [word(seed + i, 3)] * n]
    half = len(ws) // 2
    names = [ctx.put("f0", " ".join(ws[:half])), ctx.put("f1", "\n".join(ws[half:]))]
    check_equal("wordfreq with frequencies %s" % brief(ns),
                ctx.ok("wordfreq", names, cpu=CPU), wordfreq_output(table(ws)))
    ctx.mark()


def frequency_cases(tier, rng):
    for n in WIDTHS:
        ns = [n, 1, 2, n + 1, n // 2, 40]
        rng.shuffle(ns)
        yield [ns, rng.randrange(9999)]
    yield [[70000, 1, 3, 2], 5]
    yield [[2, 99999, 100000, 1], 5]


def check_word_report(ctx, case):
    """wordacc with given frequencies and word lengths."""
    kind, n, seed = case
    r = random.Random(seed)
    if kind == "frequency":
        a = ["zebra"] * n + ["the"] * (n // 2) + ["once"]
    elif kind == "distinct":
        a = [word(i) for i in range(n)]
    elif kind == "stopwords":
        a = [words.STOPWORDS[i % 110] for i in range(n)]
    elif kind == "length":
        a = ["x" * n, "x" * (n + 1), "\u00e9" * n, "the", "x" * (n // 2 + 1)]
    else:
        a = [word(r.randrange(max(2, n // 12))) for _ in range(n)]
    rec = [True] * len(a)
    b = list(a)
    if kind in ("distinct", "length"):
        # words found once: losing or replacing some is unambiguous
        for i in r.sample(range(len(a)), min(len(a) // 2, 20)):
            rec[i] = False
            b[i] = "gone"
    elif kind == "random":
        k = r.randrange(len(a))
        b = a[:k]
        rec = [i < k for i in range(len(a))]
        if len(b) > 8 and set(a[k:]) & set(b):
            b, rec = list(a), [True] * len(a)
    else:
        b = a + ["more"] * r.randrange(5)
    ctx.put("c", enc(" ".join(a)))
    ctx.put("g", enc("\n".join(b)))
    check_equal("wordacc (%s, %d)" % (kind, n), ctx.ok("wordacc", ["c", "g"], cpu=CPU),
                reports.wac_from_words(a, rec, set(words.STOPWORDS)).format())
    ctx.mark(kind)


def word_report_cases(tier, rng):
    for kind in ("frequency", "distinct", "stopwords", "length", "random"):
        for n in (50, 100, 110, 111) + WIDTHS:
            if n > 40000 and (kind != "length" or tier == "quick"):
                continue
            if n > 5000 and tier == "quick" and rng.random() < 0.6:
                continue
            yield [kind, n, rng.randrange(10 ** 9)]


# ---- C22: editop

def check_editop(ctx, case):
    from ocrv import moves
    kind, n, seed = case
    r = random.Random(seed)
    if kind == "ins":
        a, b = "x" * n + "ab", "ab"
        want = reports.Edo(n, 0, {})
    elif kind == "del":
        a, b = "ab", "ab" + "x" * n
        want = reports.Edo(0, n, {})
    elif kind == "rejects":
        a, b = "~" * n + "ab", "ab" + "~" * n
        want = reports.Edo(0, n, {})
    elif kind == "swap":
        x = "".join(cycle(n, seed))
        y = "".join(chr(0xAC00 + i % 3000) for i in range(n + 1))
        a, b = x + y, y + x
        want = reports.Edo(0, 0, {min(n, 100): 1})
    elif kind in ("long", "one long"):      # blocks of up to n characters, no character twice
        k = r.randint(3, 6)
        lens = [r.choice([n, r.randint(1, n), r.randint(1, 200), n - 1]) for _ in range(k)]
        if kind == "one long":
            lens = [r.randint(1, r.choice([5, 120])) for _ in range(k)]
            lens[r.randrange(k)] = n
        blocks, c = [], 0x10000
        for i, l in enumerate(lens):
            blocks.append((i + 1, "".join(chr(c + j) for j in range(l))))
            c += l
        a = "".join(x for _, x in blocks)
        r.shuffle(blocks)
        b = "".join(x for _, x in blocks)
        moved = {}
        for l in moves.count_moves([(i, len(x)) for i, x in blocks]):
            moved[min(l, 100)] = moved.get(min(l, 100), 0) + 1
        want = reports.Edo(0, 0, moved)
    else:
        blocks, c = [], 0x4E00
        for i in range(n):
            l = r.choice([1, 2, 3, 9])
            blocks.append("".join(chr(c + j) for j in range(l)))
            c += l
        a = "".join(blocks)
        if kind == "reversed":
            blocks.reverse()
        elif kind == "some":
            for _ in range(6):
                blocks.insert(r.randrange(n), blocks.pop(r.randrange(n)))
        else:
            r.shuffle(blocks)
        b = "".join(x + r.choice(["", "", "x"]) for x in blocks)
        want = moves.editop([ord(c) for c in a], [ord(c) for c in b])
    ctx.put("a", enc(a))
    ctx.put("b", enc(b))
    check_equal("editop (%s, %d)" % (kind, n), ctx.ok("editop", ["a", "b"], cpu=CPU),
                want.format())
    ctx.mark(kind)


def editop_cases(tier, rng):
    for n in (98, 99, 100, 101, 102, 199, 200) + WIDTHS:
        if n < 5000 or n % 32768 == 1 or tier == "thorough":
            yield ["swap", n, rng.randrange(10 ** 9)]
            yield ["rejects", n, rng.randrange(10 ** 9)]
        yield ["ins", n, rng.randrange(10 ** 9)]
        yield ["del", n, rng.randrange(10 ** 9)]
    for n in (110, 150, 200, 255, 256, 257, 500, 512, 1000, 1024, 1025, 2000, 2048, 3000,
              4095, 4096, 4097, 5000) + ((8192, 10000, 16384) if tier == "thorough" else ()):
        for i in range(56):
            yield ["one long" if i % 14 else "long", n, rng.randrange(10 ** 9)]
    for n in (40, 100, 130, 200, 260):
        for kind in ("reversed", "some", "shuffled"):
            yield [kind, n, rng.randrange(10 ** 9)]


# ---- reports from many files

def file_cases(*tools):
    def f(tier, rng):
        for tool in tools:
            for n in (100, 255, 256, 257, 512, 1000, 4097):
                yield [tool, n, rng.randrange(10 ** 9)]
            yield [tool, 33000, rng.randrange(10 ** 9)]
            yield [tool, 66000, rng.randrange(10 ** 9)]
    return f


def S(name, check, cases, rule):
    return Sub("large " + name, check, cases=cases, weight=1, rule=rule)


PAIRS = [S("pairs", c27.check_accuracy, pair_cases,
           "300 to 70,000 characters with a known alignment"),
         S("extremes", c27.check_extreme, extreme_cases,
           "distances and lengths about 255 to 65,536"),
         S("gaps", check_repeated, repeated_cases, "120 to 2,500 gaps")]


def subs(prop):
    """The sub-checks with large inputs of one property."""
    files = lambda *t: S("number of files", c27.check_files, file_cases(*t),
                         "100 to 4,097 (66,000) input files")
    return {
        "C01": lambda: [S("files", check_read, read_cases, "raw files of 3 to 66 kB"),
                        S("lines", check_long_line, long_line_cases,
                          "long header lines, blank runs, mark runs")],
        "C02": lambda: [S("offsets", check_deep, deep_cases,
                          "malformed and rare sequences at buffer boundaries")],
        "C04": lambda: PAIRS,
        "C05": lambda: PAIRS + [S("counts", check_counts, count_cases,
                                  "each figure of a report at 254 to 65,537"),
                                S("confusions", c27.check_confusions, lambda t, r: [
                                    [n, r.randrange(10 ** 9), o] for n in
                                    (256, 504, 1100) for o in ("up", "down", "random")],
                                  "hundreds of different confusions")],
        "C06": lambda: PAIRS + [S("marks", check_counts, count_cases,
                                  "texts of 254 to 65,537 marked characters")],
        "C07": lambda: [S("blocks", check_multi, multi_cases, "100 to 1,100 gaps"),
                        S("identical", c27.check_identical,
                          only(c27.identical_cases, "synctext"), "30,000 to 140,000")],
        "C08": lambda: [S("blocks", check_transposed, transposed_cases,
                          "long blocks, 60 to 900 blocks")],
        "C09": lambda: [S("gaps", check_votes, vote_cases, "100 to 520 gaps"),
                        S("columns", check_columns, column_cases, "250 to 65,537 columns"),
                        S("identical", c27.check_identical,
                          only(c27.identical_cases, "vote"), "30,000 to 140,000")],
        "C10": lambda: [S("ranking", check_ranking, ranking_cases,
                          "up to 66,000 different pairs and pairs occurring often")],
        "C11": lambda: [S("reports", c27.check_big_reports, lambda t, r: [
                              [n, o, r.randrange(10 ** 9)] for n in (300, 520, 3000, 66000)
                              for o in ("up", "down", "equal", "random")],
                          "reports with 300 to 3,000 confusions"), files("accsum")],
        "C13": lambda: [S("groups", check_group, group_cases, "groups of up to 70,000")],
        "C14": lambda: [files("accci", "wordaccci")],
        "C15": lambda: [files("accdist", "wordaccdist")],
        "C16": lambda: [S("texts", c27.check_ngram, c27.ngram_cases,
                          "70,000 characters, ordered, random, repetitive"),
                        files("ngram")],
        "C17": lambda: [S("segments", check_segments, segment_cases,
                          "words and texts of 100 to 32,768 characters")],
        "C18": lambda: [S("frequencies", check_frequencies, frequency_cases,
                          "frequencies of 254 to 100,000"),
                        S("texts", c27.check_wordfreq, c27.wordfreq_cases,
                          "70,000 words and more"), files("wordfreq")],
        "C19": lambda: [S("sizes", check_word_report, word_report_cases,
                          "frequencies, lengths and numbers of words of 50 to 65,537"),
                        S("few shared", c27.check_few_shared, lambda t, r: [
                            [n, s, r.randrange(10 ** 9)] for n, s in
                            ((300, 256), (5000, 300), (66000, 10))],
                          "many words, few of them shared")],
        "C20": lambda: [S("reports", check_wac_sum, wac_sum_cases,
                          "reports of 200 to 15,000 words"), files("wordaccsum")],
        "C21": lambda: [S("stopwords", check_nonstop, nonstop_cases,
                          "111 to 40,000 stopwords")],
        "C22": lambda: [S("blocks", check_editop, editop_cases,
                          "blocks of 98 to 65,537 characters, 40 to 260 blocks")],
        "C23": lambda: [files("editopsum")],
    }.get(prop, lambda: [])()
