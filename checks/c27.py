"""Results stay exact for large inputs"""
import os
import random

from .inv import *

CPU = 60


def word(i, k=5):
    s = ""
    for _ in range(k):
        s += chr(97 + i % 26)
        i //= 26
    return s


def cycle(n, seed):
    """n characters, each differing from its 400 neighbours."""
    r = random.Random(seed)
    base = [chr(0x4E00 + i) for i in range(1500)]
    r.shuffle(base)
    return [base[i % 1500] for i in range(n)]


def known_pair(n, gap, seed):
    """(a, b, segments) of texts whose only minimal alignment is known."""
    r = random.Random(seed)
    src = cycle(n, seed)
    a, b, segs = [], [], []
    foreign = [chr(0x3B1 + i) for i in range(15)]
    at = [0, 0]

    def add(match, x, y):
        if match and segs and segs[-1][0]:
            p = segs[-1][1]
            segs[-1] = (True, ((p[0][0], at[0] + len(x)), (p[1][0], at[1] + len(y))))
        else:
            segs.append((match, ((at[0], at[0] + len(x)), (at[1], at[1] + len(y)))))
        a.extend(x)
        b.extend(y)
        at[0] += len(x)
        at[1] += len(y)

    i = 0
    while i < n:
        k = min(n - i, r.randint(gap // 2, gap))
        add(True, src[i:i + k], src[i:i + k])
        i += k
        if i >= n:
            break
        l = min(r.choice([1, 1, 1, 2, 3, 9, 30]), gap // 5)
        what = r.choice("sid")
        other = [r.choice(foreign) for _ in range(l)]
        if what == "s" and i + l < n:
            add(False, src[i:i + l], other)
            i += l
        elif what == "i":
            add(False, [], other)
        elif i + l < n:
            add(False, src[i:i + l], [])
            i += l
    return "".join(a), "".join(b), segs


def plain(s):
    return [(ord(c), False) for c in s]


# ---- accuracy and synctext

def check_accuracy(ctx, case):
    n, gap, seed = case
    a, b, segs = known_pair(n, gap, seed)
    ctx.put("c", a)
    ctx.put("g", b)
    ta, tb = plain(a), plain(b)
    check_equal("accuracy of %d characters" % n, ctx.ok("accuracy", ["c", "g"], cpu=CPU),
                reports.acc_from_alignment(ta, tb, segs).format())
    check_equal("synctext of %d characters" % n, ctx.ok("synctext", ["c", "g"], cpu=CPU),
                synctext_output(["c", "g"], [ta, tb], segs))
    ctx.mark("%d errors" % (sum(1 for s in segs if not s[0]) // 100 * 100))


def accuracy_cases(tier, rng):
    sizes = [(70000, 3000), (66000, 400), (131080, 5000), (30000, 60), (9000, 20),
             (200000, 9000), (40000, 150), (65536, 30000)]
    if tier == "thorough":
        sizes += [(400000, 9000), (1000000, 50000), (100000, 150)]
        sizes *= 3
    for n, gap in sizes:
        yield [n, gap, rng.randrange(10 ** 9)]


def check_extreme(ctx, case):
    """Texts with nothing in common, or of one repeated character."""
    kind, m, n = case
    if kind == "apart":
        a, b, d = "a" * m, "b" * n, max(m, n)
        segs = [(False, ((0, m), (0, n)))]
    elif kind == "same char":
        a, b, d = "a" * m, "a" * n, abs(m - n)
    elif kind == "rejects":
        a, b, d = "ab" * (m // 2), "~" * n, max(m // 2 * 2, n)
        segs = [(False, ((0, len(a)), (0, n)))]
    elif kind == "empty":
        a, b, d = "abc" * m, "", 3 * m
        segs = [(False, ((0, len(a)), (0, 0)))]
    else:
        a, b, d = "abcd " * m + "x", "abcd " * m + "x", 0
        segs = [(True, ((0, len(a)), (0, len(a))))]
    ctx.put("c", a)
    ctx.put("g", b)
    out = ctx.ok("accuracy", ["c", "g"], cpu=CPU)
    rep = reports.parse_acc(out)
    require((rep.characters, rep.errors) == (len(a), d),
            "accuracy (%s): %s characters, %s errors, expected %s, %s", kind,
            rep.characters, rep.errors, len(a), d)
    if kind != "same char":
        ta, tb = text.read(enc(a)), text.read(enc(b))
        check_equal("accuracy (%s)" % kind, out,
                    reports.acc_from_alignment(ta, tb, segs).format())
        check_equal("synctext (%s)" % kind, ctx.ok("synctext", ["c", "g"], cpu=CPU),
                    synctext_output(["c", "g"], [ta, tb], segs))
    ctx.mark(kind)


def extremes(tier, rng):
    big = 6000 if tier == "thorough" else 2500
    for m, n in ((big, big), (big, 3), (3, big), (big, big // 2)):
        yield ["apart", m, n]
        yield ["rejects", m, n]
    for m, n in ((100000, 99000), (70000, 70000), (65537, 65535), (65535, 65537),
                 (2000, 0), (1, 2000), (33000, 32000)):
        yield ["same char", m, n]
    yield ["empty", big // 3, 0]
    yield ["equal", 20000, 0]
    yield ["equal", 13107, 0]


# ---- confusions and characters

def check_confusions(ctx, case):
    """Thousands of different confusions and characters."""
    n, seed, order = case
    r = random.Random(seed)
    src = [chr(0x4E00 + i) for i in range(n)]
    dst = [chr(0xAC00 + i) for i in range(n)]
    if order == "random":
        r.shuffle(src)
        r.shuffle(dst)
    elif order == "down":
        src.reverse()
    a, b, segs = [], [], []
    # anchored by characters from another block, longer than any detour
    for i in range(n):
        anchor = [chr(0x13000 + (i * 2 + k) % 1000) for k in range(2)]
        segs.append((True, ((len(a), len(a) + 2), (len(b), len(b) + 2))))
        a += anchor
        b += anchor
        segs.append((False, ((len(a), len(a) + 1), (len(b), len(b) + 1))))
        a.append(src[i])
        b.append(dst[i])
    ctx.put("c", "".join(a))
    ctx.put("g", "".join(b))
    ta, tb = plain("".join(a)), plain("".join(b))
    rep = reports.acc_from_alignment(ta, tb, segs)
    out = ctx.ok("accuracy", ["c", "g"], cpu=CPU)
    check_equal("accuracy with %d confusions" % n, out, rep.format())
    ctx.put("r", out)
    total = reports.Acc()
    total.add(rep)
    total.add(rep)
    check_equal("accsum with %d confusions" % n, ctx.ok("accsum", ["r", "r"], cpu=CPU),
                total.format())
    ctx.put("group", "".join(src))
    from .c13 import expected
    check_equal("groupacc with %d characters" % n,
                ctx.ok("groupacc", ["group", "r"], cpu=CPU),
                expected("".join(src), rep))
    ctx.mark("%d confusions" % n)


def confusion_cases(tier, rng):
    for n in (1000, 3000) + ((6000,) if tier == "thorough" else ()):
        for order in ("up", "down", "random"):
            yield [n, rng.randrange(10 ** 9), order]


def check_big_reports(ctx, case):
    """accsum of large ordered reports."""
    n, order, seed = case
    r = random.Random(seed)
    base = 0x4E00 if n < 30000 else 0x20000
    keys = [(base + i, base + 1 + i) for i in range(n)]
    if order == "down":
        keys.reverse()
    elif order == "random":
        r.shuffle(keys)
    e = {"up": lambda i: i + 1, "down": lambda i: n - i, "equal": lambda i: 3,
         "random": lambda i: r.randint(1, 999999)}[order]
    d = dict(chars={97: [999999999, 5]}, conf={}, rej=0, sus=0, fm=0)
    for i, (x, y) in enumerate(keys):
        k = e(i)
        d["conf"][reports.conf_key([x], [y])] = [k, k // 2]
        d["chars"][x] = [k, k]
    rep = gen.acc_obj(d)
    ctx.put("r", rep.format())
    total = reports.Acc()
    total.add(rep)
    total.add(rep)
    check_equal("accsum of %d confusions (%s)" % (n, order),
                ctx.ok("accsum", ["r", "r"], cpu=CPU), total.format())
    ctx.mark(order)


def big_report_cases(tier, rng):
    for n in (5000, 20000) if tier == "thorough" else (12000,):
        for order in ("up", "down", "equal", "random"):
            yield [n, order, rng.randrange(10 ** 9)]


# ---- n-grams and words

def check_ngram(ctx, case):
    from .c16 import count, expected
    kind, n, k, seed = case
    r = random.Random(seed)
    if kind == "random":
        t = "".join(chr(0x4E00 + r.randrange(150)) for _ in range(n))
    elif kind == "up":
        t = "".join(chr(0x4E00 + i % 20000) for i in range(n))
    elif kind == "down":
        t = "".join(chr(0x4E00 + 20000 - i % 20000) for i in range(n))
    elif kind == "different":
        pool = [chr(c) for c in range(0x4E00, 0x9F00)] + \
               [chr(c) for c in range(0xAC00, 0xD700)] + [chr(c) for c in range(0x20000, 0x2A000)]
        t = "".join(pool[:n] if k == 1 else [r.choice(pool) for _ in range(n)])
    elif kind == "marked":
        t = "^a" * (n - 300) + "".join(r.choice(["a", "^a", "^b", "b"]) for _ in range(n))
    elif kind == "lines":
        t = "".join("ab\n" if i % 3 else "^a b\n" for i in range(n // 3))
    else:
        t = "^a" * 10 + "a" * n
    ctx.put("f", enc(t))
    check_equal("ngram -n%d of %d characters (%s)" % (k, n, kind),
                ctx.ok("ngram", ["-n%d" % k, "f"], cpu=CPU),
                expected(count([text.read(enc(t))], k)))
    ctx.mark(kind)


def ngram_cases(tier, rng):
    n = 300000 if tier == "thorough" else 70000
    for k in (1, 2, 3):
        for kind in ("random", "up", "down", "lines", "equal", "marked"):
            yield [kind, n if kind in ("lines", "equal", "marked") or k < 3 else n // 2, k,
                   rng.randrange(10 ** 9)]
        yield ["different", 70000, k, rng.randrange(10 ** 9)]


def check_wordfreq(ctx, case):
    from .c17 import table, wordfreq_output
    kind, n, seed = case
    r = random.Random(seed)
    ws = {"up": lambda: sorted(word(i) for i in range(n)),
          "down": lambda: sorted((word(i) for i in range(n)), reverse=True),
          "random": lambda: [word(r.randrange(n)) for _ in range(n)],
          "equal": lambda: ["same"] * n,
          "few": lambda: [word(r.randrange(30)) for _ in range(n)],
          "alike": lambda: ["abcd" + word(i) for i in range(n)],
          "long": lambda: ["".join(r.choice("abcde") for _ in range(k)) for k in (
              65535, 65536, 70000, 40000, n, 3)] + ["x" * n] * 2,
          "counts": lambda: [word(i) for i in range(n // 100) for _ in range(i % 200)],
          }[kind]()
    ctx.put("f", " ".join(ws))
    check_equal("wordfreq of %d words (%s)" % (len(ws), kind),
                ctx.ok("wordfreq", ["f"], cpu=6 if kind == "alike" else CPU),
                wordfreq_output(table(ws)))
    ctx.mark(kind)


def wordfreq_cases(tier, rng):
    n = 70000
    for kind in ("up", "down", "random", "equal", "few", "long", "counts"):
        yield [kind, n * (2 if kind in ("equal", "few") else 1), rng.randrange(10 ** 9)]
    yield ["alike", 60000, rng.randrange(10 ** 9)]


def check_wordacc(ctx, case):
    """Words are inserted, lost or replaced by words found nowhere else, so that
    the recognised words are known."""
    n, extra, seed, refuse = case
    r = random.Random(seed)
    a = [word(i) for i in range(n)] if seed % 2 else ["the"] * n
    b, rec = [], []
    if not refuse and not (extra == 0):
        for i, w in enumerate(a):
            x = r.random()
            if x < extra and seed % 2:
                rec.append(False)
                if x < extra / 2:
                    b.append("new" + word(i, 6))
            else:
                rec.append(True)
                b.append(w)
                if x > 1 - extra:
                    b.append("more" + word(i, 7))
    else:
        b, rec = list(a), [True] * n
    ctx.put("c", " ".join(a))
    ctx.put("g", " ".join(b))
    if refuse:
        r_ = ctx.run("wordacc", ["c", "g"], cpu=CPU)
        refused(r_, "wordacc", "%d shared words" % n)
        require(r_.out == b"", "wordacc: a result for too many words")
    else:
        want = reports.wac_from_words(a, rec, set(words.STOPWORDS))
        check_equal("wordacc of %d words" % n, ctx.ok("wordacc", ["c", "g"], cpu=CPU),
                    want.format())
    ctx.mark("refused" if refuse else "counted")


def wordacc_cases(tier, rng):
    odd, even = rng.randrange(10 ** 9) * 2 + 1, rng.randrange(10 ** 9) * 2
    yield [65535, 0, odd, False]
    yield [65535, 0, even, False]
    yield [65536, 0, odd, True]
    yield [65536, 0, even, True]
    yield [70000, 0, odd, True]
    yield [131072, 0, even, True]
    yield [131072 + 5, 0, even, True]
    yield [20000, 0.01, odd, False]
    yield [5000, 0.1, odd, False]
    yield [60000, 0.002, odd, False]
    yield [33000, 0.002, even, False]


def check_few_shared(ctx, case):
    """Many more than 65,535 words, but few of them shared."""
    n, shared, seed = case
    r = random.Random(seed)
    at = sorted(r.sample(range(n), shared))
    keep = set(at)
    a = [word(i) for i in range(n)]
    b = ["z" + word(i, 6) if i not in keep else a[i] for i in range(n)]
    ctx.put("c", " ".join(a))
    ctx.put("g", "\n".join(b))
    want = reports.wac_from_words(a, [i in keep for i in range(n)], set(words.STOPWORDS))
    check_equal("wordacc of %d words, %d shared" % (n, shared),
                ctx.ok("wordacc", ["c", "g"], cpu=CPU), want.format())
    ctx.mark()


def few_shared_cases(tier, rng):
    for n, s in ((70000, 5000), (66000, 1), (80000, 0), (100000, 30000)):
        yield [n, s, rng.randrange(10 ** 9)]


# ---- many files

def check_files(ctx, case):
    tool, n, seed = case
    r = random.Random(seed)
    distinct = 7
    if tool in ("ngram", "wordfreq"):
        ts = ["%s %s" % (word(r.randrange(20)), "ab^c" if i else "") for i in range(distinct)]
        for i, t in enumerate(ts):
            ctx.put("%d" % i, t)
    elif tool in ("accsum", "accdist", "accci"):
        ts = [gen.acc_obj(dict(chars={97 + i: [10 + i * 7, i], 98: [3, 1]},
                               conf={reports.conf_key([97 + i], [98]): [i + 1, 1]}, rej=i,
                               sus=1, fm=0)) for i in range(distinct)]
        for i, t in enumerate(ts):
            ctx.put("%d" % i, t.format())
    elif tool in ("wordaccsum", "wordaccdist", "wordaccci"):
        ts = [gen.wac_obj(dict(stop={"the": [i + 1, 1]}, non={word(i): [20 + i, i]},
                               phrase={1: [21 + 2 * i, i + 1]})) for i in range(distinct)]
        for i, t in enumerate(ts):
            ctx.put("%d" % i, t.format())
    else:
        ts = [gen.edo_obj(dict(ins=i, dele=2 * i, moves={i + 1: i + 2, 100: 1}))
              for i in range(distinct)]
        for i, t in enumerate(ts):
            ctx.put("%d" % i, t.format())
    pick = [r.randrange(distinct) for _ in range(n)]
    # (a file descriptor is needed for one input at a time)
    out = ctx.ok(tool, ["%d" % p for p in pick], cpu=CPU, nofile=100)
    if tool == "ngram":
        from .c16 import count, expected
        per = [text.read(enc(t)) for t in ts]
        want = expected(count([per[p] for p in pick], 1))
    elif tool == "wordfreq":
        from .c17 import table, wordfreq_output
        per = [words.words(enc(t)) for t in ts]
        want = wordfreq_output(table([w for p in pick for w in per[p]]))
    elif tool.endswith("sum"):
        total = {"accsum": reports.Acc, "wordaccsum": reports.Wac,
                 "editopsum": reports.Edo}[tool]()
        for p in pick:
            total.add(ts[p])
        want = total.format()
    else:
        if tool.startswith("word"):
            pairs = [(t.total[0], t.total[1]) for t in ts]
        else:
            pairs = [(t.characters, t.errors) for t in ts]
        use = [pairs[p] for p in pick]
        if tool.endswith("dist"):
            from .c15 import verify
            verify(tool, out, use)
        else:
            from .c14 import verify
            verify(out, use, tool)
        ctx.mark(tool)
        return
    check_equal("%s of %d files" % (tool, n), out, want)
    ctx.mark(tool)


def file_cases(tier, rng):
    for tool in ("ngram", "wordfreq", "accsum", "wordaccsum", "editopsum", "accdist",
                 "wordaccdist", "accci", "wordaccci"):
        yield [tool, 300, rng.randrange(10 ** 9)]
        yield [tool, rng.choice([1021, 1024, 1025, 1500]), rng.randrange(10 ** 9)]
        yield [tool, 33000, rng.randrange(10 ** 9)]
        yield [tool, 70000, rng.randrange(10 ** 9)]


# ---- blocks

def check_blocks(ctx, case):
    """Many match blocks in the multi-file and the transposed alignment."""
    kind, n, l, seed = case
    r = random.Random(seed)
    # lengths differ so that the longest match is always clear
    blocks, c = [], 0x4E00
    for i in range(n):
        blocks.append("".join(chr(c + k) for k in range(l + i % 5)))
        c += l + i % 5
    if c > 0xFFFF:
        raise Broken("too many characters")
    if kind == "multi":
        k = r.randint(2, 5)
        texts_ = ["".join(b + r.choice(["", "x", "yx", "~"]) for b in blocks)
                  for _ in range(k)]
        names = [ctx.put("f%d" % i, enc(t)) for i, t in enumerate(texts_)]
        ts = [text.read(enc(t)) for t in texts_]
        check_equal("synctext -H with %d blocks" % n,
                    ctx.ok("synctext", ["-H"] + names, cpu=CPU),
                    synctext_output(names, ts, sync.multi_segments([cps(t) for t in ts])))
        from .c09 import expected
        check_equal("vote with %d blocks" % n, ctx.ok("vote", names, cpu=CPU),
                    expected(ts, None, None))
    else:
        perm = r.sample(blocks, n)
        a, b = "".join(blocks), "".join(perm)
        if kind == "moved some":
            perm = list(blocks)
            for _ in range(8):
                perm.insert(r.randrange(n), perm.pop(r.randrange(n)))
            b = "".join(perm)
        ctx.put("c", enc(a))
        ctx.put("g", enc(b))
        from ocrv import moves
        ta, tb = cps(text.read(enc(a))), cps(text.read(enc(b)))
        check_equal("editop with %d blocks" % n, ctx.ok("editop", ["c", "g"], cpu=CPU),
                    moves.editop(ta, tb).format())
    ctx.mark(kind)


def block_cases(tier, rng):
    top = 2 if tier == "thorough" else 1
    for n in (300, 700 * top):
        yield ["multi", n, 3, rng.randrange(10 ** 9)]
    yield ["multi", 1200, 1, rng.randrange(10 ** 9)]
    for n in (130, 260 * top):
        yield ["moved", n, 2, rng.randrange(10 ** 9)]
        yield ["moved some", n * 2, 3, rng.randrange(10 ** 9)]


def check_identical(ctx, case):
    """Long texts that are identical, or identical but for their end."""
    tool, n, tail, seed = case
    t = "".join(cycle(n, seed))
    u = t + "Z" * tail
    ctx.put("a", enc(t))
    ctx.put("b", enc(u))
    if tool == "vote":
        check_equal("vote of %d characters" % n, ctx.ok("vote", ["a", "b", "a"], cpu=CPU),
                    enc(t))
        check_equal("vote of %d characters" % n, ctx.ok("vote", ["b", "b", "a"], cpu=CPU),
                    enc(u))
    elif tool == "editop":
        check_equal("editop of %d characters" % n, ctx.ok("editop", ["b", "a"], cpu=CPU),
                    reports.Edo(tail, 0, {}).format())
        check_equal("editop of %d characters" % n, ctx.ok("editop", ["a", "b"], cpu=CPU),
                    reports.Edo(0, tail, {}).format())
    else:
        segs = [(True, ((0, n), (0, n)))] + (
            [(False, ((n, n), (n, n + tail)))] if tail else [])
        check_equal("synctext -H of %d characters" % n,
                    ctx.ok("synctext", ["-H", "a", "b"], cpu=CPU),
                    synctext_output(["a", "b"], [plain(t), plain(u)], segs))
    ctx.mark(tool)


def identical_cases(tier, rng):
    for tool in ("vote", "editop", "synctext"):
        for n in (30000, 70000, 140000):
            yield [tool, n, rng.choice([0, 1, 5]), rng.randrange(10 ** 9)]


def check_lines(ctx, case):
    """Long lines and words, long terms in reports."""
    n, seed = case
    r = random.Random(seed)
    w = "".join(r.choice("abcdefg") for _ in range(n))
    ws = [w, w[:n // 2], w + "x", "q"]
    ctx.put("c", " ".join(ws))
    ctx.put("g", " ".join([w, w + "x", "z" * n]))
    rep = reports.wac_from_words(ws, [True, False, True, False], set(words.STOPWORDS))
    out = ctx.ok("wordacc", ["c", "g"], cpu=CPU)
    check_equal("wordacc of words of %d characters" % n, out, rep.format())
    ctx.put("r", out)
    total = reports.Wac()
    for _ in range(3):
        total.add(rep)
    check_equal("wordaccsum of words of %d characters" % n,
                ctx.ok("wordaccsum", ["r", "r", "r"], cpu=CPU), total.format())
    ctx.put("s", w[:n // 2] + " " + w)
    from .c21 import expected
    check_equal("nonstopacc of words of %d characters" % n,
                ctx.ok("nonstopacc", ["s", "r"], cpu=CPU),
                expected(w[:n // 2] + " " + w, rep))
    ctx.mark()


def line_cases(tier, rng):
    for n in (60, 98, 99, 100, 101, 255, 256, 499, 1000, 4096, 32767, 32768, 65536, 100000):
        yield [n, rng.randrange(10 ** 9)]


def check_millions(ctx, case):
    """Counts that need more than 24 bits."""
    tool, n, off = case
    c, d, e = ((b"a", b"b", b"c"), (b"\xc3\xa9", b"b", b"\xc4\x80"))[off % 2]
    if tool == "vote":
        short, long_ = c * n, c * (n + 1)
        ctx.put("x", long_ + e)
        ctx.put("y", short + d)
        for names, w in ((["y", "x"], short + d), (["x", "y"], long_ + e)):
            # one pair occurs once more in x; three occur in one of them only:
            # medians in the middle, equal distances, order of the arguments
            out = ctx.ok("vote", ["-O", "-D"] + names, cpu=CPU)
            check_equal("distances of texts of %d characters" % n, out[:out.index(c * 99)],
                        b"        1.5 %s\n        1.5 %s\n" % tuple(
                            x.encode() for x in names))
            require(out[-len(w):] == w and len(out) == len(w) + 28,
                    "vote -O of %d characters: not the text given first", n)
    elif tool == "ngram":
        from .c16 import expected
        ctx.put("f", c * n + d)
        cs = [ord(x.decode()) for x in (c, d)]
        for k in (1, 3):
            check_equal("ngram -n%d of %d characters" % (k, n),
                        ctx.ok("ngram", ["-n%d" % k, "f"], cpu=CPU),
                        expected({(cs[0],) * k: [n + 1 - k, 0],
                                  (cs[0],) * (k - 1) + (cs[1],): [1, 0]}))
    elif tool == "accuracy":
        ctx.put("x", c * n + d)
        ctx.put("y", c * n + e * 2)
        cp = ord(c.decode())
        rep = reports.Acc()
        rep.characters, rep.errors = n + 1, 2
        rep.unmarked = [0, 1, 1, 2]
        rep.total = [0, 1, 1, 2]
        rep.conf = {reports.conf_key([98], [ord(e.decode())] * 2): [2, 0]}
        rep.chars = {cp: [n, 0], 98: [1, 1]}
        out = ctx.ok("accuracy", ["x", "y", "r"], cpu=CPU)
        with open("r", "rb") as f:
            out = f.read()
        check_equal("accuracy of %d characters" % n, out, rep.format())
        total = reports.Acc()
        for _ in range(40):
            total.add(rep)
        check_equal("sum of forty reports on %d characters" % n,
                    ctx.ok("accsum", ["r"] * 40, cpu=CPU), total.format())
    else:
        from .c17 import wordfreq_output
        ctx.put("f", b"ab" + b" ab" * (n - 1) + b" ba")
        check_equal("wordfreq of %d words" % n, ctx.ok("wordfreq", ["f"], cpu=CPU),
                    wordfreq_output({"ab": n, "ba": 1}))
    ctx.mark(tool)


def million_cases(tier, rng):
    yield ["vote", 2 ** 24 + 2, 0]
    yield ["ngram", 2 ** 24 + 2 + rng.randrange(9), 1]
    yield ["accuracy", 10 ** 7 + rng.randrange(9), 1]
    yield ["wordfreq", 10 ** 6 + rng.randrange(9), 0]
    if tier == "thorough":
        yield ["wordfreq", 10 ** 7 + rng.randrange(9), 0]
        yield ["accuracy", 2 ** 24 + 1 + rng.randrange(9), 0]
        yield ["vote", 2 ** 24 + 18, 1]


SUBS = [
    Sub("long texts", check_accuracy, cases=accuracy_cases, weight=3,
        rule="9,000 to 200,000 characters with a known alignment"),
    Sub("extremes", check_extreme, cases=extremes, weight=2,
        rule="nothing in common, one repeated character, lengths about 65,536"),
    Sub("confusions", check_confusions, cases=confusion_cases, weight=2,
        rule="thousands of different confusions"),
    Sub("big reports", check_big_reports, cases=big_report_cases, weight=1,
        rule="ordered and repetitive reports with 12,000 confusions"),
    Sub("n-grams", check_ngram, cases=ngram_cases, weight=2,
        rule="70,000 characters, ordered, random, repetitive"),
    Sub("words", check_wordfreq, cases=wordfreq_cases, weight=2,
        rule="70,000 and more words, ordered, repetitive, long"),
    Sub("wordacc", check_wordacc, cases=wordacc_cases, weight=3,
        rule="up to the limit of 65,535 shared words and beyond"),
    Sub("few shared", check_few_shared, cases=few_shared_cases, weight=2,
        rule="more than 65,535 words, fewer shared"),
    Sub("many files", check_files, cases=file_cases, weight=3,
        rule="300 to 70,000 input files"),
    Sub("blocks", check_blocks, cases=block_cases, weight=3,
        rule="hundreds of match blocks"),
    Sub("identical", check_identical, cases=identical_cases, weight=1,
        rule="long texts that differ at the end at most"),
    Sub("long words", check_lines, cases=line_cases, weight=1,
        rule="words of 60 to 100,000 characters"),
    Sub("millions", check_millions, cases=million_cases, weight=3,
        rule="texts of 10 to 17 million characters, counts that need more than 24 bits"),
]
