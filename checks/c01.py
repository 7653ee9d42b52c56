"""Every tool reads text the same documented way"""
from .inv import *
from ocrv import voting

BLANKISH = [chr(c) for c in range(0x110000) if not 0xD800 <= c < 0xE000 and
            c not in (32,) and text.is_blank(c)]
PLAIN_EXACT = ("ngram", "synctext", "vote")


# ---- exact: what a tool understood of one raw file

def check_exact(ctx, case):
    """One raw file through synctext -s, vote, ngram and wordfreq."""
    raw, head = case
    data = head + enc(raw)
    ctx.put("f", data)
    ctx.put("e", b"")
    t = text.read(data)
    segs = [(False, ((0, len(t)), (0, 0)))] if t else []
    check_equal("synctext -s of one text and an empty one",
                ctx.ok("synctext", ["-s", "f", "e"]),
                synctext_output(["f", "e"], [t, []], segs, True))
    check_equal("vote of a text with itself", ctx.ok("vote", ["f", "f"]),
                voting.render(voting.vote([t, t])))
    from .c16 import count, expected
    check_equal("ngram", ctx.ok("ngram", ["-n2", "f"]), expected(count([t], 2)))
    plain = [c for c in data.decode("utf-8", "replace") if c != "^"] \
        if not head else None
    if plain is None or [ord(c) for c in plain] != cps(t):
        ctx.mark("header" if head else "no header")
    if any(c == 32 and s for c, s in t):
        ctx.label("marked blank")


HEADS = [
    gen.header(), gen.header(()), gen.header(("a", "b", "", "c")),
    gen.header().replace("7.0", "6.1"), gen.header().replace(" 7.0", " "),
    # never a second divider: nothing is left
    gen.header().rsplit("-" * 48, 1)[0], text.TITLE + "7.0\n", text.TITLE,
    gen.header().replace("\n", " \n"), gen.header().replace("-" * 48, "-" * 47),
    text.TITLE + "7.0\n" + "-" * 48 + "\n" + "-" * 48 + "\n",
    text.TITLE + "7.0\n" + "-" * 49 + "\n" + "-" * 48 + "\n\n" + "-" * 48 + "\n",
    text.TITLE + "7.0\n" + " " + "-" * 48 + "\n" + "-" * 48 + "\n~^\n" + "-" * 48 + "\n",
    # no headers
    " " + gen.header(), "\n" + gen.header(), "\ufeff" + gen.header(), gen.header()[1:],
    gen.header().lower(), text.TITLE[:-1] + "\n" + "-" * 48 + "\n" + "-" * 48 + "\n",
    "-" * 48 + "\n" + "-" * 48 + "\n", "ocreval Accuracy Report Version 7.0\n",
]
BADHEADS = [gen.header().encode().replace(b"some line", b"\xff\xfe\x80"),
            gen.header().encode().replace(b"some line", b"nul \0 nul")]


@st.composite
def raw(draw):
    k = draw(st.integers(0, 3))
    alpha = draw(st.sampled_from([
        "ab \n^", " \n^a", "a" + gen.BLANKY + "\n^", "a b\t^\n\r", "ab^~ ", gen.WEIRD,
        "".join(BLANKISH) + "xy^\n "]))
    if k == 0:
        return draw(gen.texts(1))[0]
    return draw(gen.string_over(alpha, (0, 1, 2, 3, 5, 8, 12, 20, 40)))


def exact():
    return st.tuples(raw(), st.one_of(st.just(b""), st.just(b""), st.sampled_from(
        [h.encode() for h in HEADS] + BADHEADS)))


# ---- headers with long lines

def check_header(ctx, case):
    """Only a whole line can be a divider, however long the lines are."""
    from .c16 import count, expected
    n, kind = case
    d = text.DIVIDER
    title, lines = text.TITLE + "7.0", ["a"]
    fill = ("x\0" * n)[:n] if kind.endswith("nul") else "-" * n if kind == "dashes" \
        else "x" * n
    if kind.startswith("end"):
        lines = [fill + d, "b", d]
    elif kind.startswith("start"):
        lines = [d + fill, d[1:] + fill, d]
    elif kind.startswith("title"):
        title += fill + d
        lines = [d]
    else:
        lines = [fill, d]
    data = enc("\n".join([title, d] + lines + ["qr", d, "st", d, "uv"]) + "\n")
    ctx.put("f", data)
    check_equal("the text after a header with a line of %d (%s)" % (n, kind),
                ctx.ok("ngram", ["-n1", "f"]), expected(count([text.read(data)], 1)))
    ctx.mark(kind)


def headers(tier, rng):
    for kind in ("end", "start", "title", "dashes", "line", "end nul", "title nul",
                 "line nul"):
        for n in list(range(0, 330)) + [448, 462, 463, 464, 510, 511, 512, 974, 975, 976,
                                        1023, 1024, 4047, 4048, 4095, 4096, 8191, 65536]:
            yield [n, kind]


# ---- re-spacing: every tool

def respace(draw, t, head):
    """Another raw file that reads as t."""
    out = []
    blank = lambda: draw(st.sampled_from([" ", " ", "\t"] + BLANKISH))

    def junk(lines):
        """Dropped blanks (and blank lines), possibly marked."""
        s = ""
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            s += draw(st.sampled_from(["", "", "^"])) + (
                "\n" if lines and draw(st.integers(0, 2)) == 0 else blank())
        return s

    start = True
    for cp, sus in t:
        mark = draw(st.sampled_from(["^", "^", "^^"])) if sus else ""
        if cp == 10:
            out.append(junk(False) + mark + "\n")
            start = True
            continue
        if start:
            out.append(junk(True))
            start = False
        if cp == 32:
            n = draw(st.integers(1, 3))
            marked = draw(st.integers(0, n - 1)) if sus else -1
            for i in range(n):
                out.append((mark if i == marked else "") + blank())
        else:
            out.append(mark + chr(cp))
    out.append(junk(start))
    if draw(st.integers(0, 9)) == 0:
        out.append("^")         # marks nothing
    s = "".join(out)
    return enc(s) if not head else head + enc(s)


def check_respaced(ctx, case):
    """A tool cannot tell a file from the same file with other spacing."""
    tool, args, files, other = case
    names = names_of(files)
    place(ctx, files, names)
    a = ctx.ok(tool, argv(args, names))
    ctx.clean()
    place(ctx, other, names)
    b = ctx.ok(tool, argv(args, names))
    check_equal("%s after changing extraneous spacing" % tool, b, a)
    if any(x[1] != y[1] for x, y in zip(files, other)):
        ctx.mark(tool)


@st.composite
def respaced(draw):
    tool, args, files = draw(invocations(TEXT_TOOLS, sizes=(1, 3, 6, 12)))
    other = []
    for role, data in files:
        if role in ("text", "correct"):
            t = text.read(data)
            other.append([role, respace(draw, t, gen.header().encode() if role == "text"
                                        and draw(st.integers(0, 4)) == 0 else b"")])
        elif role in ("group", "stop"):
            # no suspect marks in stopword files, no header in either
            t = text.read(data, header=False, markers=False)
            s = respace(draw, [(c, False) for c, _ in t], b"").replace(b"^", b"")
            other.append([role, s])
        else:
            other.append([role, data])
    # '^' in a group file is a mark: keep those out of the comparison
    for i, (role, data) in enumerate(files):
        if role in ("group", "stop"):
            files[i] = [role, data.replace(b"^", b"")]
    return [tool, args, files, other]


# ---- suspect marks, headers and spacing in every tool, against the models

def check_roles(ctx, case):
    """Group and stopword files have no header; every other file may."""
    role, raw_, head = case
    data = head + enc(raw_)
    if role == "group":
        from .c13 import expected
        d = dict(chars={c: [5, 1] for c in list(range(33, 127)) + [0xe9, 0x301]
                        if c not in (126,)}, conf={}, rej=0, sus=0, fm=0)
        rep = gen.acc_obj(d)
        ctx.put("g", data)
        ctx.put("r", rep.format())
        check_equal("groupacc", ctx.ok("groupacc", ["g", "r"]),
                    expected(data.decode("utf-8"), rep))
    elif role == "stop":
        from .c21 import expected as nonstop
        ws = words.stopwords(data)
        d = dict(stop={w: [2, 1] for w in ws[::2] if "\0" not in w},
                 non={"qzx": [3, 1]}, phrase={1: [1, 1]})
        rep = gen.wac_obj(d)
        ctx.put("s", data)
        ctx.put("r", rep.format())
        check_equal("nonstopacc", ctx.ok("nonstopacc", ["s", "r"]),
                    nonstop(data.decode("utf-8"), rep))
    elif role == "wordfreq":
        from .c17 import table, wordfreq_output
        ctx.put("f", data)
        check_equal("wordfreq", ctx.ok("wordfreq", ["f"]),
                    wordfreq_output(table(words.words(data))))
    else:
        a, b = enc(raw_), data
        t1, t2 = text.read(a, header=False), text.read(b)
        ctx.put("c", a)
        ctx.put("g", b)
        if role == "accuracy":
            rep = reports.parse_acc(ctx.ok("accuracy", ["c", "g"]))
            got = (rep.characters, rep.suspects, rep.rejects)
            want = (sum(1 for c, _ in t1 if c != 126), sum(1 for c, s in t2 if s and c != 126),
                    sum(1 for c, _ in t2 if c == 126))
            require(got == want, "accuracy reads %s characters, marks, rejects: %s",
                    got, want)
            if 126 not in cps(t1) + cps(t2):
                require(rep.errors == sync.levenshtein(cps(t1), cps(t2)),
                        "accuracy: %s errors", rep.errors)
        elif role == "wordacc":
            ctx.put("c", a)
            rep = reports.parse_wac(ctx.ok("wordacc", ["c", "g"]))
            w1, w2 = words.words(a), words.words(b)
            require(rep.total[0] == len(w1), "wordacc reads %s words, not %s",
                    rep.total[0], len(w1))
            if w1 == w2:
                require(rep.total[1] == 0, "wordacc misses words of an equal text")
            if not w2:
                require(rep.total[1] == len(w1), "wordacc finds words in an empty text")
        else:
            rep = reports.parse_edo(ctx.ok("editop", ["c", "g"]))
            if not t2:
                require((rep.ins, rep.dele) == (sum(1 for c in cps(t1) if c != 126), 0),
                        "editop: wrong insertions for an empty text")
            elif cps(t1) == cps(t2) and 126 not in cps(t1):
                require((rep.ins, rep.dele, dict(rep.moves)) == (0, 0, {}),
                        "editop: operations between equal texts")
    if head:
        ctx.mark(role)


@st.composite
def roles(draw):
    role = draw(st.sampled_from(["group", "stop", "wordfreq", "accuracy", "wordacc",
                                 "editop"]))
    if role in ("stop", "wordfreq", "wordacc"):
        s = draw(st.one_of(raw(), gen.word_pair().map(lambda p: p[0])))
    else:
        s = draw(raw())
    if role in ("accuracy", "wordacc", "editop") and s.startswith(text.TITLE):
        s = ""
    if "\0" in s:
        s = s.replace("\0", "")
    return role, s, draw(st.sampled_from([b"", b""] + [h.encode() for h in HEADS]))


# ---- every character, alone and in a run

def check_every(ctx, case):
    lo, hi = case
    raw_ = "".join("x%sy\n%sx\nx%s \n^%sz %sz\n" % (c, c, c, c, c) for c in map(
        chr, range(lo, hi)) if not 0xD800 <= ord(c) < 0xE000)
    if not raw_:
        raise Skip
    data = enc(raw_)
    ctx.put("f", data)
    ctx.put("e", b"")
    t = text.read(data)
    check_equal("reading U+%04X..U+%04X" % (lo, hi - 1),
                ctx.ok("synctext", ["-s", "f", "e"]),
                synctext_output(["f", "e"], [t, []],
                                [(False, ((0, len(t)), (0, 0)))], True))
    ctx.mark()


def every(tier, rng):
    size = 256
    low = [(lo, lo + size) for lo in range(0, 0x3400, size)]
    size = 1024
    return low + [(lo, lo + size) for lo in range(0x3400, 0x110000, size)]


SUBS = [
    Sub("exact", check_exact, strategy=exact, quick=6000, thorough=150000, weight=3,
        rule="one raw file read by synctext, vote and ngram; non-trivial when marks, "
        "spacing or a header are removed"),
    Sub("header lines", check_header, cases=headers, weight=1,
        rule="headers with lines of 0 to 330 and more bytes, dividers at either end"),
    Sub("respaced", check_respaced, strategy=respaced, quick=6000, thorough=120000,
        weight=4, rule="an invocation of any text tool and the same with other "
        "extraneous spacing, other headers, doubled marks"),
    Sub("roles", check_roles, strategy=roles, quick=4000, thorough=80000, weight=2,
        rule="headers in every role of a file"),
    Sub("every character", check_every, cases=every, weight=3,
        rule="blocks of characters alone, at line ends, marked, next to blanks"),
]
