"""Malformed UTF-8 is always rejected, well-formed UTF-8 never is"""
import itertools

from .inv import *

# every way a text is read: (tool, args, roles of files); the file under test
# takes each text role in turn
WAYS = []


def way(tool, args, *roles):
    for i, r in enumerate(roles):
        if r in ("correct", "text", "group", "stop"):
            WAYS.append((tool, args, roles, i))


way("accuracy", [0, 1], "correct", "text")
way("editop", [0, 1], "correct", "text")
way("groupacc", [0, 1], "group", "acc")
way("ngram", [0, 1], "text", "text")
way("nonstopacc", [0, 1], "stop", "wac")
way("synctext", [0, 1], "text", "text")
way("synctext", ["-i", "-T", 0, 1], "text", "text")
way("synctext", [0, 1, 2], "text", "text", "text")
way("vote", [0, 1, 2], "text", "text", "text")
way("vote", ["-O", 0, 1, 2], "text", "text", "text")
way("wordacc", ["-S", 2, 0, 1], "correct", "text", "stop")
way("wordfreq", [0, 1], "text", "text")

OTHER = {"correct": b"the quick fox\n", "text": b"the quack fox", "group": b"abc",
         "stop": b"the fox", "acc": gen.acc_obj(dict(
             chars={97: [3, 1], 98: [2, 0]}, conf={}, rej=0, sus=0, fm=0)).format(),
         "wac": gen.wac_obj(dict(stop={"the": [2, 1]}, non={"fox": [1, 0]},
                                 phrase={1: [3, 1]})).format()}


def run(ctx, w, data):
    tool, args, roles, at = WAYS[w % len(WAYS)]
    files = [[r, data if i == at else OTHER[r]] for i, r in enumerate(roles)]
    names = place(ctx, files)
    return tool, roles[at], ctx.run(tool, argv(args, names))


def well_formed(data):
    try:
        data.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def check(ctx, case):
    data, w, pre, post = case
    data = pre + data + post
    if WAYS[w % len(WAYS)][2][WAYS[w % len(WAYS)][3]] == "correct":
        data = text.strip_header(data)[1]
    tool, role, r = run(ctx, w, data)
    body = data
    if role == "text":
        body = text.strip_header(data)[1]
    if well_formed(body):
        require(r.rc == 0, "%s refuses well-formed UTF-8 in its %s file: %s", tool, role,
                brief(r.err))
        if not data.isascii():
            ctx.mark("accepted", tool)
    else:
        refused(r, tool, "malformed UTF-8 in its %s file" % role)
        require(r.out == b"", "%s: malformed UTF-8 in its %s file, but a result: %s",
                tool, role, brief(r.out))
        ctx.mark("rejected", tool)


CONT = (0x00, 0x0A, 0x20, 0x41, 0x5E, 0x7E, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF,
        0xC0, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xF8, 0xFF)
PRE = (b"", b"a", b"ab c\n", b"\xc3\xa9", b"^", b" ", b"\xf0\x9f\x98\x80", b"\n\n",
       b"x" * 4095, enc(gen.header()))
POST = (b"", b"a", b" b\n", b"\xc3\xa9", b"\n", b"\x80", b"^", b"  \xe2\x82\xac")


def sequences(rng, tier):
    for lead in range(0x80, 0x100):
        yield bytes([lead])
        for c in range(0x100):
            if tier == "thorough" or c in CONT:
                yield bytes([lead, c])
        if lead >= 0xE0:
            for t in itertools.product(CONT, repeat=2):
                yield bytes((lead,) + t)
        if lead >= 0xF0:
            every = list(itertools.product(CONT, repeat=3))
            if tier != "thorough":
                every = rng.sample(every, 250 if lead in (0xF0, 0xF4) else 80)
            for t in every:
                yield bytes((lead,) + t)


def table(tier, rng):
    """Every lead byte with boundary continuation bytes."""
    out = []
    for s in sequences(rng, tier):
        out.append((s, rng.randrange(len(WAYS)), rng.choice(PRE[:8] * 3 + PRE),
                    rng.choice(POST)))
    rng.shuffle(out)
    return out


def every_way(tier, rng):
    """The important malformed sequences in every way a file is read."""
    bad = [b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xc3A", b"\xe0\x9f\xbf",
           b"\xe2\x82", b"\xe2\x82A", b"\xe2A\x82", b"\xed\xa0\x80", b"\xed\xbf\xbf",
           b"\xf0\x8f\xbf\xbf", b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80",
           b"\xf7\xbf\xbf\xbf", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff",
           b"\xf0\x9f\x98A", b"\xf0\x9fA\x80", b"\xe2\x82\xff", b"\xc3\xa9\xa9"]
    good = [b"", b"\xc2\x80", b"\xdf\xbf", b"\xe0\xa0\x80", b"\xed\x9f\xbf",
            b"\xee\x80\x80", b"\xef\xbf\xbd", b"\xef\xbf\xbf", b"\xf0\x90\x80\x80",
            b"\xf4\x8f\xbf\xbf", b"\xef\xbb\xbf", b"\x00", b"\x7f", b"^", b"\xc2\xa0"]
    for w in range(len(WAYS)):
        for s in bad + good:
            for pre, post in ((b"", b""), (b"ab ", b" c\n"), (b"", b"x"), (b"x\n", b"")):
                yield (s, w, pre, post)


@st.composite
def random_bytes(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        data = draw(st.binary(max_size=8))
    elif k == 1:
        data = draw(st.text(alphabet=gen.anychar(), max_size=6)).encode()
        if data:
            i = draw(st.integers(0, len(data) - 1))
            op = draw(st.integers(0, 3))
            if op == 0:
                data = data[:i]
            elif op == 1:
                data = data[:i] + data[i + 1:]
            elif op == 2:
                data = data[:i] + bytes([data[i] ^ (1 << draw(st.integers(0, 7)))]) + \
                    data[i + 1:]
            else:
                data = data[:i] + bytes([draw(st.integers(0x80, 0xff))]) + data[i:]
    elif k == 2:
        data = b"".join(draw(st.lists(st.sampled_from(
            [b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"a", b" ", b"\n",
             b"\xc3", b"\xe2\x82", b"\xa9", b"^", b"\xf0\x9f"]), max_size=8)))
    else:
        data = draw(st.text(alphabet=gen.anychar(), max_size=20)).encode()
    return (data, draw(st.integers(0, len(WAYS) - 1)), draw(st.sampled_from(PRE)),
            draw(st.sampled_from(POST[:5])))


def check_all(ctx, case):
    """Every scalar value is accepted (blocks)."""
    lo, hi, w = case
    s = "".join(chr(c) + (" " if c % 40 == 0 else "") for c in range(lo, hi)
                if not 0xD800 <= c < 0xE000)
    tool, role, r = run(ctx, w, s.encode())
    require(r.rc == 0, "%s refuses well-formed text with U+%04X..U+%04X: %s", tool, lo,
            hi - 1, brief(r.err))
    ctx.mark()


def blocks(tier, rng):
    """All scalar values in blocks."""
    size = 512
    ways = [i for i, w in enumerate(WAYS) if w[0] not in ("synctext",)]
    for lo in range(0, 0x110000, size):
        yield (lo, lo + size, rng.choice(ways))


SUBS = [
    Sub("every way", check, cases=every_way, weight=2,
        rule="24 malformed and 15 boundary well-formed sequences in each of the %d ways "
        "a text is read" % len(WAYS)),
    Sub("sequences", check, cases=table, weight=4,
        rule="every lead byte with boundary continuation bytes"),
    Sub("random", check, strategy=random_bytes, quick=6000, thorough=150000, weight=3,
        rule="random and damaged byte strings; non-trivial unless plain ASCII"),
    Sub("all scalar values", check_all, cases=blocks, weight=2,
        rule="blocks of all Unicode scalar values"),
]
