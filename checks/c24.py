"""No input makes a tool crash or touch memory it does not own"""
import os
import random
import re
import resource
import shutil
import subprocess
import tempfile

from .inv import *
from ocrv import build as _build

REPORTS = ("acc", "wac", "edo")


def judge(r, tool, what=""):
    require(r.rc in (0, 1), "%s%s ends with status %d; stderr %s", tool, what, r.rc,
            brief(r.err))
    if r.rc == 1:
        require(r.err.startswith(tool.encode() + b": ") or b"\n" + tool.encode() + b": "
                in r.err, "%s%s fails without a message: %s", tool, what, brief(r.err))


# ---- hostile contents

NUMBERS = [b"0", b"1", b"-1", b"-99999999", b"2147483647", b"2147483648", b"-2147483648",
           b"4294967295", b"4294967296", b"999999999", b"65535", b"65536", b"32768",
           b"100", b"101", b"-100", b"12", b"00000000000000000000001", b"x", b"",
           b"0x10", b"1e9", b"1.5", b"1114111", b"1114112", b"50", b"51", b"52", b"8", b"9",
           b"10", b"11"]
CHARS = [b"<110000>", b"<10FFFF>", b"<FFFFFFFF>", b"<-1>", b"<>", b"<", b"<<>", b"<\\n>",
         b"<\\n", b"\xff", b"\xe2\x97\x8c", b"\xe2\x97\x8c\xcc\x81", b"\xe2\x97\x8c\xff",
         b"\xe2\x97", b"", b"}", b"{", b"ab", b"\xcc\x81", b"<0>", b"<D800>", b"<1F600",
         b"<123456789012345678901234567890>", b"<  41>", b"<+41>", b"<0x41>", b"\0",
         b"<%n>", b"<%s%s>"]
LINES = [b"", b"x" * 98, b"x" * 99, b"x" * 100, b"x" * 250, b"9" * 300, b" " * 500,
         b"       5        1   " + b"w" * 120, b"       5        1   ",
         b"       5        1", b"       5", b"  5  1  {x}-{y}", b"   5   1   80.00   Total",
         b"   5   1   80.00   70000", b"   5   1   80.00   -3", b"   5   1   80.00   99999999999",
         b"   5   1   80.00   {<110000>}", b"   5   1   80.00   {<FFFFFFFF>}",
         b"   5   1   80.00   {", b"   5   1   80.00   {<", b"   5   101", b"   5   0",
         b"   5   -7", b"   5   2000000000", b"       1        1   {" + b"a" * 200 + b"}",
         b"-5 -1 80.00 {a}", b"%s%s%s%n", b"   5   1   80.00   <10", b"   5   1   80.00   8",
         b"\0", b"5 1\0", b"5 1 \xff\xfe", b"99999999999999999999 99999999999999999999 {a}"]


def mutate(data, seed):
    """Damage a file, with an eye for the structure of reports."""
    r = random.Random(seed)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        k = r.randint(0, 13)
        lines = data.split(b"\n")
        i = r.randrange(len(lines))
        if k == 0:
            data = data[:r.randint(0, len(data))]
        elif k == 1 and data:
            j = r.randrange(len(data))
            data = data[:j] + bytes([r.randrange(256)]) + data[j + 1:]
        elif k == 2 and data:
            j = r.randrange(len(data))
            data = data[:j] + data[j + r.choice([1, 1, 2, 10, 50]):]
        elif k == 3:
            j = r.randint(0, len(data))
            data = data[:j] + bytes(r.randrange(256) for _ in range(r.randint(1, 8))) + data[j:]
        elif k in (4, 5, 6):
            nums = list(re.finditer(rb"-?\d+(\.\d+)?", data))
            if nums:
                m = r.choice(nums)
                data = data[:m.start()] + r.choice(NUMBERS) + data[m.end():]
        elif k in (7, 8):
            forms = list(re.finditer(rb"\{[^}\n]*\}", data))
            if forms:
                m = r.choice(forms)
                data = data[:m.start() + 1] + r.choice(CHARS) + data[m.end() - 1:]
        elif k == 9:
            lines[i] = r.choice(LINES)
            data = b"\n".join(lines)
        elif k == 10:
            lines.insert(i, r.choice(LINES + lines))
            data = b"\n".join(lines)
        elif k == 11:
            j = r.randrange(len(lines))
            lines[i:i + 1] = [lines[i]] * r.choice([0, 2, 3, 40])
            data = b"\n".join(lines)
        elif k == 12:
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
            data = b"\n".join(lines)
        else:
            j = r.randrange(len(data) + 1)
            data = data[:j] + data[r.randrange(len(data) + 1):]
    return data


@st.composite
def damaged(draw, tools=None):
    tool, args, files = draw(invocations(tools, sizes=(0, 2, 6, 12, 25)))
    out = []
    for role, data in files:
        k = draw(st.integers(0, 9))
        if k <= 5 if role in REPORTS else k <= 3:
            data = mutate(data, draw(st.integers(0, 2 ** 40)))
        elif k == 9:
            data = draw(st.binary(max_size=40))
        out.append([role, data])
    return tool, args, out


def check_asan(ctx, case):
    tool, args, files = case
    names = place(ctx, files)
    r = ctx.run(tool, argv(args, names), kind="asan")
    judge(r, tool)
    ctx.mark(tool, "accepted" if r.rc == 0 else "refused")


def check_asan_valid(ctx, case):
    tool, args, files = case
    names = place(ctx, files)
    r = ctx.run(tool, argv(args, names), kind="asan")
    judge(r, tool)
    plain = ctx.run(tool, argv(args, names))
    check_equal("%s: output of a build with other settings" % tool, r.out, plain.out)
    require(r.rc == plain.rc, "%s: status of a build with other settings", tool)
    if len(r.out) > 40:
        ctx.mark(tool)


# ---- hostile arguments

@st.composite
def arguments(draw):
    from .c03 import GOOD
    tool = draw(st.sampled_from(TOOLS))
    roles, extra, _ = SHAPE[tool]
    files = [[r, GOOD[r]] for r in roles + ([extra] if extra else [])]
    pool = names_of(files) * 2 + ["-", "--", "-h", "-n", "-n2", "-w1/2", "-s", "1/2", "-o",
                                  "out", "-S", "-O", "-D", "-H", "-T", "-i", "",
                                  "x" * 5000, "-o" + "y" * 5000, "%s%n%s", "-%n", "-\xff",
                                  "nothere", ".", "/", "-w" + "9" * 300, "-n" + "1" * 300,
                                  "-w", "-s" + "\x01", "/dev/null", "/dev/null"]
    tokens = draw(st.lists(st.sampled_from(pool), max_size=draw(
        st.sampled_from([3, 6, 6, 20, 45]))))
    argv0 = draw(st.sampled_from([None, None, None, "./x/" + tool, tool, "x" * 300, "/", "",
                                  "a/" * 2000 + tool, "a/" * 16390 + tool, "b/" * 50000 + tool]))
    return tool, tokens, files, argv0


def check_arguments(ctx, case):
    tool, tokens, files, argv0 = case
    place(ctx, files)
    r = ctx.run(tool, tokens, kind="asan", argv0=argv0)
    require(r.rc in (0, 1), "%s %s ends with status %d; stderr %s", tool, brief(tokens),
            r.rc, brief(r.err))
    require(r.rc == 0 or b": " in r.err, "%s %s fails without a message", tool,
            brief(tokens))
    ctx.mark(tool)


def check_names(ctx, case):
    """Names of up to 4095 characters."""
    (tool, args, files), lengths = case
    names = place(ctx, files)
    names = [("." + "/" * (1 + l % 2) + "./" * (l // 2) + n)[-max(l, len(n)):]
             for n, l in zip(names, lengths * 9)]
    names = ["." + n if n.startswith("/") else n for n in names]
    out = "./" * (lengths[0] // 2) + "out"
    args = argv(args, names)
    if tool in OUT_ARG:
        args = args + [out]
    elif tool == "vote":
        args = ["-o", out] + args
    r = ctx.run(tool, args, kind="asan")
    judge(r, tool)
    plain = ctx.run(tool, args)
    check_equal("%s: output of a build with other settings" % tool, r.out, plain.out)
    ctx.mark(tool, "%d characters" % (max(lengths) // 1000 * 1000))


def long_names():
    return st.tuples(invocations(sizes=(2, 6)), st.lists(st.sampled_from(
        [1, 10, 99, 100, 254, 255, 256, 257, 500, 998, 999, 1000, 1001, 1022, 1023, 1024, 2047,
         2048, 4000, 4090, 4093]), min_size=2, max_size=6))


# ---- uninitialised values

def check_undefined(ctx, case):
    """Builds that fill fresh variables and memory differently agree."""
    tool, args, files = case
    names = place(ctx, files)
    a = ctx.run(tool, argv(args, names), kind="zeros")
    b = ctx.run(tool, argv(args, names), kind="pattern", env={"MALLOC_PERTURB_": "90"})
    check_equal("%s: output depends on uninitialised memory" % tool, b.out, a.out)
    check_equal("%s: messages depend on uninitialised memory" % tool, b.err, a.err)
    require(a.rc == b.rc, "%s: status depends on uninitialised memory", tool)
    if len(a.out) > 40:
        ctx.mark(tool)


VALGRIND = "/usr/bin/valgrind"


def check_valgrind(ctx, case):
    tool, args, files = case
    if not os.path.exists(VALGRIND):
        raise Skip
    names = place(ctx, files)
    r = ctx.run(tool, ["-q", "--error-exitcode=97", "--leak-check=no", "--num-callers=6",
                       ctx.tool(tool, "debug")] + argv(args, names), prog=VALGRIND,
                kind="valgrind", env={"PATH": "/usr/bin:/bin"})
    if b"valgrind: " in r.err and r.rc not in (0, 1, 97):
        raise Skip
    require(r.rc != 97, "%s uses undefined or foreign memory: %s", tool,
            brief(r.err.decode("utf-8", "replace"), 1500))
    require(r.rc in (0, 1), "%s ends with status %d under valgrind: %s", tool, r.rc,
            brief(r.err))
    ctx.mark(tool)


# ---- boundaries of fixed buffers, enumerated

def boundaries(tier, rng):
    """Lengths and values around every fixed size in the sources."""
    lens = list(range(1, 12)) + [23, 24, 25, 48, 49, 50, 51, 52, 63, 64, 65, 97, 98, 99,
                                 100, 101, 102, 127, 128, 129, 199, 200, 201, 254, 255,
                                 256, 257, 499, 500, 501, 502, 503, 504, 511, 512, 513,
                                 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097]
    wide = ["a", "\u00e9", "\u4e2d", "\U0001F600", "\u0301", "\U0010FFFF", "\x01", "^a",
            "~", "^~", "\n", "^\U0010FFFF", "^\u0301", "<", "\u25cc"]
    for n in lens:
        for ch in (wide if n < 130 else wide[:4]):
            t = enc("x" + ch * n + "y")
            for tool, args, roles in (
                    ("accuracy", [0, 1], ("correct", "text")),
                    ("accuracy", [1, 0], ("text", "correct")),
                    ("synctext", ["-s", 0, 1], ("text", "text")),
                    ("synctext", ["-T", 0, 1], ("text", "text")),
                    ("vote", ["-s1/1", 0, 1], ("text", "text")),
                    ("vote", ["-O", 0, 1, 1], ("text", "text")),
                    ("editop", [0, 1], ("correct", "text"))):
                if tier != "thorough" and n > 12 and rng.random() < 0.5:
                    continue
                yield [tool, args, [[roles[0], t], [roles[1], b"xy"]]]
            for tool, args in (("ngram", ["-n3", 0]), ("wordfreq", [0]),
                               ("wordacc", [0, 0]), ("wordacc", ["-S", 0, 0, 0]),
                               ("vote", ["-O", 0, 0, 0])):
                yield [tool, args, [["text", t]]]
    # confusions with both sides around the longest that is shown
    forms = ["a", "\u00e9", "\u4e2d", "\U0001F600", "\u0301", "\n", "\x01", "<"]
    for n in list(range(1, 42)) + [100]:
        for f in forms:
            for g in forms:
                if f == g or tier != "thorough" and g not in "a\U0001F600\u0301" and \
                        rng.random() < 0.75:
                    continue
                m = n if rng.random() < 0.5 else rng.choice([20, 22, 23, 24, 25, 26, 40])
                yield ["accuracy", [0, 1], [["correct", enc("x" + f * n + "y")],
                                            ["text", enc("x" + g * m + "y")]]]
    for n in lens:
        w = b"w" * n
        for rep in (gen.wac_obj(dict(stop={}, non={"w" * n: [5, 2]}, phrase={1: [5, 2]})),):
            for tool, args in (("wordaccsum", [0, 0]), ("nonstopacc", [1, 0]),
                               ("wordaccci", [0, 0]), ("wordaccdist", [0])):
                yield [tool, args, [["wac", rep.format()], ["stop", w]]]
        conf = gen.acc_obj(dict(chars={97: [5, 2]}, conf={"{" + "k" * n + "}-{}": [2, 1]},
                                rej=0, sus=0, fm=0)).format()
        for tool, args in (("accsum", [0, 0]), ("accci", [0, 0]), ("groupacc", [1, 0])):
            yield [tool, args, [["acc", conf], ["group", b"ab"]]]
    # indexes of the report tables
    for v in (-2 ** 31, -99, -1, 0, 1, 7, 8, 9, 10, 11, 12, 13, 49, 50, 51, 52, 99, 100,
              101, 102, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 40):
        from .c03 import GOOD
        row = b"       2        1    50.00   %d" % v
        lines = GOOD["wac"].split(b"\n")
        for i, l in enumerate(lines):
            if re.match(rb" +\d+ +\d+ +[\d.-]+   \d+$", l):
                yield ["wordaccsum", [0, 0], [["wac", b"\n".join(
                    lines[:i] + [row] + lines[i + 1:])]]]
        edo = gen.edo_obj(dict(ins=1, dele=1, moves={3: 2})).format().replace(
            b"2        3", b"2        %d" % v)
        for tool, args in (("editopsum", [0, 0]), ("editopcost", [0]),
                           ("editopcost", [0, 0])):
            yield [tool, args, [["edo", edo]]]
    for c in CHARS:
        rep = GOOD["acc"].replace(b"{a}", b"{" + c + b"}")
        for tool, args in (("accsum", [0, 0]), ("accci", [0, 0]), ("groupacc", [1, 0]),
                           ("accdist", [0])):
            yield [tool, args, [["acc", rep], ["group", b"ab"]]]


def every_char(tier, rng):
    """Blocks of all characters through every tool that indexes by character."""
    size = 1024
    for lo in range(0, 0x110000, size):
        t = "".join(chr(c) for c in range(lo, lo + size) if not 0xD800 <= c < 0xE000)
        if not t:
            continue
        if tier != "thorough" and 0x30000 <= lo < 0xE0000 and rng.random() < 0.8:
            continue
        yield ["accuracy", [0, 1], [["correct", enc(t)], ["text", enc(t[:500])]]]
        yield ["wordfreq", [0], [["text", enc(t)]]]
        yield ["synctext", ["-i", "-s", 0, 1], [["text", enc(t)], ["text", b""]]]


# ---- coverage-guided search (thorough only)

# tool, arguments, index of the file that is varied
GUIDED = [
    ("accuracy", [0, 1], 1), ("vote", ["-O", "-s1/2", "-w1/3", 0, 1, 2], 1),
    ("wordacc", ["-S", 2, 0, 1], 0), ("wordfreq", [0], 0),
    ("synctext", ["-T", "-s", 0, 1], 1), ("editop", [0, 1], 1),
    ("accsum", [0, 1], 0), ("wordaccsum", [0, 1], 0), ("editopcost", [0, 1], 0),
    ("nonstopacc", [0, 1], 1), ("groupacc", [0, 1], 1), ("accci", [0, 1], 1),
]
GUIDED_SECONDS = int(os.environ.get("OCRV_AFL", "150"))


def guided(tier, rng):
    """The inputs that afl-fuzz finds to reach new paths, and those it finds to crash
    the tools, each given to a sanitized build."""
    from .c03 import GOOD
    if tier != "thorough" or not shutil.which("afl-fuzz"):
        return
    try:
        bins = _build.build("afl")
    except _build.BuildError:
        return
    sample = {"acc": gen.acc_obj(dict(chars={97: [3, 1], 0x301: [2, 1], 1: [4, 0]},
                                      conf={"{a}-{b}": [1, 1]}, rej=1, sus=2, fm=1)),
              "wac": gen.wac_obj(dict(stop={"the": [2, 1]}, non={"fox": [3, 1]},
                                      phrase={1: [5, 2], 2: [4, 3]})),
              "edo": gen.edo_obj(dict(ins=2, dele=1, moves={3: 1, 100: 2}))}
    sample = {k: v.format() for k, v in sample.items()}
    t = "The ^fox~ caf\u00e9 don\u2019t\n\u0301 3.14 \U0001F600 x\ty\n".encode()
    sample.update(correct=t, text=t.replace(b"fox", b"f o"), stop=b"the fox", group=b"abc~")
    base = tempfile.mkdtemp(prefix="ocrv-afl-")
    env = dict(os.environ, AFL_NO_UI="1", AFL_SKIP_CPUFREQ="1", AFL_NO_AFFINITY="1",
               AFL_I_DONT_CARE_ABOUT_MISSING_CRASHES="1", AFL_TESTCACHE_SIZE="5")
    env.pop("ASAN_OPTIONS", None)

    def limits():
        for what in (resource.RLIMIT_CPU, resource.RLIMIT_AS):
            hard = resource.getrlimit(what)[1]
            resource.setrlimit(what, (hard, hard))

    runs = []
    try:
        for k, (tool, args, at) in enumerate(GUIDED):
            roles = list(SHAPE[tool][0])
            while len(roles) <= max(a for a in args if isinstance(a, int)):
                roles.append("stop" if tool == "wordacc" else SHAPE[tool][1])
            files = [[r, sample[r]] for r in roles]
            d = os.path.join(base, str(k))
            os.makedirs(os.path.join(d, "in"))
            for i, (_, data) in enumerate(files):
                with open(os.path.join(d, "f%d" % i), "wb") as f:
                    f.write(data)
            for name, data in (("a", files[at][1]), ("b", GOOD[roles[at]])):
                with open(os.path.join(d, "in", name), "wb") as f:
                    f.write(data)
            line = [("@@" if a == at else "f%d" % a) if isinstance(a, int) else a
                    for a in args]
            with open(os.path.join(d, "log"), "wb") as log:
                p = subprocess.Popen(
                    ["timeout", "-k", "5", str(GUIDED_SECONDS + 120), "afl-fuzz", "-i",
                     "in", "-o", "out", "-s", str(rng.randrange(1, 10 ** 6)), "-V",
                     str(GUIDED_SECONDS), "-m", "none", "--",
                     os.path.join(bins, "bin", tool)] + line,
                    cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                    preexec_fn=limits)
            runs.append((p, d, tool, args, files, at))
            if len(runs) < 4 and k + 1 < len(GUIDED):
                continue
            for p, d, tool, args, files, at in runs:
                p.wait()
                for kind in ("crashes", "hangs", "queue"):
                    where = os.path.join(d, "out", "default", kind)
                    for n in sorted(os.listdir(where) if os.path.isdir(where) else ()):
                        if not n.startswith("id"):
                            continue
                        with open(os.path.join(where, n), "rb") as f:
                            data = f.read()
                        case = [[r, b] for r, b in files]
                        case[at][1] = data
                        yield [tool, args, case]
            runs = []
    finally:
        for r in runs:
            r[0].terminate()
            r[0].wait()
        shutil.rmtree(base, ignore_errors=True)


SUBS = [
    Sub("boundaries", check_asan, cases=boundaries, weight=3,
        rule="lengths and indexes around every fixed size, under Address- and "
        "UndefinedBehaviorSanitizer"),
    Sub("every character", check_asan, cases=every_char, weight=1.5,
        rule="all characters in blocks, sanitized"),
    Sub("damaged", check_asan, strategy=damaged, quick=7000, thorough=200000, weight=4,
        rule="damaged, truncated and hostile files, sanitized"),
    Sub("damaged reports", check_asan, strategy=lambda: damaged(REPORT_TOOLS), quick=5000,
        thorough=200000, weight=3, rule="the same for the tools that read reports"),
    Sub("valid", check_asan_valid, strategy=lambda: invocations(
        sizes=(0, 2, 6, 12, 30, 60)), quick=4000, thorough=100000, weight=3,
        rule="valid invocations, sanitized and compared with the plain build"),
    Sub("arguments", check_arguments, strategy=arguments, quick=2500, thorough=60000,
        weight=1, rule="random arguments, sanitized"),
    Sub("long names", check_names, strategy=long_names, quick=700, thorough=15000, weight=1,
        rule="file names of up to 4095 characters, sanitized"),
    Sub("undefined", check_undefined, strategy=lambda: st.one_of(
        invocations(), invocations(), damaged()), quick=4000, thorough=100000, weight=2,
        rule="builds with automatic variables and memory filled differently"),
    Sub("coverage-guided", check_asan, cases=guided, serial=True, weight=3,
        rule="thorough only: inputs with which afl-fuzz reaches new paths, sanitized"),
    Sub("valgrind", check_valgrind, strategy=lambda: st.one_of(
        invocations(), damaged()), quick=240, thorough=12000, weight=3,
        rule="under valgrind memcheck"),
]
