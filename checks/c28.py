"""Lists, hash tables and sorting behave like their abstract models"""
import fcntl
import os
import random
import shutil
import subprocess

from .inv import *
from ocrv import build as _build

SOURCES = ["list.c", "table.c", "sort.c", "util.c"]


def harness(ctx):
    """The harness built on the current sources, or None if the modules have
    another interface (then only the tools are checked)."""
    h = ctx.builds.get("c28")
    if h is not None:
        return h or None
    with open(os.path.join(_build.VERIF, "checks", "c28_harness.c"), "rb") as f:
        source = f.read()
    import hashlib
    dest = os.path.join(_build.BUILD, "c28-%s-%s" % (
        _build.tree_hash(), hashlib.sha256(source).hexdigest()[:8]))
    with open(os.path.join(_build.BUILD, "lock-c28"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(dest):
            old = sorted((d for d in os.listdir(_build.BUILD) if d.startswith("c28-")),
                         key=lambda d: os.path.getmtime(os.path.join(_build.BUILD, d)))
            for d in old[:-3]:
                shutil.rmtree(os.path.join(_build.BUILD, d), ignore_errors=True)
            tmp = dest + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.mkdir(tmp)
            srcdir = os.path.join(_build.build("plain"), "src")
            exe = os.path.join(tmp, "harness")
            def compiled(files):
                return subprocess.run(
                    ["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all",
                     "-I" + srcdir, "-o", exe,
                     os.path.join(_build.VERIF, "checks", "c28_harness.c")] + files,
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            mine = [os.path.join(srcdir, s) for s in SOURCES]
            rest = []
            for f in sorted(os.listdir(srcdir)):
                if f.endswith(".c"):
                    with open(os.path.join(srcdir, f), "rb") as g:
                        t = g.read()
                    import re
                    if not re.search(rb"^(int )?main\(", t, re.M):
                        rest.append(os.path.join(srcdir, f))
            if not (all(map(os.path.exists, mine)) and compiled(mine)) and \
                    not compiled(rest + ["-lutf8proc"]):
                open(os.path.join(tmp, "failed"), "w").close()
            os.rename(tmp, dest)
    exe = os.path.join(dest, "harness")
    ctx.builds["c28"] = exe if os.path.exists(exe) else ""
    return ctx.builds["c28"] or None


def play(ctx, script):
    h = harness(ctx)
    if h is None:
        ctx.label("no harness")
        raise Skip
    r = ctx.run("harness", prog=h, stdin="\n".join(script).encode() + b"\n", kind="asan")
    if r.rc == 3:
        raise Broken("harness: script not understood")
    require(r.rc == 0, "status %d: %s", r.rc, brief(r.err))
    lines = r.out.decode().split("\n")
    require(len(lines) == len([1 for _ in lines]) and lines[-1] == "", "cut output")
    return lines[:-1]


# ---- lists

def check_list(ctx, case):
    lists = [[], [], []]
    script, want = [], []
    nid = 0

    def show(a):
        s = lists[a]
        return "%d:%s /%s" % (len(s), "".join(" %d" % x for x in s),
                              "".join(" %d" % x for x in reversed(s)))

    for op, a, p in case:
        a %= 3
        s = lists[a]
        if op in "bn" and not s:
            op = "l"
        if op in "rm" and not s:
            op = "a"
        if op == "f":
            script.append("Lf %d %d" % (a, nid))
            s.insert(0, nid)
            nid += 1
        elif op == "l":
            script.append("Ll %d %d" % (a, nid))
            s.append(nid)
            nid += 1
        elif op in "bn":
            i = p % len(s)
            script.append("L%s %d %d %d" % (op, a, nid, s[i]))
            s.insert(i if op == "b" else i + 1, nid)
            nid += 1
        elif op == "r":
            i = p % len(s)
            script.append("Lr %d %d" % (a, s[i]))
            del s[i]
        elif op == "m":
            i = p % len(s)
            c = (a + 1 + p % 2) % 3
            script.append("Lm %d %d %d" % (a, s[i], c))
            lists[c].append(s.pop(i))
        elif op == "a":
            script.append("La %d" % a)
            want.append("array:" + "".join(" %d" % x for x in s))
        elif op == "e":
            script.append("Le %d" % a)
            want.append(("processed", sorted(s)))
            lists[a] = s = []
        want.append(show(a))
    for a in range(3):
        script.append("La %d" % a)
        want.append("array:" + "".join(" %d" % x for x in lists[a]))
        want.append(show(a))
    got = play(ctx, script)
    require(len(got) == len(want), "list history: %d observations, not %d", len(got),
            len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, tuple):
            require(g.endswith("/") and sorted(map(int, g[:-1].split())) == w[1],
                    "list_empty processes %r, not %s", g, w[1])
        else:
            require(g == w, "list history %s: observation %d is %r, expected %r",
                    brief(script, 300), i, g, w)
    if nid >= 3 and any(o == "r" for o, _, _ in case):
        ctx.mark()
    if any(o == "a" for o, _, _ in case[:-1]):
        ctx.label("array between changes")


def list_history():
    return st.lists(st.tuples(st.sampled_from("flbnflbnrrramae"), st.integers(0, 2),
                              st.integers(0, 50)), max_size=60)


# ---- tables

KEYS = [b"ab", b"ba", b"", b"a", b"b", b"abc", b"cab", b"bca", b"\xff", b"\xfe\x01",
        b"\xff\xf8", b"\xfb\xfc", b"x" * 300, b"x" * 301, b"abcd", b"dcba", b"aa", b"A",
        b"{a}-{b}\n", b"{b}-{a}\n", b"\xc3\xa9", b"\xa9\xc3", b"bb", b"ac", b"ca"] + \
       [b"p" * n + t for n in (15, 31, 63, 127, 255, 600) for t in (b"xy", b"yx")] + \
       [bytes([k]) for k in range(33, 48)]


def check_table(ctx, case):
    tables = [{}, {}]           # id -> key
    script, want = [], []
    nid = 0
    for op, a, p, k in case:
        a %= 2
        t = tables[a]
        key = KEYS[k % len(KEYS)]
        if op == "r" and not t:
            op = "i"
        if op == "i":
            script.append("Ti %d %d %s" % (a, nid, key.hex() or "00"))
            t[nid] = key
            nid += 1
            want.append(str(len(t)))
        elif op == "r":
            i = sorted(t)[p % len(t)]
            script.append("Tr %d %d" % (a, i))
            del t[i]
            want.append(str(len(t)))
        elif op == "l":
            script.append("Tl %d %s" % (a, key.hex() or "00"))
            want.append(("lookup", key, [i for i in t if t[i] == key]))
        elif op == "a":
            script.append("Ta %d" % a)
            want.append(("array", sorted(t)))
        elif op == "e":
            script.append("Te %d" % a)
            want.append(("processed", sorted(t)))
            tables[a] = {}
    for a in range(2):
        t = tables[a]
        for key in KEYS:
            script.append("Tl %d %s" % (a, key.hex() or "00"))
            want.append(("lookup", key, [i for i in t if t[i] == key]))
        script.append("Ta %d" % a)
        want.append(("array", sorted(t)))
    got = play(ctx, script)
    require(len(got) == len(want), "table history: %d observations, not %d", len(got),
            len(want))
    for s, g, w in zip(script, got, want):
        if isinstance(w, str):
            require(g == w, "table %s: count %s, expected %s", s, g, w)
        elif w[0] == "lookup":
            require("broken" not in g, "table %s: memory behind it changes", s)
            i = int(g)
            require(i in w[2] if w[2] else i == -1,
                    "table lookup of %r finds %s, expected one of %s", w[1], i, w[2])
        elif w[0] == "array":
            n, ids = g.split(":")
            require(int(n) == len(w[1]) and sorted(map(int, ids.split())) == w[1],
                    "table array %r, expected %s", g, w[1])
        else:
            ids, n = g.split("/")
            require(int(n) == 0 and sorted(map(int, ids.split())) == w[1],
                    "table_empty processes %r, expected %s", g, w[1])
    hashes = {}
    for o, _, _, k in case:
        if o == "i":
            key = KEYS[k % len(KEYS)]
            hashes.setdefault(sum(key) % 503, set()).add(key)
    if any(len(v) > 1 for v in hashes.values()):
        ctx.mark()
        if any(o == "r" for o, _, _, _ in case):
            ctx.label("collisions and removals")


def table_history():
    return st.lists(st.tuples(st.sampled_from("iiiiirrllae"),
                              st.integers(0, 1), st.integers(0, 50),
                              st.one_of(st.integers(0, 9), st.integers(25, 36), st.integers(0, 60))),
                    max_size=60)


# ---- sorting

ORDERS = [lambda a, b: (a,), lambda a, b: (-a,), lambda a, b: (a, -b),
          lambda a, b: (a % 3,), lambda a, b: (), lambda a, b: (a,)]


def check_sort(ctx, case):
    script = []
    for how, els in case:
        script.append("S %d %d %s" % (how, len(els), " ".join("%d %d" % e for e in els)))
    got = play(ctx, script)
    require(len(got) == len(case), "sorting: %d results, not %d", len(got), len(case))
    for (how, els), g in zip(case, got):
        require(g.startswith("sorted ok:"), "sort changes memory beyond the array: %s",
                brief(g))
        ids = list(map(int, g[10:].split()))
        require(sorted(ids) == list(range(len(els))),
                "sorting %s gives no permutation: %s", brief(els), brief(ids))
        ks = [ORDERS[how](*els[i]) for i in ids]
        require(all(x <= y for x, y in zip(ks, ks[1:])), "sorting %s is not in order: %s",
                brief(els), brief(ks))
        if len(els) > 3 and len(set(ORDERS[how](*e) for e in els)) > 1:
            ctx.mark("%s elements" % ("under 10" if len(els) < 10 else "10 or more"))


@st.composite
def sort_small(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 9, 15, 25]))
        top = draw(st.sampled_from([1, 2, 3, 8, 100, 10 ** 6]))
        out.append((draw(st.integers(0, 5)), draw(st.lists(st.tuples(
            st.integers(0, top), st.integers(0, 2)), min_size=n // 2, max_size=n))))
    return out


def patterns(tier, rng):
    """Ordered, reversed, equal, saw-tooth and random arrays; all arrays of up to
    5 small elements."""
    import itertools
    for n in range(0, 7 if tier == "thorough" else 6):
        every = list(itertools.product(range(min(n, 4)), repeat=n)) if n else [()]
        for i in range(0, len(every), 60):
            yield [(0, [(x, j) for j, x in enumerate(e)]) for e in every[i:i + 60]]
    for n in (7, 8):
        perms = [rng.sample(range(n), n) for _ in range(600)]
        for i in range(0, len(perms), 60):
            yield [(0, [(x, 0) for x in p]) for p in perms[i:i + 60]]
    for n in (10, 100, 1000, 5000) + ((40000,) if tier == "thorough" else ()):
        shapes = {
            "up": list(range(n)), "down": list(range(n, 0, -1)), "equal": [5] * n,
            "saw": [i % 7 for i in range(n)], "pipe": [min(i, n - i) for i in range(n)],
            "two": [i * 2 // n for i in range(n)], "nearly": list(range(n)),
            "random": [rng.randrange(n) for _ in range(n)],
            "few": [rng.randrange(3) for _ in range(n)],
            "front": [n] + list(range(n - 1)), "back": list(range(1, n)) + [0],
        }
        for _ in range(5):
            i, j = rng.randrange(n), rng.randrange(n)
            s = shapes["nearly"]
            s[i], s[j] = s[j], s[i]
        for name, s in shapes.items():
            for how in ((0, 1, 2, 3, 5) if n <= 1000 else (0, 1)):
                yield [(how, [(x, rng.randrange(3)) for x in s])]
    n = 200000
    for s in (range(n), range(n, 0, -1), [5] * n, [i % 7 for i in range(n)],
              [rng.randrange(n) for _ in range(n)]):
        yield [(0, [(x, 0) for x in s])]


# ---- tools built on them, with keys that hash alike

def check_wordfreq(ctx, case):
    from .c17 import table, wordfreq_output
    seed, n, files = case
    r = random.Random(seed)
    base = r.choice(["abcde", "aabbc", "stare", "abcd", "aaabbb"])
    perms = ["".join(r.sample(base, len(base))) for _ in range(12)] + ["b" * 5, "zz", base]
    if r.random() < 0.5:
        fill = "p" * r.choice([1, 7, 15, 16, 31, 32, 50, 63, 64, 100, 127, 128, 255, 256,
                               400, 511, 1000, 1023, 1024, 2047, 4096, 5000])
        perms = [r.choice([fill + w, w + fill]) if r.random() < 0.5 else fill + w
                 for w in perms]
    ws = [[r.choice(perms) for _ in range(n)] for _ in range(files)]
    names = [ctx.put("f%d" % i, " ".join(w)) for i, w in enumerate(ws)]
    check_equal("wordfreq of words that hash alike", ctx.ok("wordfreq", names),
                wordfreq_output(table([w for x in ws for w in x])))
    if n > 1:
        ctx.mark("wordfreq")


def check_ngram(ctx, case):
    from .c16 import count, expected
    seed, n, files = case
    r = random.Random(seed)
    alpha = r.choice(["abc", "aceg", "a\u0101b", "adgj"])
    ts = ["".join(r.choice(alpha) for _ in range(n)) for _ in range(files)]
    names = [ctx.put("f%d" % i, enc(t)) for i, t in enumerate(ts)]
    k = seed % 3 + 1
    d = count([text.read(enc(t)) for t in ts], k)
    check_equal("ngram of sequences that hash alike", ctx.ok("ngram", ["-n%d" % k] + names),
                expected(d))
    if n > 3:
        ctx.mark("ngram")


def check_accsum(ctx, case):
    """Confusions that hash alike survive addition."""
    seed, n, files = case
    r = random.Random(seed)
    reps = []
    for _ in range(files + 1):
        conf = {}
        for _ in range(n):
            k = r.choice(["abc", "bca", "cab", "ab", "ba", "abcd", "ppppppppppppppppppab"])
            a = "".join(r.sample(k, len(k)))
            b = "".join(r.sample(k, len(k)))
            e = r.randint(1, 5)
            conf[reports.conf_key([ord(c) for c in a], [ord(c) for c in b])] = [
                e, r.randint(0, e)]
        reps.append(gen.acc_obj(dict(chars={97: [50, 3]}, conf=conf, rej=0, sus=0, fm=0)))
    names = [ctx.put("r%d" % i, x.format()) for i, x in enumerate(reps)]
    total = reports.Acc()
    for x in reps:
        total.add(x)
    check_equal("accsum of confusions that hash alike", ctx.ok("accsum", names),
                total.format())
    if n > 2:
        ctx.mark("accsum")


def seeds(most):
    return lambda: st.tuples(st.integers(0, 2 ** 40), st.integers(0, most),
                             st.integers(1, 3))


SUBS = [
    Sub("lists", check_list, strategy=list_history, quick=3000, thorough=60000, weight=2,
        rule="histories of operations on three lists against Python lists, under "
        "AddressSanitizer; non-trivial with 3 insertions and a removal"),
    Sub("tables", check_table, strategy=table_history, quick=3000, thorough=60000,
        weight=2, rule="histories on two tables against dictionaries; non-trivial with "
        "different keys that hash alike"),
    Sub("sort", check_sort, strategy=sort_small, quick=2500, thorough=40000, weight=2,
        rule="arrays under six orderings"),
    Sub("patterns", check_sort, cases=patterns, weight=2,
        rule="all small arrays, and ordered, reversed, repetitive large ones"),
    Sub("wordfreq", check_wordfreq, strategy=seeds(200), quick=1500, thorough=20000,
        weight=1, rule="words that hash alike"),
    Sub("ngram", check_ngram, strategy=seeds(400), quick=1500, thorough=20000, weight=1,
        rule="sequences that hash alike"),
    Sub("accsum", check_accsum, strategy=seeds(12), quick=1500, thorough=20000, weight=1,
        rule="confusions that hash alike"),
]
