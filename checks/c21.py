"""nonstopacc prints the accuracy left after removing each stopword prefix"""
import random

from .common import *


def expected(stopfile, rep):
    count, missed = rep.total
    if count == 0:
        return b""
    left = {}
    for d in (rep.stop, rep.non):
        for w, v in d.items():
            left.setdefault(w, []).append(v)
    o = ["%3d %6.2f\n" % (0, 100.0 * (count - missed) / count)]
    for i, w in enumerate(words.stopwords(enc(stopfile)), 1):
        for c, m in left.pop(w, []):
            count -= c
            missed -= m
        if count == 0:
            break
        o.append("%3d %6.2f\n" % (i, 100.0 * (count - missed) / count))
    return "".join(o).encode()


def check(ctx, case):
    stopfile, d = case
    rep = gen.wac_obj(d)
    ctx.put("stop", enc(stopfile))
    ctx.put("r", rep.format())
    want = expected(stopfile, rep)
    check_equal("nonstopacc", ctx.ok("nonstopacc", ["stop", "r"]), want)
    ws = words.stopwords(enc(stopfile))
    if rep.total[0] and set(ws) & (set(rep.stop) | set(rep.non)):
        ctx.mark()
    if rep.total[0] and len(want.splitlines()) <= len(ws):
        ctx.label("exhausted")
    if len(set(ws)) < len(ws):
        ctx.label("repeated stopword")


def check_real(ctx, case):
    stopfile, (a, b) = case
    ctx.put("stop", enc(stopfile))
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    out = ctx.ok("wordacc", ["c", "g"])
    ctx.put("r", out)
    rep = reports.parse_wac(out)
    check_equal("nonstopacc", ctx.ok("nonstopacc", ["stop", "r"]), expected(stopfile, rep))
    if rep.total[1] and set(words.stopwords(enc(stopfile))) & set(words.words(enc(a))):
        ctx.mark()


@st.composite
def stop_for(draw, pool):
    ws = draw(st.lists(st.sampled_from(pool), max_size=12))
    sep = draw(st.sampled_from([" ", "\n", ", "]))
    s = sep.join(w.upper() if draw(st.integers(0, 6)) == 0 and w.isascii() else w
                 for w in ws)
    return s


@st.composite
def cases(draw):
    d = draw(gen.wac(big=draw(st.booleans())))
    pool = list(d["stop"]) + list(d["non"]) + ["absent", "the", "nothere", "^", "zz"]
    if draw(st.integers(0, 3)) == 0:
        return " ".join(draw(st.permutations(list(d["stop"]) + list(d["non"])))) + draw(
            st.sampled_from(["", " more", " the the"])), d
    return draw(stop_for(pool)), d


def real():
    return gen.word_pair().flatmap(lambda p: st.tuples(
        stop_for(gen.SIMPLE_WORDS + gen.ALIKE + ["absent"]), st.just(p)))


def check_long(ctx, seed):
    """Hundreds of words and stopwords."""
    r = random.Random(seed)
    base = ["".join(r.choice("abcdeghio") for _ in range(r.choice([2, 3, 5, 8, 60])))
            for _ in range(r.choice([20, 200, 900]))]
    base = sorted(set(base))
    r.shuffle(base)
    k = r.randint(0, len(base))
    known = base[:r.randint(0, k)]
    d = dict(stop={}, non={}, phrase={1: [0, 0]})
    for w in base[:k]:
        n = r.choice([1, 1, 2, 11, 1000])
        v = [n, r.choice([0, 1, n])]
        d["stop" if w in known else "non"][w] = v
        d["phrase"][1][0] += v[0]
        d["phrase"][1][1] += v[1]
    ws = [r.choice(base) for _ in range(r.choice([10, 130, 300, 1200]))]
    if r.random() < 0.4:
        ws = r.sample(base, len(base))
    check(ctx, (r.choice([" ", "\n"]).join(ws), d))


SUBS = [
    Sub("generated", check, strategy=cases, quick=5000, thorough=100000, weight=3,
        rule="generated reports; non-trivial when a stopword is in the report"),
    Sub("real", check_real, strategy=real, quick=1500, thorough=30000, weight=2,
        rule="reports of wordacc"),
    Sub("long", check_long, strategy=lambda: st.integers(0, 2 ** 40), quick=300,
        thorough=8000, weight=1, rule="hundreds of words and stopwords"),
]
