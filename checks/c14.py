"""accci and wordaccci compute the jackknife 95% confidence interval"""
import re
from decimal import Decimal, getcontext
from .common import *

getcontext().prec = 50


def interval(obs):
    n = len(obs)
    C, M = sum(o[0] for o in obs), sum(o[1] for o in obs)
    acc = lambda c, m: Decimal(100) * (c - m) / c
    theta = acc(C, M)
    js = [n * theta - (n - 1) * acc(C - c, M - m) for c, m in obs]
    j = sum(js) / n
    s2 = sum((x - j) ** 2 for x in js) / (n - 1)
    w = Decimal("1.96") * (s2 / n).sqrt()
    clip = lambda x: max(Decimal(0), min(Decimal(100), x))
    return theta, clip(j - w), clip(j + w)


def acc_report(c, m):
    r = reports.Acc()
    if c:
        r.chars = {97: [c, min(m, c)]}
    if m:
        r.conf = {"{a}-{b}": [m, 0]}
    r.characters, r.errors = c, m
    r.total = [0, m, 0, m]
    r.unmarked = [0, m, 0, m]
    return r.format()


def wac_report(c, m):
    r = reports.Wac()
    if c:
        r.non = {"zebra": [c, m]}
        r.non_len = {5: [c, m]}
        r.distinct = {min(c, 11): [1, 1 if c == m else 0]}
        r.phrase = {1: [c, m]}
    r.total = [c, m]
    return r.format()


TOOLS = {"accci": (acc_report, "Characters", "Errors"),
         "wordaccci": (wac_report, "Words", "Misrecognized")}


def verify(out, obs, tool):
    _, label, label2 = TOOLS[tool]
    s = out.decode()
    m = re.fullmatch(r"( *\d+)   Observations\n( *\d+)   (\w+)\n( *\d+)   (\w+)\n"
                     r"( *-?[\d.]+)%  Accuracy\n( *-?[\d.]+)%,( *-?[\d.]+)%  "
                     r"Approximate 95% Confidence Interval for Accuracy\n", s)
    require(m, "%s: layout %r", tool, s)
    C, M = sum(o[0] for o in obs), sum(o[1] for o in obs)
    require(m.group(3) == label and m.group(5) == label2, "%s: labels %r", tool, s)
    for g in (1, 2, 4, 6):
        require(len(m.group(g)) == 14 or len(m.group(g).strip()) > 14,
                "%s: column width in %r", tool, s)
    require(int(m.group(1)) == len(obs), "%s: %s observations of %d", tool, m.group(1),
            len(obs))
    require(int(m.group(2)) == C and int(m.group(4)) == M,
            "%s: totals %s, %s instead of %d, %d", tool, m.group(2), m.group(4), C, M)
    theta, lo, hi = interval(obs)
    tol = Decimal("0.005001")
    for got, want, what in ((m.group(6), theta, "accuracy"), (m.group(7), lo, "lower end"),
                            (m.group(8), hi, "upper end")):
        require(abs(Decimal(got.strip()) - want) <= tol, "%s: %s is %s, %.6f expected of %s",
                tool, what, got.strip(), want, brief(obs))
    return lo, hi


def check(ctx, case):
    tool, obs, perm = case
    mk = TOOLS[tool][0]
    names = [ctx.put("r%d" % i, mk(c, m)) for i, (c, m) in enumerate(obs)]
    r = ctx.run(tool, names)
    if sum(1 for c, _ in obs if c) < 2:
        require(r.rc == 1 and not r.out and r.err,
                "%s does not refuse %s: %r", tool, obs, r)
        ctx.mark("refused")
        return
    require(r.rc == 0, "%s fails on %s: %r", tool, obs, r)
    lo, hi = verify(r.out, obs, tool)
    out2 = ctx.ok(tool, [names[i] for i in perm])
    verify(out2, [obs[i] for i in perm], tool)
    if hi > lo:
        ctx.mark(tool)
    if lo == 0 or hi == 100:
        ctx.label("clipped")
    if any(c == 0 for c, _ in obs):
        ctx.label("empty report")


@st.composite
def cases(draw):
    tool = draw(st.sampled_from(["accci", "wordaccci"]))
    n = draw(st.sampled_from([2, 2, 3, 4, 6, 10, 25, 30]))
    big = draw(st.sampled_from([1, 10, 1000, 20000, 10 ** 8, 10 ** 10, 10 ** 12]))
    obs = []
    for _ in range(n):
        c = draw(st.one_of(st.integers(0, big), st.sampled_from([0, 0, 1, 100])))
        style = draw(st.integers(0, 5))
        if style == 0:
            m = 0
        elif style == 1:
            m = c
        elif style == 2 and tool == "accci":
            m = draw(st.integers(0, 3 * big))
        elif style == 3:
            m = draw(st.integers(0, c))
        else:
            m = draw(st.integers(0, c // 10))
        obs.append((c, m))
    obs *= draw(st.sampled_from([1] * 12 + [2, 5, 12]))
    if len(obs) == n:
        return tool, obs, draw(st.permutations(range(n)))
    return tool, obs, list(range(len(obs)))[::-1]


def check_real(ctx, case):
    """Reports of real texts."""
    pairs = case
    for tool, maker in (("accci", "accuracy"), ("wordaccci", "wordacc")):
        obs, names = [], []
        for i, (a, b) in enumerate(pairs):
            ctx.put("c", enc(a))
            ctx.put("g", enc(b))
            out = ctx.ok(maker, ["c", "g"])
            names.append(ctx.put("r%d" % i, out))
            f = out.split(b"\n")
            obs.append((int(f[2].split()[0]), int(f[3].split()[0])))
        r = ctx.run(tool, names)
        if sum(1 for c, _ in obs if c) < 2:
            require(r.rc == 1, "%s does not refuse %s", tool, obs)
        else:
            require(r.rc == 0, "%s fails: %r", tool, r)
            verify(r.out, obs, tool)
            ctx.mark()


SUBS = [
    Sub("observations", check, strategy=cases, quick=4500, thorough=100000, weight=3,
        rule="2-30 reports, or up to 360; non-trivial when the interval has a width or is refused"),
    Sub("real", check_real, strategy=lambda: st.lists(gen.word_pair(), min_size=2,
                                                      max_size=4),
        quick=400, thorough=8000, weight=2, rule="reports of accuracy and wordacc"),
]
