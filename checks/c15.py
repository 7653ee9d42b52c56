"""accdist and wordaccdist print the cumulative accuracy distribution"""
from .common import *
from .c14 import acc_report, wac_report

TOOLS = {"accdist": acc_report, "wordaccdist": wac_report}


def curve(obs):
    """[numerator per x], denominator: exact comparison in integers."""
    total = sum(c for c, _ in obs)
    return [sum(c for c, m in obs if c and 100 * (c - m) >= x * c)
            for x in range(101)], total


def verify(tool, out, obs):
    nums, total = curve(obs)
    want = "".join("%3d %6.2f\n" % (x, 100.0 * n / total) for x, n in enumerate(nums)) \
        if total else ""
    check_equal(tool, out, want.encode())
    return nums


def check(ctx, case):
    tool, obs, perm = case
    names = [ctx.put("r%d" % i, TOOLS[tool](c, m)) for i, (c, m) in enumerate(obs)]
    out = ctx.ok(tool, names)
    nums = verify(tool, out, obs)
    check_equal(tool + " in another order", ctx.ok(tool, [names[i] for i in perm]), out)
    lines = [float(l.split()[1]) for l in out.decode().splitlines()]
    require(all(x >= y for x, y in zip(lines, lines[1:])), "%s: the curve increases", tool)
    if len(set(nums)) > 1:
        ctx.mark(tool)
    if any(c and m and (100 * (c - m)) % c == 0 for c, m in obs):
        ctx.label("whole percentage")
    if not sum(c for c, _ in obs):
        ctx.label("nothing")


@st.composite
def cases(draw):
    tool = draw(st.sampled_from(["accdist", "wordaccdist"]))
    n = draw(st.sampled_from([1, 1, 2, 3, 5, 12, 40]))
    obs = []
    for _ in range(n):
        style = draw(st.integers(0, 6))
        if style == 0:
            obs.append((0, draw(st.integers(0, 5)) if tool == "accdist" else 0))
        elif style <= 3:      # a whole percentage, possibly just missed
            k = draw(st.sampled_from([1, 2, 3, 7, 10, 1000, 10 ** 7, 3 * 10 ** 7, 10 ** 9]))
            c = 100 * k
            m = draw(st.integers(0, 100)) * k + draw(st.sampled_from([0, 0, 1, -1]))
            obs.append((c, max(0, min(c, m))))
        elif style == 4 and tool == "accdist":
            c = draw(st.integers(1, 100))
            obs.append((c, draw(st.integers(0, 3 * c))))
        else:
            c = draw(st.integers(1, draw(st.sampled_from([5, 50, 10 ** 8, 10 ** 11]))))
            obs.append((c, draw(st.integers(0, c))))
    return tool, obs, draw(st.permutations(range(n)))


def check_real(ctx, case):
    for tool, maker in (("accdist", "accuracy"), ("wordaccdist", "wordacc")):
        obs, names = [], []
        for i, (a, b) in enumerate(case):
            ctx.put("c", enc(a))
            ctx.put("g", enc(b))
            out = ctx.ok(maker, ["c", "g"])
            names.append(ctx.put("r%d" % i, out))
            f = out.split(b"\n")
            obs.append((int(f[2].split()[0]), int(f[3].split()[0])))
        if len(set(verify(tool, ctx.ok(tool, names), obs))) > 1:
            ctx.mark()


SUBS = [
    Sub("observations", check, strategy=cases, quick=5000, thorough=100000, weight=3,
        rule="1-40 reports, many at or next to whole percentages; non-trivial when the "
        "curve is not flat"),
    Sub("real", check_real, strategy=lambda: st.lists(gen.word_pair(), min_size=1,
                                                      max_size=4),
        quick=400, thorough=8000, weight=2, rule="reports of accuracy and wordacc"),
]
