"""groupacc reports exactly the listed characters"""
import random

from .common import *


def expected(group, rep):
    o = ["   Count   Missed   %Right\n"]
    tc = tm = 0
    for cp, _ in text.read(enc(group), header=False):
        c, m = rep.chars.get(cp, (0, 0))
        if c > 0 and cp not in (10, 32):
            o.append("%8d %8d %s   {%s}\n" % (c, m, reports.pct(c - m, c),
                                              text.show(cp, False, True)))
            tc += c
            tm += m
    o.append("%8d %8d %s   Total\n" % (tc, tm, reports.pct(tc - tm, tc)))
    return "".join(o).encode()


def check(ctx, case):
    group, d = case
    rep = gen.acc_obj(d)
    ctx.put("group", enc(group))
    ctx.put("r", rep.format())
    out = ctx.ok("groupacc", ["group", "r"])
    want = expected(group, rep)
    check_equal("groupacc", out, want)
    rows = want.count(b"\n") - 2
    if rows:
        ctx.mark("%s rows" % (rows if rows < 3 else "3+"))
        if rows < sum(1 for c in rep.chars if c not in (10, 32)):
            ctx.label("unlisted characters")


def check_real(ctx, case):
    group, (a, b) = case
    ctx.put("c", enc(a))
    ctx.put("g", enc(b))
    out = ctx.ok("accuracy", ["c", "g"])
    rep = reports.parse_acc(out)
    ctx.put("r", out)
    ctx.put("group", enc(group))
    want = expected(group, rep)
    check_equal("groupacc", ctx.ok("groupacc", ["group", "r"]), want)
    if want.count(b"\n") > 2:
        ctx.mark()


POOL = "abcABC019 .,<>{}\n\u25cc\u0301\u00e9\u0378\U0010ffff\x01\x7f\u00ad\u0903"


@st.composite
def cases(draw):
    d = draw(gen.acc(alpha=POOL))
    inside = [chr(c) for c in d["chars"]]
    chars = draw(st.lists(st.one_of(
        st.sampled_from(inside or ["a"]), st.sampled_from(POOL + "^~\t "),
        gen.anychar()), max_size=12, unique=draw(st.booleans())))
    return "".join(chars), d


def real():
    return gen.texts(2).flatmap(lambda p: st.tuples(
        st.text(alphabet=st.sampled_from(p[0] + "ab \n"), max_size=10), st.just(p)))


def check_long(ctx, seed):
    """Reports of hundreds of characters, groups of hundreds or thousands."""
    r = random.Random(seed)
    every = r.choice([range(33, 126), range(0xC0, 0x600), range(0x4E00, 0x5E00),
                      range(0x10000, 0x10400), range(1, 0x3000)])
    every = [c for c in every if c not in (126, 94)]
    chars = {}
    for c in r.sample(every, min(len(every), r.choice([5, 90, 300, 1500]))):
        n = r.choice([1, 3, 100, 99999999])
        chars[c] = [n, r.choice([0, 0, 1, r.randint(0, n)])]
    n = r.choice([20, 130, 260, 1100, 4000])
    group = "".join(chr(r.choice(every)) + r.choice(["", "", " ", "\n"]) for _ in range(n))
    if r.random() < 0.5:
        group = "".join(map(chr, chars)) + group[:r.choice([0, 100])]
    check(ctx, (group, dict(chars=chars, conf={}, rej=0, sus=0, fm=0)))


SUBS = [
    Sub("generated", check, strategy=cases, quick=5000, thorough=100000, weight=3,
        rule="generated reports and groups; non-trivial when a row is due"),
    Sub("real", check_real, strategy=real, quick=1000, thorough=20000,
        rule="reports of accuracy"),
    Sub("long", check_long, strategy=lambda: st.integers(0, 2 ** 40), quick=300,
        thorough=8000, weight=1, rule="groups of up to 4000 characters"),
]
