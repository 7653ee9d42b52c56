"""editopsum adds reports and editopcost prices them, threshold by threshold"""
import random

from .common import *


def total(objs):
    r = reports.Edo()
    for o in objs:
        r.add(o)
    return r


def check_sum(ctx, case):
    reps, perm, cut_at = case
    objs = [gen.edo_obj(d) for d in reps]
    names = [ctx.put("r%d" % i, o.format()) for i, o in enumerate(objs)]
    want = total(objs).format()
    check_equal("editopsum", ctx.ok("editopsum", names), want)
    order = [names[i] for i in perm]
    check_equal("editopsum in another order", ctx.ok("editopsum", order), want)
    k = max(2, cut_at % (len(order) + 1))
    if k < len(order):
        ctx.put("part", ctx.ok("editopsum", order[:k]))
        check_equal("editopsum of a partial sum",
                    ctx.ok("editopsum", ["part"] + order[k:]), want)
    if sum(1 for o in objs if o.moves) > 1:
        ctx.mark("sum")


def prices(r, r2=None):
    return "".join("%3d %10d\n" % (x, r.cost(x) - (r2.cost(x) if r2 else 0))
                   for x in range(101)).encode()


def check_cost(ctx, case):
    one, two = case
    a, b = gen.edo_obj(one), gen.edo_obj(two)
    ctx.put("a", a.format())
    ctx.put("b", b.format())
    check_equal("editopcost", ctx.ok("editopcost", ["a"]), prices(a))
    check_equal("editopcost of two reports", ctx.ok("editopcost", ["a", "b"]), prices(a, b))
    check_equal("editopcost of a report and itself", ctx.ok("editopcost", ["b", "b"]),
                prices(b, b))
    # the price of a sum is the sum of the prices
    s = ctx.ok("editopsum", ["a", "b"])
    ctx.put("s", s)
    check_equal("editopcost of a sum", ctx.ok("editopcost", ["s"]), prices(total([a, b])))
    if a.moves and b.moves:
        ctx.mark("cost")


def check_real(ctx, case):
    objs, names = [], []
    ctx.put("empty", b"")
    ctx.put("zero", ctx.ok("editop", ["empty", "empty"]))
    for i, (a, b) in enumerate(case):
        ctx.put("c", enc(a))
        ctx.put("g", enc(b))
        out = ctx.ok("editop", ["c", "g"])
        objs.append(reports.parse_edo(out))
        names.append(ctx.put("r%d" % i, out))
        check_equal("report plus the empty one", ctx.ok("editopsum", ["r%d" % i, "zero"]),
                    out)
        check_equal("editopcost", ctx.ok("editopcost", ["r%d" % i]), prices(objs[-1]))
    check_equal("editopsum", ctx.ok("editopsum", names + ["zero"]), total(objs).format())
    if sum(1 for o in objs if o.moves) > 1:
        ctx.mark("real")


def sums():
    return st.integers(2, 6).flatmap(lambda n: st.tuples(
        gen.edo_lists(n), st.permutations(range(n)),
        st.integers(2, 6)))


def real():
    from .c22 import permuted
    return st.lists(st.one_of(permuted(), gen.texts(2)), min_size=2, max_size=4)


def check_repeated(ctx, case):
    """Dozens of reports, the same ones again and again."""
    reps, n, seed = case
    objs = [gen.edo_obj(d) for d in reps]
    names = [ctx.put("r%d" % i, o.format()) for i, o in enumerate(objs)]
    r = random.Random(seed)
    pick = [r.randrange(len(objs)) for _ in range(n)]
    check_equal("editopsum of %d reports" % n, ctx.ok("editopsum", [names[i] for i in pick]),
                total([objs[i] for i in pick]).format())
    if n > 16:
        ctx.mark()


def repeated():
    return st.tuples(gen.edo_lists(3), st.integers(3, 150), st.integers(0, 2 ** 32))


SUBS = [
    Sub("sum", check_sum, strategy=sums, quick=3000, thorough=60000, weight=2,
        rule="2-6 consistent reports; non-trivial when two have moves"),
    Sub("cost", check_cost, strategy=lambda: gen.edo_lists(2).map(tuple), quick=2200,
        thorough=50000, weight=2, rule="pairs of consistent reports"),
    Sub("real", check_real, strategy=real, quick=800, thorough=15000, weight=2,
        rule="reports of editop"),
    Sub("repeated", check_repeated, strategy=repeated, quick=400, thorough=8000,
        weight=1, rule="3-150 reports, of which only three differ; non-trivial from 17"),
]
