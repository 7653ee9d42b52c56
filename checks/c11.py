"""accsum is exact addition of accuracy reports, in any order and grouping"""
import random

from .common import *


def total(objs):
    r = reports.Acc()
    for o in objs:
        r.add(o)
    return r


def check(ctx, case):
    """Generated reports: exact sum, any order, any grouping, identity."""
    reps, perm, cut_at = case
    objs = [gen.acc_obj(d) for d in reps]
    names = [ctx.put("r%d" % i, o.format()) for i, o in enumerate(objs)]
    want = total(objs).format()
    got = ctx.ok("accsum", names)
    check_equal("accsum", got, want)
    order = [names[i] for i in perm]
    check_equal("accsum in another order", ctx.ok("accsum", order), want)
    k = max(2, cut_at % (len(order) + 1))
    if k < len(order):
        ctx.put("part", ctx.ok("accsum", order[:k]))
        check_equal("accsum of a partial sum", ctx.ok("accsum", ["part"] + order[k:]),
                    want)
    if sum(1 for o in objs if o.characters) > 1:
        ctx.mark()
    if any(o.conf and set(o.conf) & set(p.conf) for o in objs for p in objs if p is not o):
        ctx.label("shared confusions")
    if total(objs).characters > 99999999:
        ctx.label("wide counts")


def check_real(ctx, case):
    """Reports written by accuracy itself."""
    pairs = case
    objs, names = [], []
    ctx.put("empty", b"")
    zero = ctx.ok("accuracy", ["empty", "empty"])
    check_equal("report of empty texts", zero, reports.Acc().format())
    ctx.put("zero", zero)
    for i, (a, b) in enumerate(pairs):
        ctx.put("c", enc(a))
        ctx.put("g", enc(b))
        out = ctx.ok("accuracy", ["c", "g"])
        objs.append(reports.parse_acc(out))
        names.append(ctx.put("r%d" % i, out))
        check_equal("report plus the empty one", ctx.ok("accsum", ["r%d" % i, "zero"]), out)
        check_equal("the empty report plus one", ctx.ok("accsum", ["zero", "r%d" % i]), out)
    if len(names) > 1:
        got = ctx.ok("accsum", names)
        check_equal("accsum", got, total(objs).format())
        if sum(1 for o in objs if o.errors) > 1:
            ctx.mark()


def generated():
    return st.integers(2, 6).flatmap(lambda n: st.tuples(
        gen.acc_lists(n), st.permutations(range(n)),
        st.integers(2, 6)))


def real():
    from .c05 import confusable
    return st.lists(st.one_of(gen.texts(2), confusable()), min_size=1, max_size=4)


def check_repeated(ctx, case):
    """Dozens of reports, the same ones again and again."""
    reps, n, seed = case
    objs = [gen.acc_obj(d) for d in reps]
    names = [ctx.put("r%d" % i, o.format()) for i, o in enumerate(objs)]
    r = random.Random(seed)
    pick = [r.randrange(len(objs)) for _ in range(n)]
    check_equal("accsum of %d reports" % n, ctx.ok("accsum", [names[i] for i in pick]),
                total([objs[i] for i in pick]).format())
    if n > 16:
        ctx.mark()


def repeated():
    return st.tuples(gen.acc_lists(3), st.integers(3, 150), st.integers(0, 2 ** 32))


SUBS = [
    Sub("generated", check, strategy=generated, quick=2200, thorough=60000, weight=3,
        rule="2-6 consistent reports; non-trivial when two have characters"),
    Sub("real", check_real, strategy=real, quick=700, thorough=20000, weight=2,
        rule="reports of accuracy for generated texts"),
    Sub("repeated", check_repeated, strategy=repeated, quick=400, thorough=8000,
        weight=1, rule="3-150 reports, of which only three differ; non-trivial from 17"),
]
