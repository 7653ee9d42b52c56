"""wordaccsum is exact addition of word accuracy reports"""
import random

from .common import *


def total(objs):
    r = reports.Wac()
    for o in objs:
        r.add(o)
    return r


def check(ctx, case):
    reps, perm, cut_at = case
    objs = [gen.wac_obj(d) for d in reps]
    names = [ctx.put("r%d" % i, o.format()) for i, o in enumerate(objs)]
    want = total(objs).format()
    check_equal("wordaccsum", ctx.ok("wordaccsum", names), want)
    order = [names[i] for i in perm]
    check_equal("wordaccsum in another order", ctx.ok("wordaccsum", order), want)
    k = max(2, cut_at % (len(order) + 1))
    if k < len(order):
        ctx.put("part", ctx.ok("wordaccsum", order[:k]))
        check_equal("wordaccsum of a partial sum",
                    ctx.ok("wordaccsum", ["part"] + order[k:]), want)
    if sum(1 for o in objs if o.total[0]) > 1:
        ctx.mark()
    if any(len(w) > 69 for o in objs for w in o.non):
        ctx.label("long words")
    if total(objs).total[0] > 99999999:
        ctx.label("wide counts")


def check_real(ctx, case):
    objs, names = [], []
    ctx.put("empty", b"")
    zero = ctx.ok("wordacc", ["empty", "empty"])
    check_equal("report of empty texts", zero, reports.Wac().format())
    ctx.put("zero", zero)
    for i, (a, b) in enumerate(case):
        ctx.put("c", enc(a))
        ctx.put("g", enc(b))
        out = ctx.ok("wordacc", ["c", "g"])
        objs.append(reports.parse_wac(out))
        names.append(ctx.put("r%d" % i, out))
        check_equal("report plus the empty one",
                    ctx.ok("wordaccsum", ["r%d" % i, "zero"]), out)
        check_equal("the empty report plus one",
                    ctx.ok("wordaccsum", ["zero", "r%d" % i]), out)
    if len(names) > 1:
        check_equal("wordaccsum", ctx.ok("wordaccsum", names), total(objs).format())
        if sum(1 for o in objs if o.total[1]) > 1:
            ctx.mark()


def generated():
    return st.integers(2, 6).flatmap(lambda n: st.tuples(
        gen.wac_lists(n),
        st.permutations(range(n)), st.integers(2, 6)))


def pair():
    return st.one_of(gen.word_pair(), gen.wordish().flatmap(
        lambda s: gen.edited(s, s + "a b").map(lambda t: (s, t))))


def check_repeated(ctx, case):
    """Dozens of reports, the same ones again and again."""
    reps, n, seed = case
    objs = [gen.wac_obj(d) for d in reps]
    names = [ctx.put("r%d" % i, o.format()) for i, o in enumerate(objs)]
    r = random.Random(seed)
    pick = [r.randrange(len(objs)) for _ in range(n)]
    check_equal("wordaccsum of %d reports" % n, ctx.ok("wordaccsum", [names[i] for i in pick]),
                total([objs[i] for i in pick]).format())
    if n > 16:
        ctx.mark()


def repeated():
    return st.tuples(gen.wac_lists(3), st.integers(3, 150), st.integers(0, 2 ** 32))


SUBS = [
    Sub("generated", check, strategy=generated, quick=2800, thorough=60000, weight=3,
        rule="2-6 consistent reports; non-trivial when two have words"),
    Sub("real", check_real, strategy=lambda: st.lists(pair(), min_size=1, max_size=4),
        quick=1000, thorough=20000, weight=2, rule="reports of wordacc"),
    Sub("many", check_real, strategy=lambda: st.lists(gen.many_words(), min_size=2,
                                                      max_size=3),
        quick=200, thorough=5000, weight=2, rule="reports of texts of 30-400 words"),
    Sub("repeated", check_repeated, strategy=repeated, quick=400, thorough=8000,
        weight=1, rule="3-150 reports, of which only three differ; non-trivial from 17"),
]
