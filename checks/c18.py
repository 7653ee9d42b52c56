"""wordfreq counts every word once and lists it in both orders"""
from .common import *
from .c17 import table, wordfreq_output


def check(ctx, case):
    txts, perm = case
    names = [ctx.put("f%d" % i, enc(t)) for i, t in enumerate(txts)]
    per = [words.words(enc(t)) for t in txts]
    out = ctx.ok("wordfreq", names)
    want = wordfreq_output(table([w for ws in per for w in ws]))
    check_equal("wordfreq", out, want)
    check_equal("wordfreq in another file order",
                ctx.ok("wordfreq", [names[i] for i in perm]), want)
    d = table([w for ws in per for w in ws])
    if len(d) > 1 and max(d.values()) > 1:
        ctx.mark()
    if sum(1 for ws in per if ws) > 1:
        ctx.label("several files")
    if any(t and not t.endswith("\n") for t in txts[:-1]):
        ctx.label("no newline at the end")


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        t = draw(st.lists(gen.wordish(), min_size=n, max_size=n))
    elif kind == 1:
        t = draw(gen.texts(n))
    else:
        t = [draw(st.sampled_from([" ", "\n", "-"])).join(draw(gen.word_list()))
             for _ in range(n)]
    return t, draw(st.permutations(range(n)))


def large():
    return gen.many_words().map(lambda p: (list(p), [1, 0]))


@st.composite
def alike(draw):
    """Long words that differ only far from their first character."""
    fill = draw(st.sampled_from(["x", "ab", "e\u0301", "\u0434", "a_", "\U00010428"]))
    k = 2 ** draw(st.integers(0, 11)) + draw(st.integers(-3, 3))
    fill = fill * max(1, k // len(enc(fill)))
    ends = st.sampled_from(["a", "b", "c", "d", "ab", "ba", "\u00e9", "", "z9"])
    ws = draw(st.lists(ends, min_size=2, max_size=12))
    front = draw(st.booleans())
    ws = [w + fill if front else fill + w for w in ws]
    k = draw(st.integers(0, len(ws)))
    return [" ".join(ws[:k]), "\n".join(ws[k:])], [1, 0]


SUBS = [
    Sub("files", check, strategy=cases, quick=4500, thorough=100000, weight=3,
        rule="1-5 files; non-trivial with a repeated word among several"),
    Sub("many words", check, strategy=large, quick=1000, thorough=20000, weight=2,
        rule="two files of up to 400 words"),
    Sub("long words", check, strategy=alike, quick=600, thorough=10000, weight=1,
        rule="words of up to 2,000 bytes that agree but at one end; non-trivial with a "
        "repeated word among several"),
]
