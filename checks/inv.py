"""Generated invocations of all 17 tools, shared by the checks that concern
every tool.

An invocation is [tool, args, files]: args are strings or indexes into files,
files are [role, bytes]; roles: correct, text, group, stop, acc, wac, edo.
"""
from .common import *

FRACTIONS = ["%d/%d" % (m, n) for n in range(1, 10) for m in range(1, n + 1)]

# tool: (roles, role of further files, how many more at most)
SHAPE = {
    "accuracy": (["correct", "text"], None, 0),
    "accci": (["acc", "acc"], "acc", 3),
    "accdist": (["acc"], "acc", 3),
    "accsum": (["acc", "acc"], "acc", 3),
    "editop": (["correct", "text"], None, 0),
    "editopcost": (["edo"], "edo", 1),
    "editopsum": (["edo", "edo"], "edo", 3),
    "groupacc": (["group", "acc"], None, 0),
    "ngram": (["text"], "text", 3),
    "nonstopacc": (["stop", "wac"], None, 0),
    "synctext": (["text", "text"], "text", 2),
    "vote": (["text", "text"], "text", 4),
    "wordacc": (["correct", "text"], None, 0),
    "wordaccci": (["wac", "wac"], "wac", 3),
    "wordaccdist": (["wac"], "wac", 3),
    "wordaccsum": (["wac", "wac"], "wac", 3),
    "wordfreq": (["text"], "text", 3),
}
TOOLS = sorted(SHAPE)
TEXT_TOOLS = [t for t in TOOLS if set(SHAPE[t][0]) & {"correct", "text", "group", "stop"}]
REPORT_TOOLS = [t for t in TOOLS if set(SHAPE[t][0]) & {"acc", "wac", "edo"}]
OUT_ARG = ("accuracy", "editop", "groupacc", "wordacc")     # a last file name
# vote has -o
# number of file arguments a tool accepts
COUNTS = {
    "accuracy": (2, 3), "editop": (2, 3), "wordacc": (2, 3), "groupacc": (2, 3),
    "nonstopacc": (2, 2), "synctext": (2, 16), "vote": (2, 16), "ngram": (1, None),
    "wordfreq": (1, None), "accsum": (2, None), "editopsum": (2, None),
    "wordaccsum": (2, None), "accci": (2, None), "wordaccci": (2, None),
    "accdist": (1, None), "wordaccdist": (1, None), "editopcost": (1, 2),
}


@st.composite
def options(draw, tool, nfiles):
    """[args]; files of options are given as "role" marker tuples."""
    o = []
    if tool == "synctext":
        flags = draw(st.lists(st.sampled_from("Hisi"), max_size=2, unique=True))
        if nfiles == 2 and draw(st.booleans()):
            flags.append("T")
        o = [["-" + f] for f in flags]
    elif tool == "vote":
        if draw(st.booleans()):
            o.append(["-w", draw(st.sampled_from(FRACTIONS))])
        if draw(st.booleans()):
            o.append(["-s", draw(st.sampled_from(FRACTIONS))])
        if draw(st.integers(0, 2)) == 0:
            o.append(["-O"])
        if draw(st.integers(0, 5)) == 0:
            o.append(["-D"])
    elif tool == "ngram" and draw(st.booleans()):
        o.append(["-n", draw(st.sampled_from("123"))])
    elif tool == "editop" and draw(st.integers(0, 2)) == 0:
        o.append(["-D"])
    elif tool == "wordacc" and draw(st.booleans()):
        o.append(["-S", ("stop",)])
    return o


def report_bytes(draw, role, nonempty):
    if role == "acc":
        d = draw(gen.acc(big=draw(st.booleans())))
        if nonempty and not d["chars"]:
            d["chars"] = {97: [3, 1]}
        return gen.acc_obj(d).format()
    if role == "wac":
        d = draw(gen.wac(big=draw(st.booleans())))
        r = gen.wac_obj(d)
        if nonempty and not r.total[0]:
            r = gen.wac_obj(dict(stop={"the": [2, 1]}, non={}, phrase={1: [2, 1]}))
        return r.format()
    return gen.edo_obj(draw(gen.edo())).format()


@st.composite
def invocations(draw, tools=None, sizes=(0, 1, 3, 6, 12, 20), wordy=True):
    tool = draw(st.sampled_from(tools or TOOLS))
    roles, extra, most = SHAPE[tool]
    roles = list(roles) + [extra] * draw(st.integers(0, most))
    opts = draw(options(tool, len(roles)))
    n = sum(1 for r in roles if r in ("text", "correct"))
    kind = draw(st.integers(0, 5))
    if wordy and (tool.startswith("word") or kind == 0):
        p = draw(gen.word_pair())
        txts = [draw(st.sampled_from(p)) for _ in range(n)]
        if n == 2:
            txts = list(p)
    elif kind == 1:
        txts = draw(gen.longer_texts(max(n, 1), 40, 200, 8))
    else:
        txts = draw(gen.texts(max(n, 1), sizes))
    txts = [enc(t) for t in txts]
    files = []
    for i, r in enumerate(roles):
        if r in ("text", "correct"):
            data = txts.pop()
            if r == "text" and draw(st.integers(0, 4)) == 0:
                data = enc(gen.header()) + data
        elif r == "group":
            data = enc("".join(draw(st.lists(gen.anychar(), max_size=8))) + "abc")
        elif r == "stop":
            data = enc(" ".join(draw(st.lists(st.sampled_from(gen.SIMPLE_WORDS),
                                              max_size=6))))
        else:
            data = report_bytes(draw, r, i < 2 and tool.endswith("ci"))
        files.append([r, data])
    args = []
    for o in opts:
        if len(o) > 1 and isinstance(o[1], tuple):
            files.append(["stop", enc(" ".join(draw(st.lists(
                st.sampled_from(gen.SIMPLE_WORDS), max_size=6))))])
            o = [o[0], len(files) - 1]
        args += o
    args += list(range(len(roles)))
    return [tool, args, files]


def names_of(files, prefix="f"):
    return ["%s%d" % (prefix, i) for i in range(len(files))]


def place(ctx, files, names=None):
    names = names or names_of(files)
    for n, (_, data) in zip(names, files):
        ctx.put(n, data)
    return names


def argv(args, names):
    return [names[a] if isinstance(a, int) else a for a in args]


def refused(r, tool, what):
    """A failure has to be reported: status, message naming the tool."""
    require(r.rc != 0, "%s: %s exits with status 0; stdout %s", tool, what, brief(r.out))
    require(r.err.startswith(tool.encode() + b": ") and r.err.endswith(b"\n"),
            "%s: %s gives no message; stderr %s", tool, what, brief(r.err))
