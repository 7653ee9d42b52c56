"""Options and arguments mean the same wherever and however they are written"""
import os

from .inv import *

BOOL = {"synctext": "HisT", "vote": "DO", "editop": "D"}
STR = {"vote": "osw", "wordacc": "S", "ngram": "n"}
HELP = ["-h", "-he", "-hel", "-help"]


def parse(tool, tokens):
    """('usage'|'error', None) or ('run', ({option: value}, files))."""
    if not tokens:
        return "usage", None
    opts, files = {}, []
    i = 0
    while i < len(tokens):
        t = tokens[i]
        i += 1
        if len(t) < 2 or t[0] != "-":
            files.append(t)
            continue
        if "-help".startswith(t):
            return "usage", None
        o = t[1]
        if o in STR.get(tool, ""):
            if len(t) > 2:
                value = t[2:]
            elif i < len(tokens):
                value = tokens[i]
                i += 1
            else:
                return "error", None
            if o in opts:
                return "error", None
            opts[o] = value
        elif o in BOOL.get(tool, "") and len(t) == 2:
            if o in opts:
                return "error", None
            opts[o] = True
        else:
            return "error", None
    lo, hi = COUNTS[tool]
    if len(files) < lo or hi is not None and len(files) > hi:
        return "error", None
    if tool == "synctext" and "T" in opts and len(files) > 2:
        return "error", None
    for o in "sw":
        if tool == "vote" and o in opts and opts[o] not in FRACTIONS:
            return "error", None
    if tool == "ngram" and "n" in opts and opts["n"] not in ("1", "2", "3"):
        return "error", None
    return "run", (opts, files)


def snapshot():
    out = {}
    for e in os.scandir("."):
        with open(e.path, "rb") as f:
            out[e.name] = (f.read(), e.stat().st_mtime_ns)
    return out


def check(ctx, case):
    tool, tokens, files, names = case
    place(ctx, files, names)
    kind, what = parse(tool, tokens)
    if kind == "run":
        opts, used = what
        out = opts.get("o") if tool == "vote" else \
            used[-1] if tool in OUT_ARG and len(used) == 3 else None
        inputs = used[:2] if tool in OUT_ARG else used
        inputs = list(inputs) + [v for k, v in opts.items() if k == "S"]
        for f in inputs:
            if not os.path.isfile(f):
                kind = "error"
        if out is not None and out in names:
            raise Skip      # would replace an input
        if out == "" or out is not None and out.startswith("/") or \
                out is not None and "/" in out:
            kind = "error"
    if kind == "run":
        canonical = []
        for o, v in sorted(opts.items()):
            if v is True:
                canonical.append("-" + o)
            elif o == "o":
                continue
            else:
                canonical += ["-" + o, v]
        canonical += used[:2] if tool in OUT_ARG else used
        want = ctx.run(tool, canonical)
        r = ctx.run(tool, tokens)
        require(r.rc == want.rc, "%s %s: status %d, but %s: %d", tool, tokens, r.rc,
                canonical, want.rc)
        if want.rc == 0 and out is not None:
            full = ctx.get(out) if "D" not in opts else r.out + ctx.get(out)
            check_equal("%s %s" % (tool, tokens), full, want.out)
        elif want.rc == 0:
            check_equal("%s %s" % (tool, tokens), r.out, want.out)
        if tokens != canonical:
            ctx.mark("run", tool)
        return
    before = snapshot()
    r = ctx.run(tool, tokens)
    if kind == "usage":
        require(r.rc == 0 and r.out == b"" and
                r.err.startswith(b"Usage:") and tool.encode() in r.err,
                "%s %s: no usage message, but %r", tool, tokens, r)
        require(snapshot() == before, "%s %s: files change", tool, tokens)
        ctx.mark("usage", tool)
    else:
        refused(r, tool, "%s" % tokens)
        ctx.mark("error", tool)


JUNK = ["-x", "-", "--", "--help", "-helpx", "-H", "-hH", "-T", "-o", "-ofoo", "-D", "-O",
        "-s", "-w", "-n", "-S", "-i", "-is", "-Hi", "-DD", "-s1/2", "-w1", "-n4", "-n0",
        "-n2", "-n", "-w1/10", "-w2/1", "-s0/1", "-s1/", "-s/2", "-w+1/2", "-w1/2x",
        "-w 1/2", "-n 2", "-n22", "", "nothere", "-z9", "-1", "-\u00e9", "-h-", "-=",
        "-o=x", "-version", "-v", "-d"] + HELP


@st.composite
def cases(draw):
    tool, args, files = draw(invocations(
        TOOLS + ["synctext", "vote", "vote", "editop", "wordacc", "ngram"] * 6,
        sizes=(1, 4, 8), wordy=True))
    names = names_of(files)
    if draw(st.integers(0, 3)) == 0:
        special = draw(st.permutations(["-", "f 1", "n-h", "\u00e9", "f-help", "a=b", "%s",
                                        "'q", "h"]))
        for i in range(min(2, len(names))):
            names[i] = special[i]
    units = []      # each a list of tokens that stay together
    plain = []
    i = 0
    a = argv(args, names)
    while i < len(args):
        t = args[i]
        if isinstance(t, str):
            if t[1] in STR.get(tool, ""):
                v = a[i + 1]
                units.append([t + v] if draw(st.booleans()) and v else [t, v])
                i += 2
                continue
            units.append([t])
        else:
            plain.append([a[i]])
        i += 1
    if tool == "vote" and draw(st.integers(0, 2)) == 0:
        o = draw(st.sampled_from(["out", "out", "-help", "-O", "-", "out put", "-o"]))
        units.append(draw(st.sampled_from([["-o" + o], ["-o", o]])))
    if tool in OUT_ARG and draw(st.integers(0, 3)) == 0:
        plain.append(["out"])
    # options anywhere between the files
    merged = [list(u) for u in plain]
    for u in draw(st.permutations(units)) if units else []:
        merged.insert(draw(st.integers(0, len(merged))), u)
    tokens = [t for u in merged for t in u]
    k = draw(st.integers(0, 10))
    if k == 0:
        tokens.insert(draw(st.integers(0, len(tokens))), draw(st.sampled_from(JUNK)))
    elif k == 1:
        own = ["-" + c for c in BOOL.get(tool, "") + STR.get(tool, "")] or ["-x"]
        tokens.insert(draw(st.integers(0, len(tokens))), draw(st.sampled_from(own)))
    elif k == 2:
        tokens.insert(draw(st.integers(0, len(tokens))), draw(st.sampled_from(HELP)))
    elif k == 3 and tokens:
        j = draw(st.integers(0, len(tokens) - 1))
        tokens.insert(draw(st.integers(0, len(tokens))), tokens[j])
    elif k == 4 and tokens:
        del tokens[draw(st.integers(0, len(tokens) - 1))]
    elif k == 5:
        tokens = draw(st.lists(st.sampled_from(JUNK + names + names), max_size=5))
    return tool, tokens, files, names


def fractions(tier, rng):
    """Values of -w, -s and -n around the valid ones."""
    values = set(FRACTIONS) | {"%d/%d" % (a, b) for a in range(0, 12) for b in range(0, 12)}
    values |= {"", "1", "/", "1/", "/1", "1/2/3", "1 /2", " 1/2", "1/2 ", "a/b", "1:2",
               "-1/2", "1/-2", "01/2", "1/02", "0.5", "\u00bd", ":/9", "1/:", "//9", "9/9",
               "1//", "3/3", "\u0661/\u0662"}
    files = [["text", b"ab^c d"], ["text", b"ab^x d"], ["text", b"^a^b^y"]]
    names = names_of(files)
    for v in sorted(values):
        for o in "ws":
            yield ["vote", ["-" + o, v] + names, files, names]
            if v:
                yield ["vote", names + ["-" + o + v], files, names]
    for v in ["", "0", "1", "2", "3", "4", "5", "9", "10", "11", "-1", "+2", " 2", "2 ",
              "02", "x", "1x", "2.0", "\u0662", ":", "/"]:
        yield ["ngram", ["-n", v] + names, files, names]
        if v:
            yield ["ngram", ["-n" + v] + names, files, names]


def grid(tier, rng):
    """Every junk argument at every place for every tool."""
    for tool in TOOLS:
        from .c03 import GOOD
        roles, extra, _ = SHAPE[tool]
        files = [[r, GOOD[r]] for r in roles + ([extra] if extra else [])]
        names = names_of(files)
        for j in JUNK:
            for at in range(len(names) + 1):
                yield [tool, names[:at] + [j] + names[at:], files, names]
            yield [tool, [j], files, names]
        yield [tool, [], files, names]
        own = ["-" + c for c in BOOL.get(tool, "") + STR.get(tool, "")]
        for a in own:
            for b in own:
                yield [tool, [a, b] + names, files, names]
                yield [tool, [a] + names + [b], files, names]
                yield [tool, names[:1] + [a] + names[1:] + [b], files, names]


SUBS = [
    Sub("written", check, strategy=cases, quick=9000, thorough=200000, weight=4,
        rule="an invocation with options attached, moved, repeated, removed, mixed with "
        "junk, against a model of the command line; non-trivial unless canonical"),
    Sub("grid", check, cases=grid, weight=2,
        rule="every unusual argument at every place for every tool"),
    Sub("values", check, cases=fractions, weight=1, rule="values of -w, -s and -n"),
]
