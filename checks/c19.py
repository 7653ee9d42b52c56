"""wordacc recognises a longest common word sequence and accounts for all words"""
from .common import *


def port(a, b):
    """The tools' choice among the longest common subsequences: diagonals of
    furthest points, ties going to the skipped correct word."""
    inb, ina = set(b), set(a)
    ia = [i for i, w in enumerate(a) if w in inb]
    fb = [w for w in b if w in ina]
    fa = [a[i] for i in ia]
    m, n = len(fa), len(fb)
    rows = []
    p = -1
    done = False
    while not done:
        p += 1
        row = {}
        prev = rows[-1] if rows else None
        for k in range(-p, p + 1, 2):
            if k < -m or k > n:
                continue
            i = 0
            if prev is not None:
                i = -1
                if k - 1 in prev:
                    i = prev[k - 1]
                if k + 1 in prev and prev[k + 1] + 1 >= i:
                    i = prev[k + 1] + 1
                if i < 0:
                    continue
            if i > m or i + k > n or i + k < 0:
                continue
            j = i + k
            while i < m and j < n and fa[i] == fb[j]:
                i += 1
                j += 1
            row[k] = i
        rows.append(row)
        done = row.get(n - m, -1) >= m
    rec = [False] * len(a)
    k = n - m
    for p in range(len(rows) - 1, -1, -1):
        f = rows[p][k]
        if p == 0:
            start, pk = 0, k
        else:
            prev = rows[p - 1]
            start, pk = -1, None
            if k - 1 in prev:
                start, pk = prev[k - 1], k - 1
            if k + 1 in prev and prev[k + 1] + 1 >= start:
                start, pk = prev[k + 1] + 1, k + 1
        for x in range(start, f):
            rec[ia[x]] = True
        k = pk
    return rec


def recognized_sets(a, b, cap=4000):
    """All index sets of a that a longest common subsequence can use; None if
    too many."""
    m, n = len(a), len(b)
    if m * n > 900:
        return None
    L = [[0] * (n + 1) for _ in range(m + 1)]
    for i in range(m - 1, -1, -1):
        for j in range(n - 1, -1, -1):
            L[i][j] = L[i + 1][j + 1] + 1 if a[i] == b[j] else max(L[i + 1][j],
                                                                   L[i][j + 1])
    out, seen = set(), set()
    stack = [(0, 0, ())]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 30 * cap or len(out) > cap:
            return None
        i, j, s = x
        if L[i][j] == 0:
            out.add(s)
            continue
        if a[i] == b[j]:
            stack.append((i + 1, j + 1, s + (i,)))
        if L[i + 1][j] == L[i][j]:
            stack.append((i + 1, j, s))
        if L[i][j + 1] == L[i][j]:
            stack.append((i, j + 1, s))
    return out


def invariants(rep, a, b, stop):
    lcs = sync.lcs_length(a, b)
    require(rep.total == [len(a), len(a) - lcs],
            "wordacc: %s words, %s misrecognised; %d words, %d can be recognised",
            rep.total[0], rep.total[1], len(a), lcs)
    counts = {}
    for w in a:
        counts[w] = counts.get(w, 0) + 1
    require({w: v[0] for w, v in rep.stop.items()} ==
            {w: c for w, c in counts.items() if w in stop}, "wordacc: stopword list")
    require({w: v[0] for w, v in rep.non.items()} ==
            {w: c for w, c in counts.items() if w not in stop},
            "wordacc: non-stopword list")
    missed = {w: v[1] for d in (rep.stop, rep.non) for w, v in d.items()}
    require(sum(missed.values()) == rep.total[1], "wordacc: misses do not add up")
    # occurrences within the generated text bound what can be recognised
    gen_counts = {}
    for w in b:
        gen_counts[w] = gen_counts.get(w, 0) + 1
    for w, c in counts.items():
        require(c - missed[w] <= gen_counts.get(w, 0), "wordacc: %r recognised too often", w)
    # everything but the phrases follows from the word lists
    rec = []
    for w in a:
        if missed[w]:
            missed[w] -= 1
            rec.append(False)
        else:
            rec.append(True)
    want = reports.wac_from_words(a, rec, stop)
    for part in ("stop_len", "non_len", "distinct", "stop", "non"):
        require(getattr(rep, part) == getattr(want, part), "wordacc: section %s is %s, "
                "the word lists say %s", part, getattr(rep, part), getattr(want, part))
    require(rep.phrase.get(1, [0, 0]) == rep.total, "wordacc: phrases of one word")
    last = 0
    for i in range(1, 9):
        c, m = rep.phrase.get(i, [0, 0])
        require(c == max(0, len(a) - i + 1), "wordacc: %d phrases of length %d", c, i)
        require(c == 0 or c - m <= (rep.phrase[1][0] - rep.phrase[1][1]),
                "wordacc: phrases of length %d", i)


def verify(ctx, out, a, b, stop):
    rec = port(a, b)
    want = reports.wac_from_words(a, rec, stop)
    if out == want.format():
        return True
    # another longest common subsequence is as good
    rep = reports.parse_wac(out)
    invariants(rep, a, b, stop)
    every = recognized_sets(a, b)
    if every is not None:
        for s in every:
            if reports.wac_from_words(a, [i in s for i in range(len(a))],
                                      stop).format() == out:
                ctx.label("other tie")
                return True
        check_equal("wordacc report matches no longest common word sequence", out,
                    want.format())
    check_equal("wordacc report", out, rep.format())
    ctx.label("undecided")
    return True


def check(ctx, case):
    (s, t), stopfile = case
    ctx.put("c", enc(s))
    ctx.put("g", enc(t))
    args = []
    stop = set(words.STOPWORDS)
    if stopfile is not None:
        ctx.put("stop", enc(stopfile))
        args = ["-S", "stop"]
        stop = set(words.stopwords(enc(stopfile)))
    a, b = words.words(enc(s)), words.words(enc(t))
    out = ctx.ok("wordacc", args + ["c", "g"])
    verify(ctx, out, a, b, stop)
    missed = len(a) - sync.lcs_length(a, b)
    if missed and missed < len(a):
        ctx.mark()
    for l, c in (("own stopwords", stopfile is not None),
                 ("stopwords", any(w in stop for w in a)),
                 ("over 50 characters", any(len(w) > 50 for w in a)),
                 ("over 10 times", any(a.count(w) > 10 for w in set(a[:40]) - stop)),
                 ("8 in a row", len(a) > 8)):
        if c:
            ctx.label(l)


def stopfiles():
    return st.one_of(st.none(), st.none(), st.lists(st.sampled_from(
        ["the", "x", "THE", "zebra", "of", "caf\u00e9", "cafe\u0301", "v" * 80, "word",
         "don't", "^x", "q", "\t\u00a0", "---", "th^e", "o^^f", "^", "wo~rd", "of^",
         gen.header()]), max_size=6).map("\n".join),
        st.just(""))


ENGLISH = """above across actually again against ago almost alone along already although
always am amid among amongst another anybody anyone anything anyway anywhere apart around
aside ask asked away became become becomes becoming before began begin behind being below
beneath beside besides best better between beyond big both bring brought call called came
case certain certainly clear clearly come comes considered course day days despite
different done due during early either else end ended enough even evenly ever every
everybody everyone everything everywhere example except eight eleven face fact facts far
fast felt few fifth fifty find five found four fully further furthermore gave general
generally gets getting give given gives go goes going gone got gotten great greater group
hardly has hasn't haven't having head held hence here herself herein hers high higher hi
himself hers hope hour house however hundred i'd i'll i'm i've important inc indeed
inside instead interest isn't it'd it'll itself i.e e.g keep keeps kept kind knew known
large largely last lately later latest latter least left less lest let lets life likely
line live long-term look looking looks lot low made mainly maybe mean means meanwhile men
merely might mine miss moment month mostly mr mrs ms much must myself name namely near
nearly necessary need needed needs neither never nevertheless next nine nobody none noone
nor normally nothing nowhere number o'clock obviously off often oh ok okay old older once
ones onto open order others otherwise ought ours ourselves outside overall own page part
particular past people per perhaps place placed please plus point possible present
presented probably problem put quite rather re really regarding right room round saw say
saying says second see seeing seem seemed seeming seems seen self sent seven several
shall should show side since six small somebody somehow someone something sometime
sometimes somewhat somewhere soon still stop such sure system take taken tell ten tends
thank thanks thats theirs themselves thence thereafter thereby therefore thing things
think third those though thought thousand three through throughout thru thus till time
times today together told took toward towards tried tries true try trying turn twelve
twenty twice under unless unlike until unto upon use useful uses using usually value
various via vs want wants wasn't water ways week weeks well went weren't whatever whence
whenever whereas whereby wherein wherever whether whither whoever whole whom whose wide
will wish within without women won't wonder word words work works world worse worst
wouldn't year years yes yet yours yourself yourselves you'd you'll you're you've zero
can't cannot couldn't didn't doesn't don't hadn't he'd he'll he's how's let's mustn't
shan't she'd she'll she's shouldn't that's there's they'd they'll they're they've we'd
we'll we're we've what's when's where's who's why's""".split()


def check_builtin(ctx, case):
    """The built-in stopwords are these 110, and no word near them or else."""
    letters = "abcdefghijklmnopqrstuvwxyz"
    ws = list(words.STOPWORDS) + ENGLISH
    ws += [a + b + c for a in letters for b in [""] + list(letters)
           for c in ([""] + list(letters) if b else [""])]
    for w in words.STOPWORDS:
        ws += [w[:i] + c + w[i + 1:] for i in range(len(w)) for c in letters]
        ws += [w[:i] + c + w[i:] for i in range(len(w) + 1) for c in letters]
        ws += [w[:i] + w[i + 1:] for i in range(len(w)) if len(w) > 1]
    ws += [v + w for v in words.STOPWORDS for w in words.STOPWORDS]
    ctx.put("c", enc(" ".join(ws)))
    ctx.put("g", b"")
    rep = reports.parse_wac(ctx.ok("wordacc", ["c", "g"]))
    require(set(rep.stop) == set(words.STOPWORDS), "built-in stopwords differ: %s",
            sorted(set(rep.stop) ^ set(words.STOPWORDS)))
    ctx.mark()


@st.composite
def stop_text(draw):
    """A stopword file that is a text of its own, and texts with its words."""
    raw = draw(st.one_of(gen.wordish(), gen.texts(1).map(lambda t: t[0]), st.lists(
        st.sampled_from([" ", "\u00a0", "\t", "\f", "\u2003", "\u2028", "\u200b", "\n",
                         "\r\n", "\u0301", "a\u0301", "of", "The", "x^y", "^", "~", "\u00ad",
                         "\ufeff", "1.5"]), max_size=12).map("".join)))
    if draw(st.integers(0, 4)) == 0:
        raw = gen.header() + raw
    ws = words.stopwords(enc(raw))
    s = "\n".join([w for w in ws if draw(st.integers(0, 5))] + ["ocreval some line 7.0 zz"])
    if draw(st.booleans()):
        s = raw + "\n" + s
    if s.startswith(gen.header()[:20]):
        s = "x\n" + s
    return (s, draw(gen.edited(s, s + "a b")) if len(s) < 60 else s + " zz"), raw


SUBS = [
    Sub("stopword texts", check, strategy=stop_text, quick=1500, thorough=30000, weight=1,
        rule="stopword files that are arbitrary texts, whose words occur in the texts"),
    Sub("builtin", check_builtin, cases=lambda t, r: [0], serial=True,
        rule="built-in stopwords"),
    Sub("words", check, strategy=lambda: st.tuples(gen.word_pair(), stopfiles()),
        quick=4500, thorough=120000, weight=3,
        rule="edited word lists; non-trivial when some but not all words are recognised"),
    Sub("many", check, strategy=lambda: st.tuples(gen.many_words(), stopfiles()),
        quick=1200, thorough=30000, weight=3, rule="30-400 words"),
    Sub("segments", check, strategy=lambda: st.tuples(
        gen.wordish().flatmap(lambda s: gen.edited(s, s + "a b").map(lambda t: (s, t))),
        stopfiles()), quick=1000, thorough=20000, weight=1,
        rule="sequences of word break classes"),
]
