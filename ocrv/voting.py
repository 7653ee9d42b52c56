"""Reference model of vote."""
from .sync import multi_segments
from .text import REJECT, show


def vote(texts, m_w=1, n_w=1, threshold=0):
    """texts: lists of (cp, suspect) -> list of (cp, suspect)."""
    out = []
    for match, spans in multi_segments([[c for c, _ in t] for t in texts]):
        width = max(hi - lo for lo, hi in spans)
        col = 0
        while True:
            tally = {}      # insertion order is order of first vote
            for t, (lo, hi) in zip(texts, spans):
                if lo + col < hi:
                    cp, sus = t[lo + col]
                    if cp == REJECT:
                        continue
                    tally[cp] = tally.get(cp, 0) + (m_w if sus else n_w)
                else:
                    tally[None] = tally.get(None, 0) + n_w
            col += 1
            if not tally:
                out.append((REJECT, False))
                continue
            best = max(tally.values())
            lead = next(c for c in tally if tally[c] == best)
            if lead is None:
                break
            out.append((lead, best <= threshold))
            assert col <= width
    return out


def render(out):
    return "".join(show(c, s) for c, s in out).encode("utf-8")


def distances(texts):
    counts = []
    for t in texts:
        d = {}
        for (x, _), (y, _) in zip(t, t[1:]):
            d[x, y] = d.get((x, y), 0) + 1
        counts.append(d)
    dist = [0.0] * len(texts)
    for k in set().union(*counts):
        v = [d.get(k, 0) for d in counts]
        s = sorted(v)
        n = len(s)
        med = s[n // 2] if n & 1 else (s[n // 2 - 1] + s[n // 2]) / 2
        if REJECT in k:
            med = 0
        for i in range(n):
            dist[i] += abs(v[i] - med)
    return dist


def ranking(texts):
    d = distances(texts)
    return sorted(range(len(texts)), key=lambda i: (d[i], i)), d
