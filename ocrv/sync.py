"""Reference models of the alignments.

A text is a list of code points.  An alignment of k texts is a list of
segments (matched, ((start, stop), ...)) covering every text in order,
matched segments being separated by unmatched ones or adjacent to matches of
another recursion level exactly as the algorithm defines them.
"""
REJECT = ord("~")


def levenshtein(a, b):
    """Bit-parallel unit-cost edit distance in which '~' matches nothing."""
    if not a:
        return len(b)
    if not b:
        return len(a)
    m = len(a)
    peq = {}
    bit = 1
    for x in a:
        if x != REJECT:
            peq[x] = peq.get(x, 0) | bit
        bit <<= 1
    mask = (1 << m) - 1
    top = 1 << (m - 1)
    pv, mv, score = mask, 0, m
    for y in b:
        eq = peq.get(y, 0)
        xv = eq | mv
        xh = ((((eq & pv) + pv) ^ pv) | eq) & mask
        ph = mv | (~(xh | pv) & mask)
        mh = pv & xh
        if ph & top:
            score += 1
        elif mh & top:
            score -= 1
        ph = ((ph << 1) | 1) & mask
        mh = (mh << 1) & mask
        pv = mh | (~(xv | ph) & mask)
        mv = ph & xv
    return score


def levenshtein_plain(a, b):
    """The textbook table, for cross-checking levenshtein()."""
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            cur = row[j]
            if x == y and x != REJECT:
                row[j] = prev
            else:
                row[j] = 1 + min(prev, row[j], row[j - 1])
            prev = cur
    return row[-1]


def pairs_to_blocks(pairs):
    """Matched index pairs (ascending) -> maximal diagonal blocks (i, j, len)."""
    out = []
    for i, j in pairs:
        if out and out[-1][0] + out[-1][2] == i and out[-1][1] + out[-1][2] == j:
            out[-1][2] += 1
        else:
            out.append([i, j, 1])
    return [tuple(x) for x in out]


def blocks_to_segments(blocks, m, n):
    segs = []
    pi = pj = 0
    for i, j, l in blocks:
        if i > pi or j > pj:
            segs.append((False, ((pi, i), (pj, j))))
        segs.append((True, ((i, i + l), (j, j + l))))
        pi, pj = i + l, j + l
    if m > pi or n > pj:
        segs.append((False, ((pi, m), (pj, n))))
    return segs


def segments_cost(segs):
    """Unit-cost edit operations of a two-text alignment."""
    return sum(max(s[1][0][1] - s[1][0][0], s[1][1][1] - s[1][1][0])
               for s in segs if not s[0])


def edit_segments(a, b):
    """One optimal alignment: furthest-reaching points per cost and diagonal,
    a tie going to the deletion from a, then the substitution."""
    m, n = len(a), len(b)
    rows = []
    p = 0
    goal = n - m
    while True:
        row = {}
        prev = rows[-1] if rows else None
        for k in range(max(-m, -p), min(n, p) + 1):
            if prev is None:
                i = 0
            else:
                i = -1
                for kk in (k - 1, k, k + 1):
                    v = prev.get(kk)
                    if v is None:
                        continue
                    if kk >= k:
                        v += 1
                    if v >= i:
                        i = v
                if i < 0:
                    continue
            if i > m or i + k > n or i + k < 0:
                # beyond the texts: a longer way round to the border
                if i > m:
                    continue
                if i + k > n or i + k < 0:
                    continue
            j = i + k
            while i < m and j < n and a[i] == b[j] and a[i] != REJECT:
                i += 1
                j += 1
            row[k] = i
        rows.append(row)
        if row.get(goal, -1) >= m:
            break
        p += 1
    # trace back
    blocks = []
    k = goal
    for p in range(len(rows) - 1, -1, -1):
        f = rows[p][k]
        if p == 0:
            start, pk = 0, k
        else:
            start, pk = -1, None
            prev = rows[p - 1]
            for kk in (k - 1, k, k + 1):
                v = prev.get(kk)
                if v is None:
                    continue
                if kk >= k:
                    v += 1
                if v >= start:
                    start, pk = v, kk
        if f > start:
            blocks.append((start, start + k, f - start))
        k = pk
    blocks.reverse()
    return blocks_to_segments(blocks, m, n)


def optimal_alignments(a, b, cap=3000):
    """All optimal two-text alignments as segment lists, distinct by matched
    pairs; None if there are more than cap."""
    m, n = len(a), len(b)
    d = [[0] * (n + 1) for _ in range(m + 1)]
    for i in range(m, -1, -1):
        for j in range(n, -1, -1):
            if i == m or j == n:
                d[i][j] = (m - i) + (n - j)
                continue
            if a[i] == b[j] and a[i] != REJECT:
                best = d[i + 1][j + 1]
            else:
                best = 1 + d[i + 1][j + 1]
            d[i][j] = min(best, 1 + d[i + 1][j], 1 + d[i][j + 1])
    out = set()
    seen = 0
    stack = [(0, 0, ())]
    visited = set()
    while stack:
        i, j, pairs = stack.pop()
        if (i, j, pairs) in visited:
            continue
        visited.add((i, j, pairs))
        seen += 1
        if seen > 40 * cap or len(out) > cap:
            return None
        if i == m and j == n:
            out.add(pairs)
            continue
        c = d[i][j]
        if i < m and j < n:
            if a[i] == b[j] and a[i] != REJECT:
                if d[i + 1][j + 1] == c:
                    stack.append((i + 1, j + 1, pairs + ((i, j),)))
            if d[i + 1][j + 1] + 1 == c:
                stack.append((i + 1, j + 1, pairs))
        if i < m and d[i + 1][j] + 1 == c:
            stack.append((i + 1, j, pairs))
        if j < n and d[i][j + 1] + 1 == c:
            stack.append((i, j + 1, pairs))
    return [blocks_to_segments(pairs_to_blocks(p), m, n) for p in sorted(out)]


def longest_common(a, a0, a1, b, b0, b1):
    """Longest common substring of a[a0:a1] and b[b0:b1] without '~':
    (length, start in a, start in b), earliest in a, then in b."""
    best, bi, bj = 0, -1, -1
    index = {}
    for j in range(b0, b1):
        index.setdefault(b[j], []).append(j)
    prev = {}
    # work backwards so that run lengths are known at their start
    for i in range(a1 - 1, a0 - 1, -1):
        cur = {}
        x = a[i]
        if x != REJECT:
            for j in index.get(x, ()):
                l = prev.get(j + 1, 0) + 1
                cur[j] = l
                if l > best or (l == best and (i < bi or (i == bi and j < bj))):
                    best, bi, bj = l, i, j
        prev = cur
    return best, bi, bj


def multi_segments(texts):
    """Recursive longest-common-substring alignment of k texts."""
    k = len(texts)
    out = []

    def go(region):
        if any(lo >= hi for lo, hi in region):
            if any(lo < hi for lo, hi in region):
                out.append((False, tuple(region)))
            return
        start = [region[0][0]] + [0] * (k - 1)
        length = region[0][1] - region[0][0]
        for t in range(1, k):
            l, s0, st = longest_common(texts[0], start[0], start[0] + length,
                                       texts[t], region[t][0], region[t][1])
            if l == 0:
                out.append((False, tuple(region)))
                return
            shift = s0 - start[0]
            for u in range(t):
                start[u] += shift
            start[t] = st
            length = l
        go([(region[u][0], start[u]) for u in range(k)])
        out.append((True, tuple((s, s + length) for s in start)))
        go([(start[u] + length, region[u][1]) for u in range(k)])

    if any(texts):
        go([(0, len(t)) for t in texts])
    return out


def transposed(a, b):
    """Greedy transposed alignment: two lists of (match number or None, start,
    stop), numbers ascending in the first."""
    s1 = [[None, 0, len(a)]] if a else []
    s2 = [[None, 0, len(b)]] if b else []
    ident = 0
    memo = {}
    while True:
        best, pick = 0, None
        for p, x in enumerate(s1):
            if x[0] is not None or x[2] - x[1] <= best:
                continue
            for q, y in enumerate(s2):
                if y[0] is not None or y[2] - y[1] <= best:
                    continue
                key = (x[1], x[2], y[1], y[2])
                r = memo.get(key)
                if r is None:
                    r = memo[key] = longest_common(a, x[1], x[2], b, y[1], y[2])
                if r[0] > best:
                    best, pick = r[0], (p, q, r[1], r[2])
        if best == 0:
            break
        p, q, i, j = pick
        ident += 1
        for lst, at, pos in ((s1, p, i), (s2, q, j)):
            x = lst[at]
            new = []
            if pos > x[1]:
                new.append([None, x[1], pos])
            new.append([ident, pos, pos + best])
            if x[2] > pos + best:
                new.append([None, pos + best, x[2]])
            lst[at:at + 1] = new
    number = {}
    for x in s1:
        if x[0] is not None:
            number[x[0]] = len(number) + 1
    f = lambda lst: [(None if x[0] is None else number[x[0]], x[1], x[2]) for x in lst]
    return f(s1), f(s2)


def lcs_length(a, b):
    """Bit-parallel LCS length of two sequences of hashables."""
    if not a or not b:
        return 0
    pm = {}
    bit = 1
    for x in a:
        pm[x] = pm.get(x, 0) | bit
        bit <<= 1
    mask = bit - 1
    v = mask
    for y in b:
        u = v & pm.get(y, 0)
        v = ((v + u) | (v - u)) & mask
    return len(a) - bin(v).count("1")
