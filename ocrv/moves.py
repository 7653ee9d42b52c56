"""Reference model of editop's counting of operations."""
from .reports import Edo
from .sync import REJECT, transposed


def count_moves(order, debug=None):
    """order: [(match number, length)] as in the generated text -> lengths moved."""
    blocks = list(order)        # [rank, length]
    log = debug if debug is not None else []

    def show(label):
        log.append("%-9s:" % label + "".join(" {%d:%d}" % b for b in blocks) + "\n\n")

    def combine():
        out = []
        prev_old = None
        merged = []             # ranks that disappear
        for r, l in blocks:
            if out and r == prev_old + 1:
                out[-1] = (out[-1][0], out[-1][1] + l)
                merged.append(r)
            else:
                out.append((r, l))
            prev_old = r
        ranks = sorted(r for r, _ in out)
        new = {r: i + 1 for i, r in enumerate(ranks)}
        blocks[:] = [(new[r], l) for r, l in out]
        show("combined")

    moved = []
    show("original")
    combine()
    while len(blocks) > 1:
        at = {r: i for i, (r, _) in enumerate(blocks)}
        best = None
        for r in range(1, len(blocks) + 1):
            i = at[r]
            # would its neighbours join, and would it join its new neighbours?
            red = 1
            if 0 < i < len(blocks) - 1 and blocks[i + 1][0] == blocks[i - 1][0] + 1:
                red += 1
            if 1 < r < len(blocks) and at.get(r + 1) == at[r - 1] + 1:
                red += 1
            key = (-red, blocks[i][1], r)
            if best is None or key < best:
                best = key
        r = best[2]
        b = blocks.pop(at[r])
        if r == 1:
            j = next(i for i, x in enumerate(blocks) if x[0] == 2)
        else:
            j = next(i for i, x in enumerate(blocks) if x[0] == r - 1) + 1
        blocks.insert(j, b)
        moved.append(b[1])
        show("moved %d" % r)
        combine()
    return moved


def editop(a, b, debug=None):
    """a, b: code point lists."""
    s1, s2 = transposed(a, b)
    r = Edo()
    r.ins = sum(1 for m, lo, hi in s1 if m is None for i in range(lo, hi)
                if a[i] != REJECT)
    r.dele = sum(hi - lo for m, lo, hi in s2 if m is None)
    for l in count_moves([(m, hi - lo) for m, lo, hi in s2 if m is not None], debug):
        l = min(l, 100)
        r.moves[l] = r.moves.get(l, 0) + 1
    return r
