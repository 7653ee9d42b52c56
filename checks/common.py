"""Helpers shared by the checks: expected outputs and alignment witnesses."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from ocrv import gen, reports, sync, text, uni, words  # noqa: E402
from ocrv.core import (Broken, Skip, Sub, Violation, brief, check_equal,  # noqa: E402
                       require)
from hypothesis import strategies as st  # noqa: E402

SEP = "=" * 79 + "\n"


def enc(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogatepass")


def cps(chars):
    return [c for c, _ in chars]


def synctext_output(names, texts, segs, show_suspect=False):
    """What synctext prints for an alignment; texts are [(cp, suspect)] lists."""
    o = [SEP, "\n"]
    note = 0
    for match, spans in segs:
        if not match:
            note += 1
            o.append("{%d}" % note)
            continue
        lo, hi = spans[0]
        for i in range(hi - lo):
            sus = show_suspect and any(t[s[0] + i][1] for t, s in zip(texts, spans))
            o.append(text.show(texts[0][lo + i][0], sus))
    o.append("\n")
    width = max(len(enc(n)) for n in names)
    pad = lambda n: n + " " * (width - len(enc(n)))
    note = 0
    for match, spans in segs:
        if match:
            continue
        note += 1
        o.append(SEP)
        o.append("{%d}\n" % note)
        for n, t, (lo, hi) in zip(names, texts, spans):
            o.append(pad(n) + " {")
            for cp, sus in t[lo:hi]:
                o.append(text.show(cp, show_suspect and sus))
                if cp == 10:
                    o.append(" " * width + "  ")
            o.append("}\n")
    o.append(SEP)
    return "".join(o).encode("utf-8")


UNSAFE = set("{}=<^")


def parse_synctext(out, names, texts):
    """Alignment shown by synctext, for texts without markup characters; None if
    the texts make reading back ambiguous."""
    for t in texts:
        for c, _ in t:
            if chr(c) in UNSAFE or uni.category(c) in ("Mn", "Mc", "Me") or \
                    c == 0x25CC or (c != 10 and text.show(c) != chr(c)):
                return None
    s = out.decode("utf-8")
    parts = s.split(SEP)
    require(len(parts) >= 3 and parts[0] == "" and parts[-1] == "",
            "synctext: separators are wrong")
    body = parts[1]
    require(body.startswith("\n") and body.endswith("\n"), "synctext: frame is wrong")
    body = body[1:-1]
    width = max(len(enc(n)) for n in names)
    notes = []
    for num, p in enumerate(parts[2:-1], 1):
        head = "{%d}\n" % num
        require(p.startswith(head), "synctext: footnote %d is missing", num)
        rest = p[len(head):]
        entry = []
        for n in names:
            lead = n + " " * (width - len(n)) + " {"
            require(rest.startswith(lead), "synctext: footnote %d lacks %s", num, n)
            rest = rest[len(lead):]
            end = rest.index("}\n")
            entry.append(rest[:end].replace("\n" + " " * (width + 2), "\n"))
            rest = rest[end + 2:]
        require(rest == "", "synctext: footnote %d has too much", num)
        notes.append(entry)
    segs = []
    pos = [0] * len(names)
    expected = 1
    i = 0
    while i < len(body):
        if body[i] == "{":
            j = body.index("}", i)
            require(body[i + 1:j] == str(expected),
                    "synctext: gap %s where %d is due", body[i + 1:j], expected)
            require(expected <= len(notes), "synctext: no footnote %d", expected)
            spans = []
            for k, e in enumerate(notes[expected - 1]):
                spans.append((pos[k], pos[k] + len(e)))
                pos[k] += len(e)
            segs.append((False, tuple(spans)))
            expected += 1
            i = j + 1
        else:
            j = body.find("{", i)
            j = len(body) if j < 0 else j
            segs.append((True, tuple((p, p + j - i) for p in pos)))
            pos = [p + j - i for p in pos]
            i = j
    require(expected == len(notes) + 1, "synctext: footnote %d has no gap", expected)
    return segs


def validate_alignment(texts, segs, what="synctext"):
    """Segments cover the texts in order and matches are equal and free of '~'."""
    pos = [0] * len(texts)
    for match, spans in segs:
        for k, (lo, hi) in enumerate(spans):
            require(lo == pos[k] and lo <= hi <= len(texts[k]),
                    "%s: text %d is not covered in order", what, k + 1)
            pos[k] = hi
        if match:
            first = texts[0][spans[0][0]:spans[0][1]]
            require(first, "%s: empty match", what)
            require(sync.REJECT not in first, "%s: '~' is part of a match", what)
            for t, (lo, hi) in zip(texts, spans):
                require(t[lo:hi] == first, "%s: a match differs between files", what)
        else:
            require(any(lo < hi for lo, hi in spans), "%s: empty gap", what)
    require(pos == [len(t) for t in texts], "%s: a text is not shown completely", what)


def candidate_alignments(a, b, limit=1600):
    """The port's alignment first, then (if few enough) all optimal ones.
    Yields (segs); attribute of completeness is returned by the generator."""
    first = sync.edit_segments(a, b)
    yield first
    if len(a) * len(b) <= limit:
        every = sync.optimal_alignments(a, b)
        if every is not None:
            for s in every:
                yield s
            return True
    return False


def find_alignment(a, b, accept):
    """(segs or None, complete): an optimal alignment accepted by accept()."""
    g = candidate_alignments(a, b)
    while True:
        try:
            s = next(g)
        except StopIteration as e:
            return None, e.value
        if accept(s):
            return s, True


def synctext_alignment(out, names, texts, show_suspect=False):
    """Alignments consistent with synctext's output: a list, or None if the
    output cannot be attributed (too large for enumeration, ambiguous)."""
    a, b = cps(texts[0]), cps(texts[1])
    segs, complete = find_alignment(
        a, b, lambda s: synctext_output(names, texts, s, show_suspect) == out)
    if segs is not None:
        return segs
    parsed = parse_synctext(out, names, texts) if not show_suspect else None
    if parsed is not None:
        validate_alignment([a, b], parsed)
        best = sync.levenshtein(a, b)
        require(sync.segments_cost(parsed) == best,
                "synctext: alignment costs %s, %s is possible",
                sync.segments_cost(parsed), best)
        check_equal("synctext output", out,
                    synctext_output(names, texts, parsed, show_suspect))
        return parsed
    if complete:
        check_equal("synctext shows no minimal alignment", out,
                    synctext_output(names, texts, sync.edit_segments(a, b),
                                    show_suspect))
    return None
