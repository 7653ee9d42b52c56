"""Every failure is reported: non-zero exit status and a message"""
import errno
import os
import resource
import signal
import subprocess
import time

from .inv import *

MISSING = ["nothere", "no/such/dir", "f0/below", "", "x" * 300, "x" * 5000,
           "@dir", "@loop", "@dangling", "/proc/self/mem", "@dir/"]


def setup_names(ctx):
    os.mkdir("dir")
    os.symlink("loop", "loop")
    os.symlink("nowhere", "dangling")


def real(name):
    return name.replace("@", "") if name.startswith("@") else name


def check_input(ctx, case):
    """One input cannot be opened or read."""
    (tool, args, files), at, how = case
    names = place(ctx, files)
    setup_names(ctx)
    ctx.ok(tool, argv(args, names))
    at %= len(files)
    bad = list(names)
    bad[at] = real(how)
    r = ctx.run(tool, argv(args, bad))
    refused(r, tool, "%s file %r" % (files[at][0], real(how)[:50]))
    ctx.mark(tool, "kind %s" % how[:12])


def inputs():
    return st.tuples(invocations(sizes=(0, 3, 8)), st.integers(0, 6),
                     st.sampled_from(MISSING))


def all_inputs(tier, rng):
    for tool in TOOLS:
        roles, extra, most = SHAPE[tool]
        roles = roles + ([extra] if extra else [])
        files = [[r, GOOD[r]] for r in roles]
        args = list(range(len(roles)))
        sets = [args]
        if tool == "wordacc":
            files.append(["stop", GOOD["stop"]])
            sets.append(["-S", len(roles)] + args)
        if tool == "synctext":
            sets += [["-T"] + args[:2], ["-H"] + args]
        if tool == "vote":
            sets += [["-O"] + args]
        for a in sets:
            for at in range(len(files)):
                if at not in a:
                    continue
                for how in MISSING:
                    yield [[tool, a, files], at, how]


GOOD = {"correct": b"the quick fox\n", "text": b"the quack fox", "group": b"abc",
        "stop": b"the fox", "acc": gen.acc_obj(dict(
            chars={97: [3, 1], 98: [2, 0]}, conf={}, rej=0, sus=0, fm=0)).format(),
        "wac": gen.wac_obj(dict(stop={"the": [2, 1]}, non={"fox": [1, 0]},
                                phrase={1: [3, 1]})).format(),
        "edo": gen.edo_obj(dict(ins=2, dele=1, moves={3: 1})).format()}
REPORTS = ("acc", "wac", "edo")


# ---- not a report of the kind the tool expects

def check_report(ctx, case):
    (tool, args, files), at, bad = case
    reps = [i for i, (r, _) in enumerate(files) if r in REPORTS]
    at = reps[at % len(reps)]
    role = files[at][0]
    names = place(ctx, files)
    data, what = damaged(files[at][1], role, bad)
    ctx.put(names[at], data)
    r = ctx.run(tool, argv(args, names))
    refused(r, tool, what)
    ctx.mark(tool, what)


FIXED = {"acc": 15, "wac": 4, "edo": 5}      # lines without which it is no report
NUMBERS = {"acc": (2, 3, 6, 7, 8, 13, 14, 15), "wac": (2, 3), "edo": (2, 3, 4)}


def damaged(data, role, bad):
    kind, n = bad
    lines = data.split(b"\n")
    if kind == "other kind":
        other = [r for r in REPORTS if r != role] + ["text", "stop"]
        o = other[n % len(other)]
        return GOOD[o], "a %s instead of a %s report" % (o, role)
    if kind == "empty":
        return [b"", b"\n", b"\n" * 30][n % 3], "an empty report"
    if kind == "cut":
        k = n % FIXED[role]
        return b"\n".join(lines[:k]) + (b"\n" if k else b""), "a report cut off"
    if kind == "not a number":
        k = NUMBERS[role][n % len(NUMBERS[role])]
        lines[k] = [b"", b"x", b"    -", b"<>  12", b"Total"][n % 5] + \
            lines[k].strip(b" 0123456789-")
        return b"\n".join(lines), "a report without a number"
    if kind == "number missing":
        import re
        k = NUMBERS[role][n % len(NUMBERS[role])]
        found = list(re.finditer(rb" *-?[0-9]+", lines[k]))
        m = found[n // len(NUMBERS[role]) % len(found)]
        # (what a marker or percent sign leaves is no number either)
        lines[k] = lines[k][:m.start()] + (b"" if n % 2 else b"        x") + \
            lines[k][m.end():]
        return b"\n".join(lines), "a report without one of its numbers"
    if kind == "title":
        t = lines[0]
        lines[0] = [t.lower(), b" " + t, t[1:], t.replace(b"Report", b"report"),
                    b"", t.replace(b"ocreval", b"OCR")][n % 6]
        return b"\n".join(lines), "a wrong title"
    if kind == "divider":
        lines[1] = [b"", lines[1][1:], lines[1] + b"-", b" " + lines[1],
                    b"=" * len(lines[1])][n % 5]
        return b"\n".join(lines), "a wrong divider"
    if kind == "no title":
        return b"\n".join(lines[1:]), "a report without title"
    if kind == "blank first":
        return b"\n" + data, "a report after a blank line"
    if kind == "entry":
        return bad_entry(data, role, n)
    raise AssertionError(kind)


ENTRIES = [b"{", b"{}", b"{ab}", b"a}", b"{<41}", b"{<g>}", b"{<>}", b"{<\\n}", b"",
           "{\u25ccx}".encode(), b"{<110000>}", b"{\xff}", b"{a", b"(a)", b"{<41>",
           "{\u25cc\u0301".encode(), b"{\xc3}", b"<41>", b"{<41x}", b"{<\\nx}", b"{<an>}", b"{<\\m>}"]


def bad_entry(data, role, n):
    """An entry that cannot stand in a table of the report."""
    if role == "acc":
        if n % 3 or data.split(b"\n")[2].split()[0] == b"0":
            data = GOOD["acc"]
        lines = data.split(b"\n")[:-1]
        at = len(lines) - 1
        while lines[at - 1].count(b"{") and n % 5 == 0 and lines[at - 1].endswith(b"}") \
                and lines[at - 1].split(None, 3)[3][:1] == b"{" \
                and b"Right" not in lines[at - 2]:
            at -= 1
        cols = lines[at].split(None, 3)
        lines[at] = b"%8s %8s %8s   %s" % (*cols[:3], ENTRIES[n % len(ENTRIES)])
        return b"\n".join(lines) + b"\n", "a report with an invalid character entry"
    if role == "wac":
        data = GOOD["wac"]
        good = [i for i, l in enumerate(data.split(b"\n"))
                if len(l.split()) == 4 and l.split()[3].isdigit()]
        lines = data.split(b"\n")
        at = good[n % len(good)]
        cols = lines[at].split()
        lines[at] = b"%8s %8s %8s   %s" % (*cols[:3],
                                           [b"101", b"-1", b"999", b"2147483647"][n % 4])
        return b"\n".join(lines), "a report with an impossible length"
    lines = GOOD["edo"].split(b"\n")
    at = max(i for i, l in enumerate(lines) if len(l.split()) == 2)
    lines[at] = b"%8d %8s" % (1, [b"0", b"-1", b"101", b"99999"][n % 4])
    return b"\n".join(lines), "a report with an impossible move length"


def bad_reports():
    return st.tuples(invocations(REPORT_TOOLS, sizes=(0, 3)), st.integers(0, 6),
                     st.tuples(st.sampled_from(
                         ["other kind", "other kind", "empty", "cut", "cut",
                          "not a number", "number missing",
                          "number missing", "title", "divider", "no title", "blank first", "entry",
                          "entry"]),
                         st.integers(0, 400)))


# ---- interrupted

def check_interrupt(ctx, case):
    """SIGTERM or SIGINT while one input still delivers."""
    (tool, args, files), at, sig, lead = case
    names = place(ctx, files)
    at %= len(files)
    data = files[at][1]
    os.unlink(names[at])
    os.mkfifo(names[at])
    with open("err", "wb") as err, open("out", "wb") as out:
        p = subprocess.Popen([ctx.tool(tool)] + argv(args, names), stdout=out, stderr=err,
                             stdin=subprocess.DEVNULL)
    fd = None
    try:
        for _ in range(3000):
            try:
                fd = os.open(names[at], os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError as e:
                if e.errno != errno.ENXIO:
                    raise
            if p.poll() is not None:
                raise Skip          # it does not read that file
            time.sleep(0.002)
        else:
            raise Skip
        try:
            os.write(fd, data[:len(data) * lead // 10])
        except OSError:
            raise Skip
        for _ in range(3000):       # until it waits for more
            with open("/proc/%d/stat" % p.pid) as f:
                if f.read().rsplit(")", 1)[1].split()[0] in "SZ":
                    break
            time.sleep(0.002)
        if p.poll() is not None:
            raise Skip              # needs no more, e.g. a report's first lines
        p.send_signal(sig)
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            # it may have been between two reads: let it end
            raise Violation("%s goes on after signal %d" % (tool, sig))
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        if fd is not None:
            os.close(fd)
    msg = ctx.get("err")
    require(p.returncode == 1, "%s: status %d after signal %d", tool, p.returncode, sig)
    require(msg.startswith(tool.encode() + b": ") and msg.endswith(b"\n"),
            "%s: no message after signal %d: %s", tool, sig, brief(msg))
    ctx.mark(tool, "signal %d" % sig)


def interrupts():
    return st.tuples(invocations(sizes=(3, 8)), st.integers(0, 6),
                     st.sampled_from([int(signal.SIGTERM), int(signal.SIGINT)]),
                     st.integers(0, 9))


# ---- a correct file that is a generated file

def check_correct(ctx, case):
    (tool, args, files), head, text_too = case
    names = place(ctx, files)
    at = [i for i, (r, _) in enumerate(files) if r == "correct"][0]
    ctx.put(names[at], enc(head) + files[at][1])
    for n, (r, _) in zip(names, files):
        if r == "text" and text_too:
            ctx.put(n, enc(gen.header()) + GOOD["text"])
    r = ctx.run(tool, argv(args, names))
    refused(r, tool, "a correct file with a header")
    require(r.out == b"", "%s: a result in spite of a header in the correct file", tool)
    ctx.mark(tool)


def correct():
    return st.tuples(invocations(["accuracy", "editop", "wordacc"], sizes=(0, 3, 8)),
                     st.sampled_from([gen.header(), gen.header(()), text.TITLE,
                                      gen.header().replace("7.0", "5.1"),
                                      text.TITLE + "\n"]), st.booleans())


# ---- number of files

def check_count(ctx, case):
    tool, n, opts = case
    lo, hi = COUNTS[tool]
    roles, extra, _ = SHAPE[tool]
    names = []
    for i in range(n):
        role = roles[i] if i < len(roles) else extra
        names.append(ctx.put("f%d" % i, GOOD[role]) if role else "f%d" % i)
    r = ctx.run(tool, list(opts) + names)
    if lo <= n and (hi is None or n <= hi) and not ("-T" in opts and n > 2):
        require(r.rc == 0, "%s refuses %d files: %s", tool, n, brief(r.err))
        ctx.mark("accepted")
    else:
        refused(r, tool, "%d files" % n)
        require(r.out == b"", "%s: %d files are refused, but there is a result", tool, n)
        left = set(os.listdir(".")) - set(names)
        if roles != ["edo"]:
            require(not left, "%s: refuses %d files but creates %s", tool, n, left)
        ctx.mark("refused")


def counts(tier, rng):
    for tool in TOOLS:
        for opts in ([], ["-T"], ["-H"], ["-O"], ["-D"], ["-S", "f0"]):
            ok = {"-T": ("synctext",), "-H": ("synctext",), "-O": ("vote",),
                  "-D": ("editop", "vote"), "-S": ("wordacc",)}
            if opts and tool not in ok[opts[0]]:
                continue
            for n in list(range(0, 19)) + [40]:
                if n == 0 and not opts:
                    continue            # prints the usage
                yield [tool, n, opts]


# ---- output that cannot be written completely

class Limit:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.sig)


def out_args(tool, args, files, out):
    """Arguments that name an output file, or None."""
    if tool in OUT_ARG:
        return argv(args, names_of(files)) + [out]
    if tool == "vote":
        return ["-o", out] + argv(args, names_of(files))
    return None


def check_output(ctx, case):
    (tool, args, files), where, n = case
    names = place(ctx, files)
    plain = argv(args, names)
    full = ctx.ok(tool, plain)
    if where in ("stdout full", "stdout closed", "stdout limit", "stdout pipe"):
        if where == "stdout full":
            r = ctx.run(tool, plain, stdout="/dev/full")
        elif where == "stdout closed":
            r = ctx.run(tool, plain, stdout="closed")
        elif where == "stdout pipe":
            rd, wr = os.pipe()
            os.close(rd)
            try:
                r = ctx.run(tool, plain, stdout=wr, sigpipe=False)
            finally:
                os.close(wr)
        else:
            n = max(n * (len(full) + 40) // 1000, 1)
            with Limit(n):      # stderr is empty while all goes well
                fd = os.open("out", os.O_WRONLY | os.O_CREAT, 0o600)
                try:
                    r = ctx.run(tool, plain, stdout=fd, ignore_xfsz=True, err_fd=True)
                finally:
                    os.close(fd)
            if len(full) <= n:
                require(r.rc == 0, "%s fails though its output fits", tool)
                check_equal("%s: output" % tool, ctx.get("out"), full)
                return
        if full:
            refused(r, tool, "an output that cannot be written (%s)" % where)
            ctx.mark(where, tool)
        else:
            require(r.rc == 0, "%s fails without having to write", tool)
        return
    other = ctx.ok(tool, out_args(tool, args, files, "reference"))   # e.g. of -D
    full = ctx.get("reference")
    setup_names(ctx)
    out = {"no dir": "no/such/out", "dir": "dir", "loop": "loop", "full": "/dev/full",
           "below file": names[0] + "/x", "empty name": "", "limit": "out",
           "long": "y" * 300}[where]
    a = out_args(tool, args, files, out)
    if where == "limit":
        n = max(n * (len(full) + 40) // 1000, 1)
        with Limit(n):
            r = ctx.run(tool, a, ignore_xfsz=True, err_fd=True)
        if len(other) > n:
            full = other
        if len(full) <= n:
            require(r.rc == 0, "%s fails though its output fits", tool)
            check_equal("%s: output file" % tool, ctx.get("out"), full)
            return
    else:
        r = ctx.run(tool, a)
    if full or where not in ("full", "limit"):
        refused(r, tool, "an output file that cannot be written (%s)" % where)
        ctx.mark(where, tool)
    else:
        require(r.rc == 0, "%s fails without having to write", tool)


@st.composite
def outputs(draw):
    inv = draw(st.one_of(invocations(sizes=(0, 2, 8, 20)),
                         invocations(OUT_ARG + ("vote",), sizes=(0, 2, 8, 20))))
    where = ["stdout full", "stdout closed", "stdout limit", "stdout limit",
             "stdout pipe"]
    if inv[0] in OUT_ARG or inv[0] == "vote":
        where += ["no dir", "dir", "loop", "full", "below file", "empty name", "limit",
                  "limit", "long"]
    return inv, draw(st.sampled_from(where)), draw(st.integers(0, 1000))


# large outputs, where the buffer is written before the end
def check_large(ctx, case):
    tool, where, n = case
    t = "".join(chr(0x100 + i % 700) + ("\n" if i % 50 == 0 else " ") for i in range(n))
    files = {"ngram": [["text", enc(t)]], "wordfreq": [["text", enc(t)]],
             "vote": [["text", enc(t)]] * 2,
             "synctext": [["text", enc(t)], ["text", b""]],
             "accuracy": [["correct", enc(t)], ["text", b""]],
             "wordacc": [["correct", enc(t)], ["text", b""]]}[tool]
    check_output(ctx, ([tool, list(range(len(files))), files], where, n % 1000))


def large(tier, rng):
    for tool in ("ngram", "wordfreq", "vote", "synctext", "accuracy", "wordacc"):
        for n in (300, 1500, 4900):
            for where in ("stdout full", "stdout limit", "stdout closed", "stdout pipe"):
                yield [tool, where, n]
            if tool in OUT_ARG or tool == "vote":
                for where in ("full", "limit"):
                    yield [tool, where, n + 137]


# ---- inputs that may not be read, outputs that may not be created (as nobody)

SETPRIV = "/usr/bin/setpriv"


def as_nobody(ctx, tool, args):
    return ctx.run(tool, ["--reuid=65534", "--regid=65534", "--clear-groups",
                          ctx.tool(tool)] + args, prog=SETPRIV)


def check_permission(ctx, case):
    (tool, args, files), at = case
    names = place(ctx, files)
    if not os.path.exists(SETPRIV):
        raise Skip
    os.chmod(".", 0o755)
    for n in names:
        os.chmod(n, 0o644)
    r = as_nobody(ctx, tool, argv(args, names))
    if r.rc != 0:
        raise Skip      # the tools or the directory cannot be reached as nobody
    at %= len(files)
    os.chmod(names[at], 0o600)
    r = as_nobody(ctx, tool, argv(args, names))
    refused(r, tool, "a file that may not be read")
    os.chmod(names[at], 0o644)
    a = out_args(tool, args, files, "out")
    if a:
        r = as_nobody(ctx, tool, a)
        refused(r, tool, "an output file that may not be created")
    ctx.mark(tool)


def permissions():
    return st.tuples(invocations(sizes=(0, 3)), st.integers(0, 6))


# ---- whatever is accepted succeeds

def check_accepted(ctx, case):
    tool, args, files = case
    names = place(ctx, files)
    r = ctx.run(tool, argv(args, names))
    require(r.rc == 0, "%s %s fails: %s", tool, args, brief(r.err))
    if tool not in ("wordacc", "nonstopacc") and "-D" not in args:
        require(r.err == b"", "%s complains: %s", tool, brief(r.err))
    if len(r.out) > 40:
        ctx.mark(tool)


def check_program_name(ctx, case):
    """Messages name the program by the last part of its path, however long."""
    tool, path = case
    base = path.rsplit("/", 1)[-1]
    r = ctx.run(tool, ["nothere", "nothere", "nothere"], argv0=path)
    want = base.encode() + b": "
    require(r.rc != 0 and not r.out and r.err.startswith(want),
            "%s called by a path of %d characters: status %d, message %s instead of %s...",
            tool, len(path), r.rc, brief(r.err[:200]), brief(want[:200]))
    r = ctx.run(tool, [], argv0=path)
    want = b"Usage:  " + base.encode() + b" "
    require(r.rc == 0 and r.err.startswith(want),
            "%s called by a path of %d characters: usage is %s", tool, len(path),
            brief(r.err[:200]))
    ctx.mark()


def program_names(tier, rng):
    for tool in TOOLS:
        yield tool, "./" + tool
        yield tool, "a b/%s:x" % tool
        yield tool, "n" * 150 + tool
        for n in (130, 260, 5000, 32760, 32767, 32768, 32775, 40000, 65530, 65536, 65545,
                  70000, 98310, 120000):
            k = n - rng.randrange(3)
            yield tool, "x/" * (k // 2) + tool
            if rng.randrange(3) == 0:
                yield tool, "d" * k + "/" + tool
            if rng.randrange(3) == 0:
                yield tool, "/y" + tool * (k // len(tool))


SUBS = [
    Sub("program names", check_program_name, cases=program_names, weight=1,
        rule="the program's path is up to 120,000 characters long"),
    Sub("inputs", check_input, cases=all_inputs, weight=2,
        rule="each input of each tool missing, a directory, in a loop, unreadable"),
    Sub("random inputs", check_input, strategy=inputs, quick=1500, thorough=30000,
        weight=1, rule="the same in random invocations"),
    Sub("reports", check_report, strategy=bad_reports, quick=4000, thorough=80000,
        weight=2, rule="reports of another kind, cut off, without numbers or titles"),
    Sub("interrupts", check_interrupt, strategy=interrupts, quick=400, thorough=4000,
        weight=1, rule="SIGTERM or SIGINT while reading a pipe that stays open"),
    Sub("correct files", check_correct, strategy=correct, quick=700, thorough=10000,
        weight=1, rule="correct files with a header"),
    Sub("file counts", check_count, cases=counts, weight=1,
        rule="0 to 18 and 40 files for each tool"),
    Sub("outputs", check_output, strategy=outputs, quick=4000, thorough=80000, weight=3,
        rule="output that cannot be created or not completely written (size limit at "
        "every place, /dev/full, closed, broken pipe)"),
    Sub("large outputs", check_large, cases=large, weight=1,
        rule="outputs longer than the write buffer"),
    Sub("permissions", check_permission, strategy=permissions, quick=800,
        thorough=12000, weight=1, rule="as an unprivileged user"),
    Sub("accepted", check_accepted, strategy=lambda: invocations(), quick=4000,
        thorough=80000, weight=2, rule="valid invocations; non-trivial with a result"),
]
