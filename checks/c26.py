"""Results depend only on file contents, and inputs are never altered"""
import fcntl
import hashlib
import os
import random
import pty
import subprocess
import threading
import tty

from .inv import *
from ocrv import build as _build

# names are part of what synctext prints, unless -T is given


def prints_names(tool, args):
    return tool == "synctext" and "-T" not in args or tool == "vote" and "-D" in args


def snapshot(skip=()):
    out = {}
    for root, dirs, files in os.walk("."):
        for n in dirs:
            out[os.path.join(root, n)] = "dir"
        for n in files:
            p = os.path.normpath(os.path.join(root, n))
            if p in skip:
                continue
            s = os.lstat(p)
            if os.path.islink(p):
                out[p] = os.readlink(p)
                continue
            with open(p, "rb") as f:
                out[p] = (f.read(), s.st_mtime_ns, s.st_mode, s.st_ino, s.st_nlink)
    return out


def base(ctx, tool, args, files):
    names = place(ctx, files)
    before = snapshot()
    r = ctx.run(tool, argv(args, names))
    require(r.rc == 0, "%s fails: %s", tool, brief(r.err))
    require(snapshot() == before, "%s changes files", tool)
    return names, r


def same(what, tool, a, b):
    check_equal("%s: standard output %s" % (tool, what), b.out, a.out)
    require(b.rc == a.rc, "%s: status %s, before %s, %s", tool, b.rc, a.rc, what)
    check_equal("%s: messages %s" % (tool, what), b.err, a.err)


def check_names(ctx, case):
    (tool, args, files), how, perm = case
    names, want = base(ctx, tool, args, files)
    ctx.clean()
    rng = random.Random(perm)
    if how == "program":
        place(ctx, files, names)
        prog = rng.choice(PROGRAMS)
        os.mkdir("bin")
        os.symlink(ctx.tool(tool), "bin/" + prog)
        r = ctx.run(tool, argv(args, names), prog=os.path.join(ctx.dir, "bin", prog),
                    argv0=rng.choice([prog, "./bin/" + prog, "/" + prog]))
        head, t = prog.encode() + b": ", tool.encode() + b": "
        r.err = b"".join(t + l[len(head):] if l.startswith(head) else l
                         for l in r.err.splitlines(True))
        same("of the program called %s" % prog, tool, want, r)
    elif how in ("cwd", "absolute cwd"):
        os.makedirs("some/where")
        for n, (_, d) in zip(names, files):
            ctx.put("some/where/" + n, d)
        os.chdir("some/where")
        try:
            r = ctx.run(tool, argv(args, names))
        finally:
            os.chdir(ctx.dir)
        same("in another directory", tool, want, r)
    elif how == "links":
        os.mkdir("x")
        for i, (n, (_, d)) in enumerate(zip(names, files)):
            ctx.put("x/r%d" % i, d)
            if i % 2:
                os.link("x/r%d" % i, n)
            else:
                os.symlink("x/r%d" % i, n)
        same("with links", tool, want, ctx.run(tool, argv(args, names)))
    elif how == "old":
        place(ctx, files, names)
        for i, n in enumerate(names):
            os.utime(n, (rng.randrange(0, 10) * 7, rng.randrange(0, 10) * 11))
            os.chmod(n, 0o444)
        before = snapshot()
        same("with old read-only files", tool, want, ctx.run(tool, argv(args, names)))
        require(snapshot() == before, "%s changes files", tool)
    else:
        if prints_names(tool, args):
            raise Skip
        new = {"other": ["zz%d.txt" % (9 - i) for i in range(len(files))],
               "paths": ["./d%d/../d%d/f" % (i, i) for i in range(len(files))],
               "absolute": [os.path.join(ctx.dir, "f%d" % i) for i in range(len(files))],
               "odd": ["a b%d", "%%s%d", "\u00e9%d", "*%d", "ca'n\"t%d", "{<>}%d", "x" * 200
                       + "%d", "\t%d", "=%d", "#%d"]}[how]
        new = [(n % i if "%d" in n else n) for i, n in enumerate(new)][:len(files)]
        for i in range(len(files)):
            if how == "paths":
                os.mkdir("d%d" % i)
        place(ctx, files, new)
        same("under other names", tool, want, ctx.run(tool, argv(args, new)))
    if len(want.out) > 40:
        ctx.mark(tool, how)


PROGRAMS = ["ocr", "accuracy", "vote", "synctext", "x", "vote2", "a.out", "lt-vote", "VOTE",
            "word freq", "ngram-7.0", "-", "wordacc", "0"]
NAMES = ["program", "old", "old", "cwd", "links", "other", "paths", "absolute", "odd"]


def check_pipes(ctx, case):
    """Inputs through pipes under the same names."""
    (tool, args, files), which, chunk = case
    names, want = base(ctx, tool, args, files)
    fds = []
    try:
        for i, n in enumerate(names):
            if not which >> (i % 4) & 1 or len(files[i][1]) > 60000:
                continue
            rd, wr = os.pipe()
            os.set_inheritable(rd, True)
            fds.append(rd)
            os.write(wr, files[i][1])
            os.close(wr)
            os.unlink(n)
            os.symlink("/dev/fd/%d" % rd, n)
        r = ctx.run(tool, argv(args, names))
    finally:
        for f in fds:
            os.close(f)
    same("from pipes", tool, want, r)
    require(set(os.listdir(".")) == set(names), "%s leaves files behind", tool)
    if fds and len(want.out) > 40:
        ctx.mark(tool)


def check_fifos(ctx, case):
    """Inputs that are named pipes."""
    (tool, args, files), which = case
    names, want = base(ctx, tool, args, files)
    fifos = {}
    for i, n in enumerate(names):
        if which >> (i % 4) & 1 and names.count(n) == 1:
            fifos[n] = files[i][1]
            os.unlink(n)
            os.mkfifo(n)

    def feed(name, data):
        try:
            with open(name, "wb") as f:
                f.write(data)
        except BrokenPipeError:
            pass

    threads = [threading.Thread(target=feed, args=f, daemon=True) for f in fifos.items()]
    for t in threads:
        t.start()
    try:
        r = ctx.run(tool, argv(args, names))
    finally:
        for n in fifos:         # lets go of those that nobody opened
            fd = os.open(n, os.O_RDONLY | os.O_NONBLOCK)
            threads[list(fifos).index(n)].join(5)
            os.close(fd)
    same("from named pipes", tool, want, r)
    require(set(os.listdir(".")) == set(names), "%s leaves files behind", tool)
    if fifos and len(want.out) > 40:
        ctx.mark(tool)


ENVS = [
    {"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"}, {"LC_ALL": "de_DE.UTF-8"},
    {"LC_ALL": "tr_TR.UTF-8"}, {"LC_NUMERIC": "fr_FR"}, {"TMPDIR": "/nonexistent"},
    {"MALLOC_PERTURB_": "85"}, {"MALLOC_PERTURB_": "170"}, {"MALLOC_PERTURB_": "255"},
    {"COLUMNS": "10", "TERM": "dumb"}, {"POSIXLY_CORRECT": "1"}, {"TZ": "Asia/Tokyo"},
    {"HOME": "/nonexistent", "USER": "x"}, {"PATH": ""}, {"HUGE": "x" * 50000},
    {"MALLOC_ARENA_MAX": "1", "MALLOC_TOP_PAD_": "0", "MALLOC_MMAP_THRESHOLD_": "100"},
    {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}, {"OCREVAL": "1", "DEBUG": "1"},
]


def check_env(ctx, case):
    (tool, args, files), env, stdin = case
    names, want = base(ctx, tool, args, files)
    r = ctx.run(tool, argv(args, names), env=env, stdin=stdin)
    same("with environment %s" % brief(env, 80), tool, want, r)
    same("when repeated", tool, want, ctx.run(tool, argv(args, names)))
    if len(want.out) > 40:
        ctx.mark(tool)


def shim(ctx):
    """The preloaded library, or None if it cannot be built."""
    if "shim" not in ctx.builds:
        src = os.path.join(_build.VERIF, "checks", "c26_shim.c")
        with open(src, "rb") as f:
            so = os.path.join(_build.BUILD, "shim-%s.so" %
                              hashlib.sha256(f.read()).hexdigest()[:12])
        with open(os.path.join(_build.BUILD, "lock-shim"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not os.path.exists(so):
                r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so + ".tmp",
                                    src, "-ldl"])
                if r.returncode == 0:
                    os.rename(so + ".tmp", so)
        ctx.builds["shim"] = so if os.path.exists(so) else None
    return ctx.builds["shim"]


VALUES = ["1", "", "0", "x", "/nonexistent", "de_DE", "yes:no=1"]


def check_asked(ctx, case):
    """Whatever variables a tool asks for, and whatever time, process number and
    user it finds, the result is the same."""
    (tool, args, files), perm, value, other = case
    so = shim(ctx)
    if so is None:
        raise Skip
    # options before, between and after the file names
    groups, i = [], 0
    while i < len(args):
        n = 2 if isinstance(args[i], str) and i + 1 < len(args) and \
            args[i] in ("-w", "-s", "-n", "-S", "-o") else 1
        groups.append(args[i:i + n])
        i += n
    opts = [g for g in groups if isinstance(g[0], str)]
    rest = [g for g in groups if not isinstance(g[0], str)]
    for k, o in enumerate(opts):
        rest.insert((perm >> (4 * k)) % (len(rest) + 1), o)
    args = [a for g in rest for a in g]
    names, want = base(ctx, tool, args, files)
    log = os.path.join(ctx.io, "asked")
    if os.path.exists(log):
        os.unlink(log)
    env = {"LD_PRELOAD": so, "SHIM_LOG": log, "SHIM_TIME": "1", "SHIM_ID": "4321",
           "SHIM_TTY": "0"}
    same("under observation", tool, want, ctx.run(tool, argv(args, names), env=env))
    asked = []
    if os.path.exists(log):
        with open(log, "r", errors="replace") as f:
            asked = sorted(set(f.read().split("\n")) - {""})
        ctx.label("asks for a variable")
    env = {"LD_PRELOAD": so, "SHIM_TIME": str(other), "SHIM_ID": str(other % 30000 + 2),
           "SHIM_TTY": str(other % 2)}
    for v in asked:
        if v not in env and not v.startswith("LD_"):
            env[v] = value
    same("with %s=%s, another time and process" % (",".join(asked), value), tool, want,
         ctx.run(tool, argv(args, names), env=env))
    if len(want.out) > 40:
        ctx.mark(tool)


def check_output(ctx, case):
    """An output file gets what otherwise goes to standard output."""
    (tool, args, files), old, name, extra = case
    args = [a for a in args if a != "-D"]
    names, want = base(ctx, tool, args, files)
    if "/" in name:
        os.mkdir(name.split("/")[0])
    if old is not None:
        ctx.put(name, old)
        if extra:
            os.link(name, "hardlink")
    ctx.put("bystander", b"not concerned")
    before = snapshot((name, "hardlink"))
    a = argv(args, names)
    a = ["-o", name] + a if tool == "vote" else a + [name]
    r = ctx.run(tool, a)
    require(r.rc == 0, "%s fails with an output file: %s", tool, brief(r.err))
    check_equal("%s: output file" % tool, ctx.get(name), want.out)
    require(r.out == b"", "%s prints although there is an output file: %s", tool,
            brief(r.out))
    check_equal("%s: messages with an output file" % tool, r.err, want.err)
    require(snapshot((name, "hardlink")) == before, "%s changes other files", tool)
    again = ctx.run(tool, a)
    require(again.rc == 0, "%s fails when repeated", tool)
    check_equal("%s: output file when repeated" % tool, ctx.get(name), want.out)
    # appended or not, an output pipe or device gets it too
    if old is not None and len(old) > len(want.out):
        ctx.mark(tool, "longer contents replaced")
    elif len(want.out) > 40:
        ctx.mark(tool)


def check_over_input(ctx, case):
    """The output file may be one of the inputs, which are all read before."""
    (tool, args, files), i, via = case
    args = [a for a in args if a != "-D"]
    names, want = base(ctx, tool, args, files)
    i %= len(names)
    out = names[i]
    if via == "path":
        out = "./" + out
    elif via:
        getattr(os, via)(out, "other")
        out = "other"
    before = snapshot((names[i], "other"))
    a = argv(args, names)
    r = ctx.run(tool, ["-o", out] + a if tool == "vote" else a + [out])
    require(r.rc == 0, "%s fails when the output replaces an input: %s", tool,
            brief(r.err))
    check_equal("%s: output file that was an input" % tool, ctx.get(names[i]), want.out)
    require(snapshot((names[i], "other")) == before, "%s changes other files", tool)
    if len(want.out) > 40:
        ctx.mark(tool)


def check_refused(ctx, case):
    """A run that is refused changes no file."""
    (tool, args, files), i, how = case
    names = place(ctx, files)
    a = argv(args, names)
    bad = {"missing": "nothere", "directory": "somedir", "malformed": "badfile"}[how]
    os.mkdir("somedir")
    ctx.put("badfile", b"\xff\xfe\n")
    idx = [k for k in range(len(a)) if a[k] in names]
    a[idx[i % len(idx)]] = bad
    if tool in OUT_ARG:
        a = a + ["out"]
    elif tool == "vote":
        a = ["-o", "out"] + a
    ctx.put("out", b"valuable\n")
    before = snapshot()
    r = ctx.run(tool, a)
    require(r.rc == 1, "%s %s: status %d", tool, brief(a), r.rc)
    require(snapshot() == before, "%s %s: changes files though it fails", tool, brief(a))
    ctx.mark(tool)


def check_stdout(ctx, case):
    """Standard output may be a file, a pipe, a terminal or appended to."""
    (tool, args, files), how = case
    names, want = base(ctx, tool, args, files)
    if len(want.out) > 60000:
        raise Skip
    if how == "terminal":
        try:
            master, slave = pty.openpty()
        except OSError:
            raise Skip
        got = []

        def drain():
            while True:
                try:
                    piece = os.read(master, 65536)
                except OSError:
                    return
                if not piece:
                    return
                got.append(piece)

        t = threading.Thread(target=drain, daemon=True)
        try:
            tty.setraw(slave)
            t.start()
            r = ctx.run(tool, argv(args, names), stdout=slave, stdin_fd=slave)
        finally:
            os.close(slave)
            t.join(20)
            os.close(master)
        got = b"".join(got)
        require(r.rc == 0, "%s fails: %s", tool, brief(r.err))
        check_equal("%s: output to a terminal" % tool, got, want.out)
        if len(want.out) > 40:
            ctx.mark(tool)
        return
    if how == "pipe":
        rd, wr = os.pipe()
        try:
            r = ctx.run(tool, argv(args, names), stdout=wr)
            os.close(wr)
            wr = None
            with os.fdopen(rd, "rb") as f:
                rd = None
                got = f.read()
        finally:
            for x in (rd, wr):
                if x is not None:
                    os.close(x)
    else:
        ctx.put("log", b"before\n")
        fd = os.open("log", os.O_WRONLY | os.O_APPEND)
        try:
            r = ctx.run(tool, argv(args, names), stdout=fd)
        finally:
            os.close(fd)
        got = ctx.get("log")
        require(got.startswith(b"before\n"), "%s overwrites the log", tool)
        got = got[7:]
    require(r.rc == 0, "%s fails: %s", tool, brief(r.err))
    check_equal("%s: standard output to a %s" % (tool, how), got, want.out)
    if len(want.out) > 40:
        ctx.mark(tool)


def check_twice(ctx, case):
    """A file given twice counts like two files with equal contents."""
    (tool, args, files), i, j = case
    args = [a for a in args if a != "-D"]
    if prints_names(tool, args):
        args = ["-T"] + [a for a in args if isinstance(a, int)][:2]
        files = files[:2]
    idx = [k for k in args if isinstance(k, int)]
    i, j = idx[i % len(idx)], idx[j % len(idx)]
    if i == j or files[i][0] not in (files[j][0], "correct"):
        raise Skip
    files = list(files)
    files[j] = [files[j][0], files[i][1]]
    names = place(ctx, files)
    want = ctx.run(tool, argv(args, names))
    names2 = list(names)
    names2[j] = names[i]
    same("with a file given twice", tool, want, ctx.run(tool, argv(args, names2)))
    if len(want.out) > 40:
        ctx.mark(tool)


def inv(tools=None):
    return invocations(tools, sizes=(0, 2, 6, 12, 30))


SUBS = [
    Sub("names", check_names, strategy=lambda: st.tuples(inv(), st.sampled_from(NAMES),
                                                         st.integers(0, 10 ** 6)),
        quick=6000, thorough=80000, weight=2,
        rule="other names of files and of the program, directories, links, times and modes; non-trivial with a result"),
    Sub("pipes", check_pipes, strategy=lambda: st.tuples(
        inv(), st.integers(1, 15), st.just(0)), quick=4000, thorough=80000, weight=2,
        rule="inputs through pipes"),
    Sub("environment", check_env, strategy=lambda: st.tuples(
        inv(), st.sampled_from(ENVS), st.sampled_from([None, b"", b"some input\n"])),
        quick=4000, thorough=80000, weight=2,
        rule="other environments, repeated runs, allocator fill patterns"),
    Sub("what it asks for", check_asked, strategy=lambda: st.tuples(
        inv(), st.integers(0, 2 ** 20), st.sampled_from(VALUES),
        st.integers(2, 4 * 10 ** 9)), quick=2000, thorough=40000, weight=1,
        rule="every environment variable the tool asks for, the time, process, user and "
        "terminal varied through a preloaded library; options in any place"),
    Sub("output file", check_output, strategy=lambda: st.tuples(
        inv(list(OUT_ARG) + ["vote"]), st.sampled_from(
            [None, b"", b"old", b"old contents\n" * 20, b"x" * 20000]),
        st.sampled_from(["out", "out put", "d/out"]), st.booleans()), quick=4000,
        thorough=80000, weight=2, rule="output files, existing or not"),
    Sub("output over an input", check_over_input, strategy=lambda: st.tuples(
        inv(list(OUT_ARG) + ["vote"]), st.integers(0, 6), st.sampled_from(
            ["", "", "path", "link", "symlink"])), quick=2000, thorough=40000, weight=1,
        rule="the output file is an input file, directly or through a link"),
    Sub("refused", check_refused, strategy=lambda: st.tuples(
        inv(), st.integers(0, 6), st.sampled_from(["missing", "directory", "malformed"])),
        quick=2000, thorough=30000, weight=1,
        rule="runs that fail because of an input leave all files alone"),
    Sub("standard output", check_stdout, strategy=lambda: st.tuples(
        inv(), st.sampled_from(["pipe", "append", "terminal"])), quick=3000, thorough=60000,
        weight=1, rule="standard output is a pipe, a terminal or appended to"),
    Sub("named pipes", check_fifos, strategy=lambda: st.tuples(inv(), st.integers(1, 15)),
        quick=1500, thorough=30000, weight=1, rule="inputs that are named pipes"),
    Sub("given twice", check_twice, strategy=lambda: st.tuples(
        inv(), st.integers(0, 4), st.integers(0, 4)), quick=2500, thorough=40000,
        weight=1, rule="a file given twice"),
]
