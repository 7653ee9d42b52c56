"""Case execution, generated-input search, shrinking, replay and evidence."""
import errno
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import build as _build

VERIF = _build.VERIF
CPU_LIMIT = int(os.environ.get("OCRV_CPU", "20"))   # s, for a small input
AS_LIMIT = int(os.environ.get("OCRV_AS", str(3 << 30)))
FSIZE_LIMIT = 512 << 20
SCALE = {"C24": 1, "C26": 1}    # times the listed number of quick cases (others: 2)
SHRINK_TIME = int(os.environ.get("OCRV_SHRINK", "30"))


class Violation(Exception):
    pass


class Skip(Exception):
    """The case says nothing (e.g. a precondition does not hold)."""


class Stopped(BaseException):
    """Another worker has found a violation."""


class Broken(Exception):
    """The machinery cannot run; never a violation."""


# ---------------------------------------------------------------- cases

def _enc(o):
    if isinstance(o, bytes):
        return {"$b": o.decode("latin-1")}
    if isinstance(o, (list, tuple)):
        return [_enc(x) for x in o]
    if isinstance(o, dict):
        return {"$d": [[_enc(k), _enc(v)] for k, v in o.items()]}
    return o


def _dec(o):
    if isinstance(o, list):
        return [_dec(x) for x in o]
    if isinstance(o, dict):
        if "$b" in o:
            return o["$b"].encode("latin-1")
        return {_dec(k): _dec(v) for k, v in o["$d"]}
    return o


def dumps(case):
    return json.dumps(_enc(case), ensure_ascii=True, sort_keys=False)


def loads(s):
    return _dec(json.loads(s))


def brief(x, limit=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= limit else s[:limit] + "...(%d more)" % (len(s) - limit)


class Sub:
    """One executable check of (part of) a property.

    strategy: () -> Hypothesis strategy of cases, or
    cases:    (tier, rng) -> iterable of cases (an enumeration).
    check(ctx, case) raises Violation; ctx.mark() declares a case non-trivial.
    """

    def __init__(self, name, check, strategy=None, cases=None, quick=0, thorough=0,
                 weight=1.0, rule="", serial=False, examples=None):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.cases = cases
        self.quick = quick
        self.thorough = thorough
        self.weight = weight
        self.rule = rule
        self.serial = serial        # run on one worker only


# ---------------------------------------------------------------- running tools

class Res:
    __slots__ = ("rc", "out", "err", "cpu")

    def __init__(self, rc, out, err, cpu=0.0):
        self.rc, self.out, self.err, self.cpu = rc, out, err, cpu

    def __repr__(self):
        return "rc=%s out=%s err=%s" % (self.rc, brief(self.out), brief(self.err))


class Ctx:
    def __init__(self, workdir, builds, kind="plain"):
        self.base = workdir
        self.builds = builds
        self.kind = kind
        self.dir = os.path.join(workdir, "w")
        self.io = os.path.join(workdir, "io")
        os.makedirs(self.dir, exist_ok=True)
        os.makedirs(self.io, exist_ok=True)
        os.chdir(self.dir)
        self.env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": workdir,
                    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:"
                                    "allocator_may_return_null=1:handle_abort=1",
                    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99:print_stacktrace=1"}
        self.labels = {}
        self.nontrivial = False
        self.counting = True
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.runs = 0
        self.rng = random.Random(0)
        self.stop = None

    # -- bookkeeping
    def mark(self, *labels):
        self.nontrivial = True
        for l in labels:
            self.label(l)

    def label(self, l):
        if self.counting:
            self.labels[l] = self.labels.get(l, 0) + 1

    # -- files
    def clean(self):
        for e in os.scandir(self.dir):
            if e.is_dir(follow_symlinks=False):
                try:
                    os.chmod(e.path, 0o700)
                except OSError:
                    pass
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                os.unlink(e.path)

    def put(self, name, data):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogatepass")
        with open(os.path.join(self.dir, name), "wb") as f:
            f.write(data)
        return name

    def get(self, name):
        with open(os.path.join(self.dir, name), "rb") as f:
            return f.read()

    def exists(self, name):
        return os.path.lexists(os.path.join(self.dir, name))

    def tool(self, name, kind=None):
        kind = kind or self.kind
        if kind not in self.builds:
            self.builds[kind] = _build.build(kind)
        return os.path.join(self.builds[kind], "bin", name)

    # -- processes
    def run(self, tool, args=(), stdin=None, stdout=None, kind=None, prog=None,
            env=None, cpu=CPU_LIMIT, argv0=None, crash_ok=False, stdin_fd=None,
            wall=90, sigpipe=True, ignore_xfsz=False, err_fd=False, nofile=None):
        kind = kind or self.kind
        path = prog or self.tool(tool, kind)
        self.runs += 1
        outp = os.path.join(self.io, "out")
        errp = os.path.join(self.io, "err")
        actions = []
        if stdin_fd is not None:
            actions.append((os.POSIX_SPAWN_DUP2, stdin_fd, 0))
        elif stdin is not None:
            inp = os.path.join(self.io, "in")
            with open(inp, "wb") as f:
                f.write(stdin)
            actions.append((os.POSIX_SPAWN_OPEN, 0, inp, os.O_RDONLY, 0))
        else:
            actions.append((os.POSIX_SPAWN_OPEN, 0, "/dev/null", os.O_RDONLY, 0))
        flags = os.O_WRONLY | os.O_CREAT | os.O_TRUNC
        if stdout == "closed":
            actions.append((os.POSIX_SPAWN_CLOSE, 1))
        elif isinstance(stdout, int):
            actions.append((os.POSIX_SPAWN_DUP2, stdout, 1))
        else:
            actions.append((os.POSIX_SPAWN_OPEN, 1, stdout or outp, flags, 0o600))
        if err_fd:      # stderr through a pipe (for short messages)
            err_r, err_w = os.pipe()
            actions.append((os.POSIX_SPAWN_DUP2, err_w, 2))
        else:
            actions.append((os.POSIX_SPAWN_OPEN, 2, errp, flags, 0o600))
        sigdef = [signal.SIGXCPU]
        if sigpipe:
            sigdef.append(signal.SIGPIPE)
        if not ignore_xfsz:
            sigdef.append(signal.SIGXFSZ)
        cpu = cpu * (4 if kind in ("asan", "debug", "valgrind") else 1)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, _HARD_CPU))
        resource.setrlimit(resource.RLIMIT_AS,
                           (resource.RLIM_INFINITY if kind == "asan" else AS_LIMIT,
                            resource.RLIM_INFINITY))
        argv = [argv0 or path] + [a for a in args]
        e = dict(self.env)
        if env:
            e.update(env)
        before = resource.getrusage(resource.RUSAGE_CHILDREN)
        if nofile:
            old = resource.getrlimit(resource.RLIMIT_NOFILE)
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, old[1]))
        for attempt in range(20):
            try:
                pid = os.posix_spawn(path, argv, e, file_actions=actions,
                                     setsigdef=sigdef)
                break
            except OSError as ex:
                if ex.errno not in (errno.EAGAIN, errno.ENOMEM):
                    raise Broken("cannot start %s: %s" % (path, ex))
                time.sleep(0.2 * (attempt + 1))
        else:
            raise Broken("cannot start %s" % path)
        if nofile:
            resource.setrlimit(resource.RLIMIT_NOFILE, old)
        status = self._wait(pid, wall)
        after = resource.getrusage(resource.RUSAGE_CHILDREN)
        used = (after.ru_utime + after.ru_stime) - (before.ru_utime + before.ru_stime)
        if status == "blocked":
            raise Violation("%s %s does not end: it waits for something" % (
                tool, brief(argv[1:])))
        rc = os.waitstatus_to_exitcode(status)
        if stdout is None:
            with open(outp, "rb") as f:
                out = f.read()
        else:
            out = b""
        if err_fd:
            os.close(err_w)
            with os.fdopen(err_r, "rb") as f:
                err = f.read()
        else:
            with open(errp, "rb") as f:
                err = f.read()
        r = Res(rc, out, err, used)
        if used > 3 and os.environ.get("OCRV_SLOW"):
            with open(os.environ["OCRV_SLOW"], "a") as f:
                f.write("%s %.1f %s\n" % (tool, used, brief(argv[1:])))
        if rc == -signal.SIGXCPU:
            raise Violation("%s %s does not end (over %d s of computing)" % (
                tool, brief(argv[1:]), cpu))
        if rc == -signal.SIGKILL:
            raise Broken("%s was killed from outside" % tool)
        if rc < 0 and not crash_ok:
            raise Violation("%s %s was killed by signal %d; stderr %s" % (
                tool, brief(argv[1:]), -rc, brief(err)))
        if rc == 99 and kind == "asan":
            raise Violation("%s %s: %s" % (
                tool, brief(argv[1:]), brief(err.decode("utf-8", "replace"), 1500)))
        return r

    def _wait(self, pid, wall):
        try:
            fd = os.pidfd_open(pid)
        except OSError:
            return os.waitpid(pid, 0)[1]
        try:
            p = select.poll()
            p.register(fd, select.POLLIN)
            end = time.monotonic() + wall
            while True:
                # another worker has found a violation: stop at once
                while True:
                    rest = end - time.monotonic()
                    if p.poll(max(0, min(rest, 1)) * 1000):
                        return os.waitpid(pid, 0)[1]
                    if self.stop is not None and self.stop.is_set():
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        raise Stopped
                    if rest <= 0:
                        break
                state = "R"
                try:
                    with open("/proc/%d/stat" % pid) as f:
                        rest = f.read().rsplit(")", 1)[1].split()
                    state = rest[0]
                    ticks = int(rest[11]) + int(rest[12])
                except OSError:
                    ticks = 10 ** 9
                if state == "S" and ticks < 100:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    return "blocked"
        finally:
            os.close(fd)

    def ok(self, tool, args=(), **kw):
        r = self.run(tool, args, **kw)
        if r.rc != 0:
            raise Violation("%s %s failed with status %d on inputs it has to accept: %s"
                            % (tool, brief(list(args)), r.rc, brief(r.err)))
        return r.out


_HARD_CPU = resource.RLIM_INFINITY


def check_equal(what, got, want, extra=""):
    if got != want:
        g = got.decode("utf-8", "replace") if isinstance(got, bytes) else got
        w = want.decode("utf-8", "replace") if isinstance(want, bytes) else want
        diff = ""
        if isinstance(g, str) and isinstance(w, str):
            gl, wl = g.split("\n"), w.split("\n")
            for i in range(max(len(gl), len(wl))):
                a = gl[i] if i < len(gl) else None
                b = wl[i] if i < len(wl) else None
                if a != b:
                    diff = "first difference in line %d: got %r, expected %r" % (
                        i + 1, a, b)
                    break
        raise Violation("%s: %s%s" % (what, diff or "got %s, expected %s" % (
            brief(g), brief(w)), (" [" + extra + "]") if extra else ""))


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# ---------------------------------------------------------------- search

def seed_of(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Worker:
    def __init__(self, pid, subs, tier, seed, index, count, budget, stop, ctx):
        self.prop, self.subs, self.tier, self.seed = pid, subs, tier, seed
        self.index, self.count, self.stop, self.ctx = index, count, stop, ctx
        self.deadline = time.monotonic() + budget
        self.evals = {}
        self.distinct = set()
        self.samples = {}
        self.failure = None
        self.broken = None
        self.truncated = []

    def one(self, sub, case, counting=True):
        ctx = self.ctx
        ctx.nontrivial = False
        ctx.counting = counting
        ctx.clean()
        try:
            sub.check(ctx, case)
        except Skip:
            ctx.label("skipped")
            return
        except Broken:
            raise
        except Violation:
            raise
        except MemoryError:
            raise Broken("out of memory in the harness")
        except OSError as ex:
            if ex.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
                raise Broken("harness: %s" % ex)
            raise Violation("unexpected: %s" % traceback.format_exc(limit=-3))
        except Exception:
            raise Violation("output not understood: %s" % traceback.format_exc(limit=-4))
        if counting:
            self.evals[sub.name] = self.evals.get(sub.name, 0) + 1
            if ctx.nontrivial:
                key = hashlib.blake2b((sub.name + dumps(case)).encode(),
                                      digest_size=8).digest()
                self.distinct.add(key)
                s = self.samples.setdefault(sub.name, [])
                if len(s) < 2 or (len(s) < 3 and len(self.distinct) > 100):
                    s.append(brief(dumps(case), 1200))

    def run(self):
        left = list(self.subs)
        while left:
            sub = left.pop(0)
            if sub.serial and self.index != 0:
                continue
            if self.stop.is_set():
                return
            now = time.monotonic()
            total = sub.weight + sum(s.weight for s in left)
            until = now + max(5.0, (self.deadline - now) * sub.weight / total)
            if sub.cases is not None:
                self.run_cases(sub, until)
            else:
                self.run_strategy(sub, until)
            if self.failure:
                self.stop.set()
                return

    def run_cases(self, sub, until):
        rng = random.Random(seed_of(self.seed, self.prop, sub.name))
        for i, case in enumerate(sub.cases(self.tier, rng)):
            if not sub.serial and i % self.count != self.index:
                continue
            if self.stop.is_set():
                return
            if time.monotonic() > until:
                self.truncated.append(sub.name)
                return
            try:
                self.one(sub, case)
            except Violation as v:
                self.stop.set()
                self.failure = (sub.name, dumps(case), str(v))
                return

    def run_strategy(self, sub, until):
        from hypothesis import given, settings, seed, HealthCheck, Phase, Verbosity
        n = sub.thorough if self.tier == "thorough" else sub.quick
        if sub.serial:
            todo = n
        else:
            todo = n // self.count + (1 if self.index < n % self.count else 0)
        strategy = sub.strategy()
        batch = 0
        while todo > 0:
            if self.stop.is_set():
                return
            if time.monotonic() > until:
                self.truncated.append(sub.name)
                return
            size = min(todo, 150)
            todo -= size
            state = {"fail": None, "t": None}

            def body(case):
                if state["fail"] is None:
                    if self.stop.is_set() or time.monotonic() > until + 20:
                        return
                elif (state["slow"] > 5 or
                      time.monotonic() > state["t"] + SHRINK_TIME):
                    return      # enough shrinking
                started = time.monotonic()
                try:
                    self.one(sub, case, counting=state["fail"] is None)
                except Violation as v:
                    if state["fail"] is None:
                        self.stop.set()
                        self.ctx.stop = None
                        state["t"] = time.monotonic()
                        state["slow"] = state["t"] - started
                    state["fail"] = (sub.name, dumps(case), str(v))
                    raise

            test = settings(max_examples=size, database=None, deadline=None,
                            derandomize=False, report_multiple_bugs=False,
                            suppress_health_check=list(HealthCheck),
                            phases=(Phase.generate, Phase.shrink),
                            verbosity=Verbosity.quiet, print_blob=False)(
                   seed(seed_of(self.seed, self.prop, sub.name, self.index, batch))(
                   given(strategy)(body)))
            batch += 1
            try:
                test()
            except Broken:
                raise
            except Exception as ex:
                if state["fail"] is None:
                    raise Broken("generator of %s: %s" % (
                        sub.name, traceback.format_exc(limit=-6)))
            if state["fail"]:
                self.failure = state["fail"]
                return

    def result(self):
        return dict(evals=self.evals, distinct=self.distinct, samples=self.samples,
                    failure=self.failure, broken=self.broken, labels=self.ctx.labels,
                    truncated=self.truncated, runs=self.ctx.runs)


def _quieten():
    signal.signal(signal.SIGXCPU, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE_LIMIT, hard))
    try:
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = SHRINK_TIME
    except Exception:
        pass


def _worker_main(path, *args):
    prop, subs, tier, seed, index, count, budget, stop, workdir, builds = args
    _quieten()
    ctx = Ctx(workdir, builds)
    ctx.rng = random.Random(seed_of(seed, prop, index))
    ctx.stop = stop
    w = Worker(prop, subs, tier, seed, index, count, budget, stop, ctx)
    try:
        w.run()
    except Stopped:
        pass
    except Broken as b:
        w.broken = str(b)
    except _build.BuildError as b:
        w.broken = str(b)
    except BaseException:
        w.broken = traceback.format_exc()
    with open(path, "wb") as f:
        pickle.dump(w.result(), f)


def known_findings(prop):
    """Entries 'known: property=<id> sub=<name> digest=<hash> <text>'."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(None, 3)
                    if len(rest) == 4 and rest[2].startswith("case="):
                        out[rest[2][5:]] = rest[3].strip()
    return out


def digest(sub, case_json):
    return hashlib.sha256((sub + "\n" + case_json).encode()).hexdigest()[:12]


def replay_file(prop, subs, path, times=1):
    """Whether one of several repetitions fails, and with what message."""
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    sub = next((s for s in subs if s.name == data["sub"]), None)
    if sub is None:
        raise SystemExit("no sub-check %s" % data["sub"])
    _quieten()
    tmp = tempfile.mkdtemp(prefix="ocrv-replay-")
    here = os.getcwd()
    fails, msg = 0, ""
    try:
        ctx = Ctx(tmp, {})
        ctx.tier = data.get("tier", "quick")
        stop = multiprocessing.Event()
        w = Worker(prop, subs, "quick", 0, 0, 1, 1e9, stop, ctx)
        for _ in range(times):
            try:
                w.one(sub, _dec(data["case"]))
            except Violation as v:
                fails += 1
                msg = str(v)
                break
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    return fails, msg


def main(prop, subs, title, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = None
    if len(argv) >= 2 and argv[0] == "--replay":
        fails, msg = replay_file(prop, subs, argv[1])
        if fails:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, argv[1]))
            return 1
        print("property %s holds on %s" % (prop, argv[1]))
        return 0
    if len(argv) >= 2 and argv[0] == "--only":
        only = argv[1].split(",")
        subs = [s for s in subs if s.name in only]
    start = time.monotonic()
    scale = float(os.environ.get("OCRV_SCALE") or (
        SCALE.get(prop, 2) if tier == "quick" else 1))
    for s in subs:
        s.quick = int(s.quick * scale)
        s.thorough = int(s.thorough * scale)
    budget = float(os.environ.get("OCRV_BUDGET", "400" if tier == "quick" else "5400"))
    try:
        builds = {"plain": _build.build("plain")}
    except _build.BuildError as b:
        sys.stderr.write("%s\n" % b)
        return 2
    jobs = int(os.environ.get("OCRV_JOBS", "0")) or min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="ocrv-%s-" % prop)
    os.chmod(tmp, 0o755)
    stop = multiprocessing.Event()
    results = []
    try:
        procs = []
        mp = multiprocessing.get_context("fork")
        for i in range(jobs):
            path = os.path.join(tmp, "result%d" % i)
            wd = os.path.join(tmp, "d%d" % i)
            os.makedirs(wd)
            p = mp.Process(target=_worker_main, args=(
                path, prop, subs, tier, seed, i, jobs, budget, stop, wd, dict(builds)))
            p.start()
            procs.append((p, path))
        for p, path in procs:
            p.join()
            if os.path.exists(path):
                with open(path, "rb") as f:
                    results.append(pickle.load(f))
            else:
                results.append(None)
    finally:
        for p, _ in procs:
            if p.is_alive():
                p.kill()
        os.chdir(VERIF)
        shutil.rmtree(tmp, ignore_errors=True)
    lost = sum(1 for r in results if r is None)
    results = [r for r in results if r is not None]
    evals, labels, samples, distinct, runs = {}, {}, {}, set(), 0
    truncated = set()
    for r in results:
        for k, v in r["evals"].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["samples"].items():
            s = samples.setdefault(k, [])
            s.extend(v[:max(0, 2 - len(s))])
        distinct |= r["distinct"]
        truncated |= set(r["truncated"])
        runs += r["runs"]
    known = known_findings(prop)
    violations = []
    for r in results:
        if not r["failure"]:
            continue
        sub, case_json, msg = r["failure"]
        d = digest(sub, case_json)
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join("replay", "%s-%s.json" % (prop, d))
        with open(os.path.join(VERIF, path), "w", encoding="utf-8") as f:
            json.dump(dict(property=prop, sub=sub, tier=tier, message=brief(msg, 4000),
                           case=json.loads(case_json)), f, indent=1)
        fails, again = replay_file(prop, subs, os.path.join(VERIF, path),
                                   int(os.environ.get("OCRV_REPEAT", "5")))
        if fails == 0:
            labels["unreproduced"] = labels.get("unreproduced", 0) + 1
            sys.stderr.write("not reproduced: %s %s\n" % (path, brief(msg)))
            continue
        violations.append((sub, d, path, again or msg))
        if d not in known:
            break
    status = 0
    for d, text in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    reported = 0
    for sub, d, path, msg in violations:
        if d in known:
            continue
        reported += 1
        print("%s/%s: %s" % (prop, sub, brief(msg, 3000)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    broken = [r["broken"] for r in results if r["broken"]]
    for b in broken[:3]:
        sys.stderr.write("check could not run completely: %s\n" % b)
    if lost:
        sys.stderr.write("%d workers were lost\n" % lost)
    sl = []
    for k in samples:
        for s in samples[k]:
            if len(sl) < 40:
                sl.append({"sub": k, "case": s})
    rule = "; ".join("%s: %s" % (s.name, s.rule) for s in subs if s.rule)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(evals.values()),
            "distinct_nontrivial": len(distinct),
            "rule": rule or "see DESIGN.md",
            "samples": sl,
            "per_subcheck": evals,
            "labels": dict(sorted(labels.items())),
            "tool_executions": runs,
            "stopped_by_time_budget": sorted(truncated),
            "incomplete": [brief(b, 500) for b in broken] + (
                ["%d workers lost" % lost] if lost else []),
        },
        "assumptions": ["the tools behave for other inputs as for the generated ones",
                        "Python's unicodedata and the installed utf8proc are right"],
        "wall_s": round(time.monotonic() - start, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        p = os.path.join(VERIF, "evidence", prop + ".json")
        with open(p + ".tmp", "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    print("%s %s: %d cases, %d distinct non-trivial, %d tool runs, %.1f s%s" % (
        prop, tier, sum(evals.values()), len(distinct), runs,
        time.monotonic() - start, "" if status == 0 else ", violated"))
    if only or os.environ.get("OCRV_VERBOSE"):
        print(json.dumps(evals), json.dumps(dict(sorted(labels.items()))),
              "truncated:", sorted(truncated))
    if status == 0 and broken and not evals:
        return 2
    return status
