"""Builds the tools from /repo's current working tree, outside /repo.

The sources, the makefiles and libexec are copied to a directory under
/verif/.build named after a hash of their contents, and built there with
/repo's own Makefile (so a new module is picked up like in a normal build).
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OCRV_REPO", "/repo")
BUILD = os.environ.get("OCRV_BUILD") or os.path.join(VERIF, ".build")

TOOLS = ("accci accdist accsum accuracy editop editopcost editopsum groupacc "
         "ngram nonstopacc synctext vote wordacc wordaccci wordaccdist "
         "wordaccsum wordfreq").split()

KINDS = {
    "plain": dict(CC="gcc", CFLAGS=""),
    "fast": dict(CC="gcc", CFLAGS="-O2 -w"),
    "asan": dict(CC="clang", CFLAGS="-w -g -O1 -fno-omit-frame-pointer "
                 "-fsanitize=address,undefined -fno-sanitize=function,signed-integer-overflow "
                 "-fno-sanitize-recover=all -Wno-error=implicit-int "
                 "-Wno-error=implicit-function-declaration -Wno-error=int-conversion "
                 "-Wno-error=incompatible-function-pointer-types"),
    "zeros": dict(CC="gcc", CFLAGS="-w -O1 -ftrivial-auto-var-init=zero"),
    "pattern": dict(CC="gcc", CFLAGS="-w -O1 -ftrivial-auto-var-init=pattern"),
    "afl": dict(CC="afl-clang-fast", CFLAGS="-w -O1 -Wno-error=implicit-int "
                "-Wno-error=implicit-function-declaration -Wno-error=int-conversion "
                "-Wno-error=incompatible-function-pointer-types"),
    "debug": dict(CC="gcc", CFLAGS="-w -g -O0"),
}


class BuildError(Exception):
    pass


def _inputs():
    names = ["Makefile", "use-libocreval-internal.mk"]
    for sub in ("src", "libexec"):
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".o", ".d", ".a")):
                    continue
                names.append(os.path.relpath(os.path.join(root, f), REPO))
    return names


def tree_hash():
    h = hashlib.sha256()
    for n in _inputs():
        p = os.path.join(REPO, n)
        h.update(n.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(repr(sorted(KINDS.items())).encode())
    return h.hexdigest()[:16]


def build(kind):
    """Returns the directory holding the binaries (bin/) and library (lib/)."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    dest = os.path.join(BUILD, "%s-%s" % (kind, key))
    with open(os.path.join(BUILD, "lock-" + kind), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "ok")):
            return dest
        # keep only the newest few builds of a kind
        old = sorted((d for d in os.listdir(BUILD) if d.startswith(kind + "-")),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(os.path.join(dest, "bin"))
        os.makedirs(os.path.join(dest, "lib"))
        for n in _inputs():
            os.makedirs(os.path.dirname(os.path.join(dest, n)), exist_ok=True)
            shutil.copy2(os.path.join(REPO, n), os.path.join(dest, n))
        # The Makefile would regenerate this tracked header with Python 2.
        wb = os.path.join(dest, "src", "word_break_property.h")
        if os.path.exists(wb):
            later = time.time() + 5
            os.utime(wb, (later, later))
        env = {k: v for k, v in os.environ.items() if k not in
               ("CFLAGS", "CPPFLAGS", "LDFLAGS", "LDLIBS", "MAKEFLAGS", "CC")}
        env["LC_ALL"] = "C.UTF-8"
        opts = KINDS[kind]
        cmd = ["make", "-j8", "CC=" + opts["CC"], "all"]
        if opts["CFLAGS"]:
            cmd.append("CFLAGS=" + opts["CFLAGS"])
        r = subprocess.run(cmd, cwd=dest, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        missing = [t for t in TOOLS
                   if not os.path.exists(os.path.join(dest, "bin", t))]
        if r.returncode != 0 or missing:
            raise BuildError("make (%s) failed, missing %s\n%s" % (
                kind, missing, r.stdout.decode("utf-8", "replace")[-3000:]))
        for f in os.listdir(os.path.join(dest, "src")):
            if f.endswith((".o", ".d")):
                os.unlink(os.path.join(dest, "src", f))
        open(os.path.join(dest, "ok"), "w").close()
        return dest


if __name__ == "__main__":
    for k in sys.argv[1:] or ["plain"]:
        print(build(k))
