#!/usr/bin/env python3
"""Builds the library under test from /repo's working tree and the harnesses
from /verif/harness, with a content-addressed cache in /verif/build.

The key of an object is the content of every file its translation unit can
include from /repo and /verif, with comments and trailing blanks removed, plus
the compiler flags. Whatever changes what the code does changes the key."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.environ.get("PBT_BUILD", os.path.join(VERIF, "build"))
SYCL = "/opt/sycl"
CXX = SYCL + "/bin/syclcxx"
JOBS = int(os.environ.get("PBT_JOBS", "8"))

BASE_FLAGS = """-fsycl -Wno-error -w -O1 -DNDEBUG -std=c++17 -fPIC
-DCMAKE_INSTALL_PREFIX=/usr/local -DGPU_SELECTOR=0
-DNESO_PARTICLES_DEVICE_TYPE_CPU -DNESO_PARTICLES_HDF5 -DNESO_PARTICLES_PETSC
-DNESO_PARTICLES_VERSION_MAJOR=0 -DNESO_PARTICLES_VERSION_MINOR=10
-DNESO_PARTICLES_VERSION_PATCH=0 -DRESTRICT=__restrict""".split()
SYS_FLAGS = """-I/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include
-isystem /usr/lib/x86_64-linux-gnu/openmpi/include
-isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi
-isystem /usr/include/hdf5/openmpi""".split()
HARNESS_FLAGS = ["-DNESO_PARTICLES_TEST_COMPILATION"]
LINK_LIBS = []

CLEAN_ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/root",
    "LC_ALL": "C",
}


def strip_comments(text):
    """Removes // and /* */ comments (keeping newlines), outside literals."""
    out = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c == '"':
            if i > 0 and text[i - 1] == "R":
                m = re.match(r'"([^()\\ \n]{0,16})\(', text[i:])
                if m:
                    end = text.find(")" + m.group(1) + '"', i)
                    end = n if end < 0 else end + len(m.group(1)) + 2
                    out.append(text[i:end])
                    i = end
                    continue
            j = i + 1
            while j < n and text[j] != '"' and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            out.append(text[i:j + 1])
            i = j + 1
        elif c == "'":
            # a digit separator is not a literal
            if i > 0 and text[i - 1].isalnum() and i + 1 < n and text[i + 1].isalnum():
                out.append(c)
                i += 1
                continue
            j = i + 1
            while j < n and text[j] != "'" and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            out.append(text[i:j + 1])
            i = j + 1
        elif text.startswith("//", i):
            j = text.find("\n", i)
            i = n if j < 0 else j
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            j = n if j < 0 else j + 2
            out.append(" " + "\n" * text.count("\n", i, j))
            i = j
        else:
            out.append(c)
            i += 1
    s = "".join(out)
    return "\n".join(l.rstrip() for l in s.split("\n")).rstrip() + "\n"


class Files:
    """Digest and include lists of source files."""

    def __init__(self):
        self.info = {}
        self.closure_cache = {}

    def get(self, path):
        if path not in self.info:
            with open(path, errors="surrogateescape") as f:
                raw = f.read()
            s = strip_comments(raw)
            dig = hashlib.sha256(s.encode("utf-8", "surrogateescape")).hexdigest()
            inc = []
            for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*([<"])([^>"]+)[>"]', s, re.M):
                cands = []
                if m.group(1) == '"':
                    cands.append(os.path.join(os.path.dirname(path), m.group(2)))
                cands.append(os.path.join(REPO, "include", m.group(2)))
                cands.append(os.path.join(VERIF, "harness", m.group(2)))
                for c in cands:
                    c = os.path.normpath(c)
                    if os.path.isfile(c):
                        inc.append(c)
                        break
            self.info[path] = (dig, inc)
        return self.info[path]

    def closure(self, path):
        if path in self.closure_cache:
            return self.closure_cache[path]
        seen, todo = set(), [path]
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            todo.extend(self.get(p)[1])
        self.closure_cache[path] = sorted(seen)
        return self.closure_cache[path]

    def key(self, path, flags):
        h = hashlib.sha256()
        h.update("\0".join(flags).encode())
        for p in self.closure(path):
            rel = p
            for root, name in ((REPO, "R"), (VERIF, "V")):
                if p.startswith(root + "/"):
                    rel = name + p[len(root):]
            h.update(("\0" + rel + "\0" + self.get(p)[0]).encode())
        return h.hexdigest()[:24]


def run(cmd, log=None, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=CLEAN_ENV, timeout=timeout)
    if r.returncode != 0 and log is not None:
        log.append(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r.returncode == 0


def compile_one(src, obj, flags, log):
    tmp = obj + ".tmp%d" % os.getpid()
    ok = run([CXX] + BASE_FLAGS + flags + ["-I" + REPO + "/include"] + SYS_FLAGS +
             ["-c", src, "-o", tmp], log)
    if ok:
        os.replace(tmp, obj)
    return ok


class BuildError(Exception):
    pass


def repo_sources():
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))


def build_lib(files, verbose=False):
    """Returns the directory holding libneso_pbt.so."""
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    srcs = repo_sources()
    keys = {s: files.key(s, BASE_FLAGS) for s in srcs}
    libkey = hashlib.sha256("\n".join(
        s[len(REPO):] + keys[s] for s in srcs).encode()).hexdigest()[:24]
    libdir = os.path.join(BUILD, "lib", libkey)
    lib = os.path.join(libdir, "libneso_pbt.so")
    if os.path.exists(lib):
        return libdir
    t0 = time.time()
    objs = {}
    # A unity object is named by the keys of all its members.
    index = os.path.join(BUILD, "unity")
    os.makedirs(index, exist_ok=True)
    missing = []
    for s in srcs:
        o = os.path.join(objdir, keys[s] + ".o")
        if os.path.exists(o):
            objs[s] = o
        else:
            missing.append(s)
    # Unity objects whose members are all current serve for their members.
    still = set(missing)
    unity_used = []
    for u in sorted(os.listdir(index)):
        if not u.endswith(".txt"):
            continue
        with open(os.path.join(index, u)) as f:
            members = [l.split() for l in f.read().splitlines()]
        ms = [(REPO + m[0], m[1]) for m in members]
        if all(m in still and keys[m] == k for m, k in ms):
            o = os.path.join(objdir, u[:-4] + ".o")
            if os.path.exists(o):
                unity_used.append(o)
                still -= {m for m, _ in ms}
    missing = sorted(still)
    if verbose:
        print("library: %d of %d translation units to compile" % (len(missing), len(srcs)), flush=True)
    log = []
    extra = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        def single(s):
            o = os.path.join(objdir, keys[s] + ".o")
            if compile_one(s, o, [], log):
                objs[s] = o
                return True
            return False
        if len(missing) <= 16:
            for s, ok in zip(missing, ex.map(single, missing)):
                if not ok:
                    raise BuildError("\n".join(log))
        else:
            nb = 16
            sizes = {s: os.path.getsize(s) + 20000 for s in missing}
            bins = [[] for _ in range(nb)]
            tot = [0] * nb
            for s in sorted(missing, key=lambda s: -sizes[s]):
                b = tot.index(min(tot))
                bins[b].append(s)
                tot[b] += sizes[s]

            def unity(b):
                members = sorted(b)
                name = "u" + hashlib.sha256("".join(keys[m] for m in members).encode()).hexdigest()[:20]
                cpp = os.path.join(index, name + ".cpp")
                with open(cpp, "w") as f:
                    for m in members:
                        f.write('#include "%s"\n' % m)
                o = os.path.join(objdir, name + ".o")
                if compile_one(cpp, o, [], []):
                    with open(os.path.join(index, name + ".txt"), "w") as f:
                        for m in members:
                            f.write(m[len(REPO):] + " " + keys[m] + "\n")
                    extra.append(o)
                    return True
                return all([single(m) for m in members])
            for ok in ex.map(unity, [b for b in bins if b]):
                if not ok:
                    raise BuildError("\n".join(log))
    os.makedirs(libdir, exist_ok=True)
    allobjs = sorted(set(objs.values()) | set(extra) | set(unity_used))
    tmp = lib + ".tmp%d" % os.getpid()
    log = []
    ok = run([CXX, "-fsycl", "-O1", "-fPIC", "-shared", "-o", tmp,
              "-Wl,-soname,libneso_pbt.so"] + allobjs + link_libs(), log)
    if not ok:
        shutil.rmtree(libdir, ignore_errors=True)
        raise BuildError("\n".join(log))
    os.replace(tmp, lib)
    if verbose:
        print("library built in %.0f s" % (time.time() - t0), flush=True)
    return libdir


def link_libs():
    base = "/usr/lib/x86_64-linux-gnu"
    return [base + "/libmpi_cxx.so", base + "/libmpi.so",
            "-L" + base + "/hdf5/openmpi", "-lhdf5",
            "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/lib/libpetsc_real.so"]


def build_harness(files, cid, libdir, verbose=False):
    src = os.path.join(VERIF, "harness", cid.lower() + ".cpp")
    key = files.key(src, BASE_FLAGS + HARNESS_FLAGS)
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, "%s_%s" % (cid.lower(), key))
    if os.path.exists(exe):
        return exe
    t0 = time.time()
    obj = harness_object(files, cid)
    libdir = libdir() if callable(libdir) else libdir
    log = []
    tmp = exe + ".tmp%d" % os.getpid()
    if not run([CXX, "-fsycl", "-O1", "-o", tmp, obj, "-L" + libdir, "-lneso_pbt"] + link_libs(), log):
        raise BuildError("\n".join(log))
    os.remove(obj)
    os.replace(tmp, exe)
    if verbose:
        print("harness %s built in %.0f s" % (cid, time.time() - t0), flush=True)
    return exe


def harness_object(files, cid):
    src = os.path.join(VERIF, "harness", cid.lower() + ".cpp")
    key = files.key(src, BASE_FLAGS + HARNESS_FLAGS)
    obj = os.path.join(BUILD, "obj", "h_" + cid + "_" + key + ".o")
    if not os.path.exists(obj):
        log = []
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        if not compile_one(src, obj, HARNESS_FLAGS + ["-I" + VERIF + "/harness"], log):
            raise BuildError("\n".join(log))
    return obj


def locked(fn):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return fn()


def build(ids, verbose=False):
    """Returns (libdir, {id: exe})."""
    def go():
        files = Files()
        for p in repo_sources() + [os.path.join(VERIF, "harness", c.lower() + ".cpp") for c in ids]:
            files.closure(p)
        exes = {}
        # harness objects need only the headers: they compile next to the library
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            lib = ex.submit(build_lib, files, verbose)
            fs = [ex.submit(build_harness, files, c, lib.result, verbose) for c in ids]
            libdir = lib.result()
            for c, f in zip(ids, fs):
                exes[c] = f.result()
        return libdir, exes
    return locked(go)


if __name__ == "__main__":
    try:
        libdir, exes = build(sys.argv[1:], True)
        print(libdir)
        for c, e in exes.items():
            print(c, e)
    except BuildError as e:
        print(str(e))
        sys.exit(1)
