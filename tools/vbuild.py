#!/usr/bin/env python3
"""Builds scipp's C++ library from the working tree of /repo, and the harnesses.

The sources are compiled with the commands that scipp's own CMake files
generate (env/CMakeLists.txt). Nothing depends on time stamps: every object
file is looked up by the content of everything that goes into it, first by the
content of the source and all its headers, then by its preprocessed text, and
compiled only when neither is known. The store is .build/cache (not committed).
"""
import fcntl
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
CXX = "/usr/bin/g++"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

VARIANTS = {
    # the library all harnesses but the ones below use
    "main": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS"],
    # every memory access reported to the run-time in harness/common/tsanrt.cpp
    "instr": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=thread"],
    "asan": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined"],
}
COMPONENTS = ["units", "core", "variable", "dataset"]


class BuildError(Exception):
    pass


_hashes = {}


def file_hash(path):
    h = _hashes.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()[:24]
        except OSError:
            h = "missing"
        _hashes[path] = h
    return h


def text_hash(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:32]


_cxx_version = None


def cxx_version():
    global _cxx_version
    if _cxx_version is None:
        _cxx_version = subprocess.check_output([CXX, "--version"], text=True)
    return _cxx_version


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


class Builder:
    def __init__(self, log=None):
        os.makedirs(BUILD, exist_ok=True)
        self.cache = os.path.join(BUILD, "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.src = os.path.join(BUILD, "src")
        self.cfg = os.path.join(BUILD, "cfg")
        self.stats = {"direct": 0, "preprocessed": 0, "compiled": 0}
        self.log = log or (lambda *_: None)
        self.commands = None

    def configure(self):
        if self.commands is not None:
            return
        r = run([os.path.join(HERE, "env/gen_root.sh"), REPO, self.src])
        if r.returncode:
            raise BuildError(r.stdout)
        for attempt in (0, 1):
            r = run(["cmake", "-S", self.src, "-B", self.cfg, "-G", "Ninja",
                     f"-DVERIF_ENV={HERE}/env", f"-DCMAKE_CXX_COMPILER={CXX}",
                     "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS="])
            if r.returncode == 0:
                break
            subprocess.run(["rm", "-rf", self.cfg])
        if r.returncode:
            raise BuildError(r.stdout)
        with open(os.path.join(self.cfg, "compile_commands.json")) as f:
            cmds = json.load(f)
        self.commands = {}
        for c in cmds:
            out = c.get("output") or re.search(r" -o (\S+)", c["command"]).group(1)
            top = out.split("/")[0]
            m = re.match(r"(\w+)/CMakeFiles/scipp-(\w+)\.dir/", out)
            if m and m.group(1) == m.group(2):
                comp = m.group(1)
            elif "llnl_stub.dir" in out:
                comp = "env"
            else:
                continue
            args = shlex.split(c["command"])[1:]
            keep = []
            it = iter(args)
            for a in it:
                if a in ("-o", "-MF", "-MT"):
                    next(it)
                elif a in ("-c", "-MD"):
                    continue
                elif a == c["file"]:
                    continue
                else:
                    keep.append(a)
            src = c["file"]
            if os.path.realpath(src).startswith(os.path.realpath(REPO) + "/") \
                    and not src.startswith(self.src):
                src = os.path.join(self.src, os.path.relpath(
                    os.path.realpath(src), os.path.join(os.path.realpath(REPO), "lib")))
            self.commands.setdefault(comp, []).append((src, keep))
        for comp in COMPONENTS:
            if not self.commands.get(comp):
                raise BuildError(f"no sources found for component {comp}")

    # -- objects ---------------------------------------------------------
    def obj(self, src, flags):
        """Path of the object file of src, compiled if it has to be."""
        key1 = text_hash("1", cxx_version(), src, *flags)
        idx = os.path.join(self.cache, "d-" + key1)
        srch = file_hash(src)
        try:
            with open(idx) as f:
                entries = json.load(f)
        except (OSError, ValueError):
            entries = []
        for e in entries:
            o = os.path.join(self.cache, e["obj"])
            if e["src"] == srch and all(file_hash(p) == h for p, h in e["deps"]) \
                    and os.path.exists(o):
                self.stats["direct"] += 1
                return o
        tmp = os.path.join(self.cache, f"t-{key1}-{os.getpid()}")
        r = run([CXX, *flags, "-E", "-P", "-MD", "-MF", tmp + ".d", "-MT", "x",
                 "-o", tmp + ".ii", src])
        if r.returncode:
            raise BuildError(f"{src}\n{r.stdout}")
        with open(tmp + ".d") as f:
            deps = f.read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = [os.path.normpath(d) for d in deps]
        deps = [d for d in deps if not d.startswith("/usr/") and d != src]
        with open(tmp + ".ii", "rb") as f:
            key2 = text_hash("2", cxx_version(), *flags, f.read())
        name = f"{os.path.basename(src)}-{key2}.o"
        o = os.path.join(self.cache, name)
        if os.path.exists(o):
            self.stats["preprocessed"] += 1
        else:
            t = time.time()
            r = run([CXX, *flags, "-c", "-o", tmp + ".o", src])
            if r.returncode:
                raise BuildError(f"{src}\n{r.stdout}")
            os.replace(tmp + ".o", o)
            self.stats["compiled"] += 1
            self.log(f"{time.time() - t:6.1f} s {src}")
        for s in (".d", ".ii"):
            os.unlink(tmp + s)
        entries = [e for e in entries if e["src"] != srch or e["obj"] != name]
        entries.insert(0, {"src": srch, "obj": name,
                           "deps": [(d, file_hash(d)) for d in deps]})
        with open(tmp + ".idx", "w") as f:
            json.dump(entries[:8], f)
        os.replace(tmp + ".idx", idx)
        return o

    def objs(self, jobs):
        """[(src, flags)] -> object paths; slow ones first."""
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.obj, s, f) for s, f in jobs]
            res, err = [], None
            for f in futs:
                try:
                    res.append(f.result())
                except BuildError as e:
                    err = err or e
            if err:
                raise err
            return res

    def lib_jobs(self, components, variant):
        self.configure()
        jobs = []
        for comp in ["env", *components]:
            for src, flags in self.commands[comp]:
                v = VARIANTS["main" if comp == "env" and variant == "instr" else variant]
                jobs.append((src, [*flags, *v]))
        size = {}
        for s, _ in jobs:
            try:
                size[s] = os.path.getsize(s)
            except OSError:
                size[s] = 0
        slow = SLOW_FIRST
        jobs.sort(key=lambda j: (-slow.get(os.path.basename(j[0]), 0), j[0]))
        return jobs

    def lib(self, upto="dataset", variant="main"):
        """Shared library with all objects of the components up to `upto`."""
        comps = COMPONENTS[:COMPONENTS.index(upto) + 1]
        objs = sorted(set(self.objs(self.lib_jobs(comps, variant))))
        return self.link_shared(objs, f"{upto}-{variant}", variant)

    def link_shared(self, objs, tag, variant):
        key = text_hash("so", tag, *[os.path.basename(o) for o in objs])
        d = os.path.join(self.cache, f"lib-{tag}-{key}")
        so = os.path.join(d, "libscippv.so")
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            tmp = so + f".{os.getpid()}"
            rsp = tmp + ".rsp"
            with open(rsp, "w") as f:
                f.write("\n".join(objs))
            extra = [x for x in VARIANTS[variant] if x.startswith("-fsanitize=address")]
            r = run([CXX, "-shared", "-o", tmp, "@" + rsp, "-Wl,-Bsymbolic-functions",
                     *extra])
            if r.returncode:
                raise BuildError(r.stdout)
            os.unlink(rsp)
            os.replace(tmp, so)
        else:
            os.utime(so)
        return so

    def includes(self, component):
        self.configure()
        seen = []
        comp = component if component in self.commands else "dataset"
        for _, flags in self.commands[comp]:
            it = iter(flags)
            for f in it:
                item = (f, next(it)) if f == "-isystem" else (f,)
                if (f.startswith("-I") or f == "-isystem") and item not in seen:
                    seen.append(item)
        gen = os.path.join(self.cfg, component)
        return [x for item in seen for x in item] + ["-I" + gen]

    def harness_jobs(self, sources, upto="dataset", variant="main", extra=(), plain_sources=(), **_):
        self.configure()
        inc = self.includes(upto)
        base = ["-std=c++17", "-fPIC", "-fno-operator-names", "-w",
                "-I" + os.path.join(HERE, "harness/common"), *inc, *extra]
        jobs = [(os.path.join(HERE, "harness", s), [*base, *VARIANTS[variant]])
                for s in sources]
        return jobs + [(os.path.join(HERE, "harness", s), [*base, *VARIANTS["main"]])
                       for s in plain_sources]

    def harness(self, name, sources, upto="dataset", variant="main", link=True,
                extra=(), ldflags=(), plain_sources=(), static=False):
        """Executable of a harness of /verif/harness against the library.

        plain_sources are compiled without the instrumentation of the variant.
        """
        jobs = self.harness_jobs(sources, upto, variant, extra, plain_sources)
        n = len(jobs)
        libjobs = []
        if link:
            comps = COMPONENTS[:COMPONENTS.index(upto) + 1]
            libjobs = self.lib_jobs(comps, variant)
        objs = self.objs(jobs + libjobs)
        mine, lib = objs[:n], sorted(set(objs[n:]))
        so = [self.link_shared(lib, f"{upto}-{variant}", variant)] if lib and not static else lib
        key = text_hash("exe", *map(os.path.basename, mine), *so, *ldflags)
        exe = os.path.join(self.cache, f"x-{name}-{key}")
        if not os.path.exists(exe):
            san = [x for x in VARIANTS[variant] if x.startswith("-fsanitize=address")]
            rp = [f"-Wl,-rpath,{os.path.dirname(so[0])}"] if so and not static else []
            first = so if static else []
            rest = [] if static else so
            r = run([CXX, "-o", exe + ".tmp", *first, *mine, *rest, *rp, *san, *ldflags,
                     "-lpthread", "-ldl"])
            if r.returncode:
                raise BuildError(r.stdout)
            os.replace(exe + ".tmp", exe)
        return exe


SLOW_FIRST = {}
try:
    with open(os.path.join(HERE, "tools/slow.json")) as _f:
        SLOW_FIRST = json.load(_f)
except OSError:
    pass


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *_):
        self.f.close()


if __name__ == "__main__":
    t0 = time.time()
    b = Builder(log=print)
    with Lock():
        for v in sys.argv[1:] or ["main"]:
            so = b.lib("dataset", v)
            print(so, b.stats, f"{time.time() - t0:.1f} s")
