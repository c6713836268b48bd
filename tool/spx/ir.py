"""Loads the typed program form of the repository (built by the libTooling extractor)."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("SPX_REPO", "/repo")
BUILD = os.environ.get("SPX_BUILD", os.path.join(VERIF, "build"))
EXTRACT = os.path.join(BUILD, "extract")
CACHE = os.path.join(BUILD, "cache")


class AnalysisError(Exception):
    """The analysis itself cannot be carried out (not a verdict)."""


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def cxx_std():
    try:
        t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    except OSError:
        return "11"
    m = re.search(r"CMAKE_CXX_STANDARD\s+(\d+)", t) or re.search(r"-std=(?:c|gnu)\+\+(\d+)", t)
    return m.group(1) if m else "11"


def flags(long_double=True):
    f = ["-std=c++" + cxx_std(), "-I" + REPO + "/include", "-I" + REPO + "/SM", "-I" + REPO + "/source", "-Wno-everything"]
    if long_double:
        f.append("-DWITH_LONG_DOUBLE")
    return f


def headers_hash():
    h = hashlib.sha256()
    h.update(_read(EXTRACT))
    for d in ("include", "SM", "source", "user-dir"):
        for p in sorted(glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True)):
            if os.path.isfile(p) and p.rsplit(".", 1)[-1] in ("h", "hpp", "hh", "inc", "tpp", "ipp"):
                h.update(p.encode())
                h.update(_read(p))
    return h.hexdigest()


def sources(which, tests=False):
    out = []
    for d in which:
        out += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
        out += sorted(glob.glob(os.path.join(REPO, d, "*.cc")))
    return [p for p in out if tests or os.path.basename(p) not in ("test.cpp", "main.cpp")]


def _one(args):
    src, fl, key, env = args
    out = os.path.join(CACHE, key + ".json")
    if os.path.exists(out):
        return src, out, None
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([EXTRACT, REPO, tmp, src] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO, env=env)
    if r.returncode != 0:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return src, None, r.stdout.decode(errors="replace")[-2000:]
    os.replace(tmp, out)
    return src, out, None


class Program:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.units = []
        self.byname = {}

    def fns(self, qname):
        return [self.functions[k] for k in self.byname.get(qname, ())]


def ensure_extractor():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    if not os.path.exists(EXTRACT) or os.path.getmtime(EXTRACT) < os.path.getmtime(src):
        r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "tool"), "BUILD=" + BUILD],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 and not os.path.exists(EXTRACT):
            raise AnalysisError("cannot build the extractor: " + r.stdout.decode(errors="replace")[-2000:])


def prune_cache(limit=1500 * 1024 * 1024):
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(CACHE + "/*.json")]
        tot = sum(f[1] for f in fs)
        for mt, sz, p in sorted(fs):
            if tot <= limit:
                break
            os.unlink(p)
            tot -= sz
    except OSError:
        pass


def load(which=("source",), long_double=True, only=None, tests=False):
    """tests: with the self tests of the processes"""
    ensure_extractor()
    os.makedirs(CACHE, exist_ok=True)
    prune_cache()
    hh = headers_hash()
    fl = flags(long_double)
    srcs = sources(which, tests)
    if only is not None:
        srcs = [s for s in srcs if os.path.basename(s)[:-4] in only or "/source/" in s]
    if not srcs:
        raise AnalysisError("no source files found under %s" % (which,))
    jobs = []
    env = dict(os.environ, EXTRACT_TESTS="1") if tests else {k: v for k, v in os.environ.items() if k != "EXTRACT_TESTS"}
    for s in srcs:
        key = hashlib.sha256((hh + s + " ".join(fl)).encode() + _read(s)).hexdigest()[:40]
        jobs.append((s, fl, key + "t" * tests, env))
    prog = Program()
    fails = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_one, jobs))
    for src, out, err in res:
        if out is None:
            fails.append((src, err))
            continue
        with open(out) as f:
            d = json.load(f)
        tu = os.path.relpath(src, REPO)
        prog.units.append(tu)
        types = d["types"]
        for k, v in d["functions"].items():
            if k not in prog.functions:
                v["_types"] = types
                v["key"] = k
                prog.functions[k] = v
                prog.byname.setdefault(v["q"], []).append(k)
        for k, v in d["records"].items():
            if k not in prog.records:
                v["_types"] = types
                v["name"] = k
                prog.records[k] = v
        for k, v in d["globals"].items():
            if k not in prog.globals or ("init" in v and "init" not in prog.globals[k]):
                v["_types"] = types
                prog.globals[k] = v
    if fails:
        raise AnalysisError("cannot parse %s:\n%s" % (fails[0][0], fails[0][1]))
    return prog


def rel(p):
    return os.path.relpath(p, REPO) if p.startswith(REPO) else p
