"""Builds the extractor when needed, runs it over /repo's current tree and loads
the resulting program. Nothing of scribbu is executed here."""

import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCRIBBU_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL_SRC = os.path.join(VERIF, "tool", "extract.cc")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis could not be carried out: neither held nor violated."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise AnalysisBroken("%s failed (%d):\n%s" % (" ".join(cmd), r.returncode,
                                                      r.stdout.decode("utf8", "replace")[-3000:]))
    return r.stdout


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def build_tool():
    """Path of the extractor, compiled from tool/extract.cc if it is not there."""
    tag = _hash_files([TOOL_SRC])[:16]
    exe = os.path.join(BUILD, "extract-" + tag)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = "%s.%d" % (exe, os.getpid())
    sh(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", TOOL_SRC, "-o", tmp,
        "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM"])
    os.rename(tmp, exe)
    return exe


def sources():
    pats = ["scribbu/*.cc", "scribbu/*.hh", "scribbu/*.ll", "scribbu/*.yy", "src/*.cc", "src/*.hh"]
    return sorted(f for p in pats for f in glob.glob(os.path.join(REPO, p)))


def _closure(tu, dirs, exe):
    """Hash of a translation unit with everything of the repository it includes."""
    seen, todo = set(), [tu]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        with open(f, errors="replace") as h:
            for m in re.finditer(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', h.read(), re.M):
                for d in dirs:
                    g = os.path.join(d, os.path.basename(m.group(1)))
                    if os.path.exists(g):
                        todo.append(g)
    h = hashlib.sha256(exe.encode())
    for f in sorted(seen, key=os.path.basename):
        with open(f, "rb") as x:
            h.update(os.path.basename(f).encode() + b"\0" + x.read())
    return h.hexdigest()


def _extract_all(exe, out):
    top = os.path.join(out, "gen")
    gen = os.path.join(top, "scribbu")
    os.makedirs(gen)
    shutil.copy(os.path.join(VERIF, "tool", "config.h"), os.path.join(top, "config.h"))
    S = os.path.join(REPO, "scribbu")
    sh(["bison", "-d", "-o", os.path.join(gen, "tbt-parser.cc"), os.path.join(S, "tbt-parser.yy")])
    sh(["flex", os.path.join(S, "tbt-lexer.ll")], cwd=gen)
    guile = sh(["pkg-config", "--cflags", "guile-3.0"]).decode().split()
    common = ["-xc++", "-std=c++20", "-DHAVE_CONFIG_H", "-Wno-everything", "-resource-dir", LLVM + "/lib/clang/18",
              "--gcc-toolchain=/usr", "-I" + gen, "-I" + top, "-I" + S, "-I" + REPO, "-I" + os.path.join(REPO, "src"),
              '-DDATADIR="/usr/local/share"', "-ferror-limit=0"] + guile
    env = dict(os.environ)
    sh(["guile-snarf", "-o", os.path.join(gen, "scheme.x"), os.path.join(S, "scheme.cc"),
        "-I" + gen, "-I" + top, "-I" + S, "-I" + REPO, "-std=c++20"] + guile, env=env)
    tus = [f for f in sources() if f.endswith(".cc")]
    tus += [os.path.join(gen, "tbt-parser.cc"), os.path.join(gen, "tbt-lexer.cc")]
    roots = ":".join([S + "/", os.path.join(REPO, "src") + "/", gen + "/"])
    outs = [os.path.join(out, "%02d.json" % i) for i in range(len(tus))]

    # development aid: reuse what was extracted from identical text
    keep = os.environ.get("SCRIBBU_TU_CACHE")

    def one(i):
        if keep:
            k = os.path.join(keep, _closure(tus[i], [S, os.path.join(REPO, "src"), gen], exe) + ".json")
            if os.path.exists(k):
                with open(k) as f, open(outs[i], "w") as g:
                    g.write(f.read().replace("@GEN@", gen).replace("@REPO@/", REPO + "/"))
                return
        sh([exe, outs[i], roots, tus[i], "--"] + common)
        if keep:
            with open(outs[i]) as f, open(k + ".%d" % os.getpid(), "w") as g:
                g.write(f.read().replace(gen, "@GEN@").replace(REPO + "/", "@REPO@/"))
            os.rename(k + ".%d" % os.getpid(), k)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(len(tus))))
    return tus, outs, gen


def load():
    """The program of /repo's current working tree."""
    exe = build_tool()
    key = _hash_files(sources() + [TOOL_SRC, os.path.abspath(__file__), os.path.join(VERIF, "tool", "config.h"),
                                   os.path.join(VERIF, "lib", "program.py")])[:24]
    cdir = os.path.join(BUILD, "cache")
    cache = os.path.join(cdir, key + ".pickle")
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    import program
    tmp = tempfile.mkdtemp(prefix="scribbu-facts-")
    try:
        tus, outs, gen = _extract_all(exe, tmp)
        prog = program.Program()
        prog.repo = REPO
        for t, o in zip(tus, outs):
            with open(o) as f:
                prog.add_tu(json.load(f), gen)
        prog.finish()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        os.makedirs(cdir, exist_ok=True)
        for old in sorted(glob.glob(os.path.join(cdir, "*.pickle")), key=os.path.getmtime)[:-3]:
            os.unlink(old)
        t = "%s.%d" % (cache, os.getpid())
        sys.setrecursionlimit(100000)
        with open(t, "wb") as f:
            pickle.dump(prog, f, protocol=4)
        os.rename(t, cache)
    except OSError:
        pass
    return prog
