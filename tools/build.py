#!/usr/bin/env python3
"""Builds harnesses of /verif from /repo's current working tree.

Content addressed: an object is reused only if the compile command and the contents of every /repo and /verif file it
was compiled from (or, failing that, its preprocessed text) are the same. Nothing is written outside /verif/.cache.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEPS = "/opt/vp/deps"
CACHE = os.path.join(VERIF, ".cache")
OBJS = os.path.join(CACHE, "objs")
INDEX = os.path.join(CACHE, "index")
GEN = os.path.join(CACHE, "gen")
PCH = os.path.join(CACHE, "pch")
BIN = os.path.join(CACHE, "bin")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

INCLUDES = [
    "-DANTLR4CPP_STATIC=1",
    "-DPARSER_LIBRARY_STATIC_DEFINE=1",
    f"-I{REPO}/parser_library/include",
    f"-I{REPO}/parser_library/src",
    f"-I{GEN}",
    f"-I{GEN}/export",
    f"-I{REPO}/utils/include",
    f"-I{REPO}/language_server/src",
    f"-I{VERIF}/include",
    f"-I{VERIF}/include/uri_standin",
    f"-I{DEPS}/asio/asio/include",
    "-isystem", "/usr/include/antlr4-runtime",
    "-isystem", f"{DEPS}/json/include",
]
COMMON = ["-std=c++17", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-pthread"]
FLAVOURS = {
    # name: (flags, extra text of the forced include)
    "std": (["-O1"], ""),
    "mc": (["-O1", "-DVERIF_MC=1"], f'#include "{VERIF}/include/mc_shim.h"\n'),
    # as mc, with every memory access of the selected sources reported to harness/race_rt.cpp
    "mcr": (["-O1", "-DVERIF_MC=1", "-DVERIF_RACE=1", "-fsanitize=thread"], f'#include "{VERIF}/include/mc_shim.h"\n'),
    "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"], ""),
}
LINK = {"std": [], "mc": [], "mcr": ["-Wl,--wrap=__cxa_guard_release", "-rdynamic"], "asan": ["-fsanitize=address,undefined"]}
CXX = "g++"


class BuildError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}
_fh_lock = threading.Lock()


def file_sha(path):
    h = _fh.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "-"
        _fh[path] = h
    return h


def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def generate_parser():
    g = f"{REPO}/parser_library/src/parsing/grammar"
    srcs = sorted(glob.glob(g + "/*.g4") + glob.glob(g + "/*.tokens"))
    key = sha(json.dumps([(os.path.basename(s), file_sha(s)) for s in srcs]).encode())
    store = os.path.join(CACHE, "genstore", key)
    if not os.path.exists(store + "/done"):
        shutil.rmtree(store, ignore_errors=True)
        os.makedirs(store + "/out")
        # the tool may write next to the grammar: it is run on a copy
        os.makedirs(store + "/g")
        for s in srcs:
            shutil.copy(s, store + "/g")
        r = subprocess.run(
            ["java", "-jar", f"{DEPS}/antlr4cpp/tool/target/antlr4-4.7.2-complete.jar", "-Werror", "-Dlanguage=Cpp",
             "-lib", store + "/g", "-o", store + "/out", "-package", "hlasm_plugin::parser_library::parsing",
             "hlasmparser.g4"],
            cwd=store + "/g", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("antlr: " + r.stdout.decode(errors="replace"))
        open(store + "/done", "w").close()
    for f in glob.glob(store + "/out/hlasmparser*.h") + glob.glob(store + "/out/hlasmparser*.cpp"):
        with open(f, "rb") as fh:
            # absolute paths of the scratch copy must not leak into the contents
            write_if_changed(os.path.join(GEN, os.path.basename(f)), fh.read().replace((store + "/g").encode(), b"."))
    write_if_changed(os.path.join(GEN, "export", "parser_library_export.h"),
                     b"#ifndef PARSER_LIBRARY_EXPORT_H\n#define PARSER_LIBRARY_EXPORT_H\n"
                     b"#define PARSER_LIBRARY_EXPORT\n#define PARSER_LIBRARY_NO_EXPORT\n#endif\n")


def pch(flavour):
    flags, extra = FLAVOURS[flavour]
    text = f'#include "{DEPS}/antlr4cpp/runtime/Cpp/runtime/antlr4_compat.h"\n#include "nlohmann/json.hpp"\n'
    text += "".join(f"#include <{h}>\n" for h in
                    "algorithm array atomic cassert charconv chrono cmath condition_variable deque filesystem "
                    "fstream functional future iostream limits list map memory mutex numeric optional regex set "
                    "shared_mutex sstream stack string string_view thread tuple type_traits unordered_map "
                    "unordered_set utility variant vector".split())
    text += "#pragma GCC poison VERIF_NEVER\n" + extra
    d = os.path.join(PCH, flavour)
    h = os.path.join(d, "pre.h")
    cmd = [CXX, *COMMON, *flags, *INCLUDES, "-x", "c++-header", h, "-o", h + ".gch", "-MD", "-MF", h + ".d"]
    deps_ok = False
    stamp = h + ".stamp"
    write_if_changed(h, text.encode())
    if os.path.exists(h + ".gch") and os.path.exists(stamp):
        st = json.load(open(stamp))
        deps_ok = st["cmd"] == cmd and all(file_sha(p) == s for p, s in st["deps"].items())
    if not deps_ok:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("pch: " + r.stdout.decode(errors="replace"))
        # gcc forgets "#pragma once" across a precompiled header: headers already in it are replaced by empty ones
        stubs = os.path.join(d, "stubs")
        shutil.rmtree(stubs, ignore_errors=True)
        root = "/usr/include/antlr4-runtime/"
        for p in parse_deps(h + ".d"):
            if p.startswith(root):
                f = os.path.join(stubs, p[len(root):])
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, "w").write("// in pre.h\n")
        json.dump({"cmd": cmd, "deps": {p: file_sha(p) for p in parse_deps(h + ".d") if own(p)}}, open(stamp, "w"))
    return h


def own(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/") and not p.startswith(PCH + "/")


def parse_deps(dfile):
    s = open(dfile).read().replace("\\\n", " ")
    s = s.split(":", 1)[1]
    return [os.path.realpath(x) for x in re.findall(r"(?:\\ |\S)+", s) if x]


stats = {"direct": 0, "preprocessed": 0, "compiled": 0}


def compile_one(src, flavour, pre, extra=()):
    flags, extra_text = FLAVOURS[flavour]
    # the installed json library is newer than the one the repository uses: this file needs a complete type
    fixup = ["-include", "config/pgm_conf.h"] if src.endswith("/feature_workspace_folders.cpp") else []
    base = [CXX, *COMMON, *flags, *extra, "-I" + os.path.join(os.path.dirname(pre), "stubs"), *INCLUDES, "-include", pre, *fixup]
    ident = sha(json.dumps([base, src, file_sha(pre), extra_text and file_sha(f"{VERIF}/include/mc_shim.h"),
                            extra_text and file_sha(f"{VERIF}/include/mc_sched.h")]).encode())
    ipath = os.path.join(INDEX, ident + ".json")
    entries = []
    if os.path.exists(ipath):
        try:
            entries = json.load(open(ipath))
        except ValueError:
            entries = []
        for e in entries:
            o = os.path.join(OBJS, e["key"] + ".o")
            if all(file_sha(p) == s for p, s in e["deps"].items()) and os.path.exists(o):
                stats["direct"] += 1
                return o
    # the preprocessed text, without line markers, comments and blank lines
    r = subprocess.run([*base, "-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise BuildError(f"{src}:\n" + r.stderr.decode(errors="replace")[-200000:])
    text = b"\n".join(l for l in r.stdout.split(b"\n") if l.strip())
    key = sha(ident.encode() + text)
    o = os.path.join(OBJS, key + ".o")
    d = os.path.join(OBJS, key + ".d")
    if os.path.exists(o) and os.path.exists(d):
        stats["preprocessed"] += 1
    else:
        tmp = o + f".{os.getpid()}.tmp"
        r = subprocess.run([*base, "-MD", "-MF", d, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        if r.returncode:
            raise BuildError(f"{src}:\n" + r.stderr.decode(errors="replace")[-200000:])
        os.replace(tmp, o)
        stats["compiled"] += 1
    deps = {p: file_sha(p) for p in parse_deps(d) if own(p)}
    if flavour != "std" and not deps:
        deps = {src: file_sha(src)}
    entries = [e for e in entries if e["key"] != key][-6:]
    entries.insert(0, {"key": key, "deps": deps})
    tmp = ipath + f".{os.getpid()}.tmp"
    json.dump(entries, open(tmp, "w"))
    os.replace(tmp, ipath)
    return o


def library_sources():
    s = glob.glob(f"{REPO}/parser_library/src/**/*.cpp", recursive=True)
    s += glob.glob(f"{REPO}/utils/src/*.cpp")
    s = [x for x in s if "emscripten" not in os.path.basename(x)]
    s.append(f"{GEN}/hlasmparser.cpp")
    return sorted(s)


def server_sources():
    s = glob.glob(f"{REPO}/language_server/src/**/*.cpp", recursive=True)
    return sorted(x for x in s if "emscripten" not in os.path.basename(x)
                  and os.path.basename(x) not in ("main.cpp", "native_server_streams.cpp"))


def flavour_of(src, flavour):
    """the race-instrumented flavour covers the code that runs on several threads; the rest is taken from mc"""
    if flavour != "mcr":
        return flavour
    if src.endswith("/race_rt.cpp"):
        return "mc"
    if src.startswith(VERIF + "/harness") or "/language_server/src/" in src or "/debugging/" in src \
            or "/workspaces/" in src or "/workspace_manager" in src:
        return "mcr"
    return "mc"


def build(targets, verbose=True):
    """targets: list of dicts {name, src: [harness sources], flavour, libs: subset of ["parser", "server"]}"""
    t0 = time.time()
    for d in (OBJS, INDEX, GEN, PCH, BIN):
        os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        _fh.clear()
        generate_parser()
        fls = {t["flavour"] for t in targets}
        if "mcr" in fls:
            fls.add("mc")
        pres = {fl: pch(fl) for fl in sorted(fls)}
        jobs = {}
        for t in targets:
            srcs = list(t["src"])
            libs = t.get("libs", ["parser"])
            if "parser" in libs:
                srcs += library_sources()
            if "server" in libs:
                srcs += server_sources()
            for s in srcs:
                jobs[(s, flavour_of(s, t["flavour"]), tuple(t.get("flags", ())) if s in t["src"] else ())] = None
        order = sorted(jobs, key=lambda j: (0 if "hlasmparser.cpp" in j[0] else 1 if j[0].startswith(VERIF) else 2, j))
        errs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(compile_one, s, fl, pres[fl], extra): (s, fl, extra) for s, fl, extra in order}
            for f in cf.as_completed(futs):
                try:
                    jobs[futs[f]] = f.result()
                except BuildError as e:
                    errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs[:3]))
        outs = {}

        def link(t):
            libs = t.get("libs", ["parser"])
            extra = tuple(t.get("flags", ()))
            objs = [jobs[(s, flavour_of(s, t["flavour"]), extra)] for s in t["src"]]
            lib = []
            if "server" in libs:
                lib += [jobs[(s, flavour_of(s, t["flavour"]), ())] for s in server_sources()]
            if "parser" in libs:
                lib += [jobs[(s, flavour_of(s, t["flavour"]), ())] for s in library_sources()]
            out = os.path.join(BIN, t["name"])
            key = sha(json.dumps([objs, lib, t["flavour"]]).encode())
            stamp = out + ".key"
            if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key):
                # through an archive, so that a harness may replace a translation unit
                ar = os.path.join(BIN, t["name"] + ".a")
                if os.path.exists(ar):
                    os.remove(ar)
                rsp = ar + ".rsp"
                open(rsp, "w").write("\n".join(lib))
                if lib:
                    subprocess.run(["ar", "qcTS", ar, "@" + rsp], check=True)
                    subprocess.run(["ranlib", ar], check=True)
                r = subprocess.run([CXX, *LINK[t["flavour"]], "-o", out + ".tmp", *objs, *([ar] if lib else []),
                                    "-lantlr4-runtime", "-pthread", "-lstdc++fs"], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if r.returncode:
                    raise BuildError("link " + t["name"] + ":\n" + r.stdout.decode(errors="replace")[-6000:])
                os.replace(out + ".tmp", out)
                open(stamp, "w").write(key)
            return t["name"], out

        with cf.ThreadPoolExecutor(4) as ex:
            for n, o in ex.map(link, targets):
                outs[n] = o
        if verbose:
            print(f"[build] {', '.join(outs)}: {stats} in {time.time() - t0:.1f}s", flush=True)
        return outs
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import targets as T

    names = sys.argv[1:]
    try:
        build([t for t in T.TARGETS if not names or t["name"] in names])
    except BuildError as e:
        print(e)
        sys.exit(2)
