"""Builds the code under test from /repo's current working tree into a scratch directory.

Nothing is cached: every check copies /repo/wdns and /repo/libmy, generates wdns.h and the
generated sources with the repository's own generators, and compiles with its own flags.
"""
import os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,vla-bound",
        "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
WARN = ["-w"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def prepare(scratch):
    """copy sources, generate headers; returns the source root"""
    src = os.path.join(scratch, "src")
    os.makedirs(src)
    for d in ("wdns", "libmy", "examples"):
        if d == "examples" and not os.path.isdir(os.path.join(REPO, d)):
            continue
        shutil.copytree(os.path.join(REPO, d), os.path.join(src, d), symlinks=True,
                        ignore=shutil.ignore_patterns("*.o", "*.lo", "*.la", ".libs", ".deps", "*.gcda", "*.gcno",
                                                      "wdns.h", "rcode_to_str.c", "rrclass_to_str.c", "rrtype_to_str.c"))
    ver = {}
    with open(os.path.join(REPO, "configure.ac")) as f:
        ac = f.read()
    for k in ("major", "minor", "patchlevel"):
        m = re.search(r"m4_define\(\[?wdns_%s_version\]?,\s*\[?(\d+)\]?\)" % k, ac)
        ver[k] = m.group(1) if m else "0"
    with open(os.path.join(src, "wdns", "wdns.h.in")) as f:
        h = f.read()
    h = h.replace("@WDNS_VERSION@", ".".join((ver["major"], ver["minor"], ver["patchlevel"])))
    for k in ver:
        h = h.replace("@WDNS_%s_VERSION@" % k.upper(), ver[k])
    with open(os.path.join(src, "wdns", "wdns.h"), "w") as f:
        f.write(h)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    for n in ("rcode", "rrclass", "rrtype"):
        sh([sys.executable, os.path.join(src, "wdns", "gen_%s_to_str" % n), "wdns/wdns.h", "wdns/%s_to_str.c" % n],
           cwd=src, env=env)
    with open(os.path.join(src, "config.h"), "w") as f:
        f.write('#ifndef _GNU_SOURCE\n# define _GNU_SOURCE 1\n#endif\n#define HAVE_ALLOCA_H 1\n#define HAVE_INTTYPES_H 1\n#define HAVE_STDINT_H 1\n'
                '#define HAVE_STDIO_H 1\n#define HAVE_STDLIB_H 1\n#define HAVE_STRINGS_H 1\n#define HAVE_STRING_H 1\n'
                '#define HAVE_SYS_STAT_H 1\n#define HAVE_SYS_TYPES_H 1\n#define HAVE_UNISTD_H 1\n#define STDC_HEADERS 1\n'
                '#define PACKAGE "wdns"\n#define VERSION "%s"\n' % ".".join((ver["major"], ver["minor"], ver["patchlevel"])))
    return src


def wdns_sources(src):
    with open(os.path.join(REPO, "Makefile.am")) as f:
        mk = f.read().replace("\\\n", " ")
    m = re.search(r"^wdns_libwdns_la_SOURCES\s*=(.*)$", mk, re.M)
    names = [x for x in m.group(1).split() if x.endswith(".c")] if m else []
    for m in re.finditer(r"^wdns_libwdns_la_SOURCES\s*\+=(.*)$", mk, re.M):
        names += [x for x in m.group(1).split() if x.endswith(".c")]
    return names


def compile_all(jobs):
    """jobs: list of argv lists"""
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(sh, j) for j in jobs]:
            f.result()


def build(scratch, spec):
    """spec: dict(harness=[files in mc/], wdns=bool, libmy=[c files], cflags, ldflags, tag) -> path of binary"""
    src = os.path.join(scratch, "src")
    if not os.path.isdir(src):
        prepare(scratch)
    tag = spec.get("tag", "h")
    obj = os.path.join(scratch, "obj-" + tag)
    os.makedirs(obj)
    san = spec.get("san", ASAN)
    libsan = spec.get("libsan", san)
    inc = ["-include", os.path.join(src, "config.h"), "-I" + src, "-I" + os.path.join(src, "wdns"), "-I" + os.path.join(src, "libmy"), "-I" + HERE, "-I" + os.path.join(HERE, "fakepb")]
    jobs, objs = [], []
    shared = spec.get("shared")             # the code under test becomes libut.so, its writable memory separate
    libobjs = [] if shared else objs
    cc = spec.get("cc", "clang")
    cxx = "clang++"
    if spec.get("wdns"):
        for s in wdns_sources(src):
            o = os.path.join(obj, s.replace("/", "_")[:-2] + ".o")
            jobs.append([cc, "-c", os.path.join(src, s), "-o", o] + inc +
                        ["-include", os.path.join(src, "wdns", "wdns-private.h")] + libsan + WARN + spec.get("libflags", []))
            libobjs.append(o)
    for s in spec.get("libmy", []):
        o = os.path.join(obj, "lm_" + s.replace("/", "_")[:-2] + ".o")
        # files that belong to libwdns are compiled with its private header, as its Makefile does
        pre = ["-include", os.path.join(src, "wdns", "wdns-private.h")] if "libmy/" + s in wdns_sources(src) else \
              ["-include", "stdbool.h", "-include", "stddef.h", "-include", "stdint.h"]
        jobs.append([cc, "-c", os.path.join(src, "libmy", s), "-o", o] + inc + pre + libsan + WARN + spec.get("libflags", []))
        libobjs.append(o)
    only = []
    for s in spec["harness"]:
        s, _, instr = s.partition(":")      # "file.c:lib" compiles a harness file with the library's flags
        instr, _, sym = instr.partition("=")  # "file.c:lib=sym" keeps no other of its symbols global
        o = os.path.join(obj, "H_" + os.path.splitext(s)[0] + ".o")
        if s.endswith(".c"):
            jobs.append([cc, "-c", os.path.join(HERE, s), "-o", o] + inc + (libsan if instr else san) + WARN + spec.get("hflags", []) + (spec.get("libflags", []) if instr else []))
        else:
            jobs.append([cxx, "-std=c++17", "-c", os.path.join(HERE, s), "-o", o] + inc + san + ["-Wno-everything"] + spec.get("hflags", []))
        (libobjs if instr else objs).append(o)
        if sym:
            only.append(["objcopy", "--keep-global-symbol=" + sym, o])
    compile_all(jobs)
    for c in only:
        sh(c)
    out = os.path.join(scratch, "bin-" + tag)
    if shared:
        # undefined callbacks and wrapped calls are resolved by the harness executable
        so = os.path.join(obj, "libut.so")
        sh(["clang", "-shared", "-Wl,-z,now", "-Wl,-z,relro", "-Wl,-soname,libut.so"] + libobjs + ["-o", so] + ["-Wl,--wrap=" + w for w in spec["wrap"]])
        objs += ["-L" + obj, "-lut", "-Wl,-rpath," + obj, "-rdynamic", "-ldl"]
    sh([cxx] + spec.get("ldsan", san) + objs + ["-o", out, "-lpthread"] + spec.get("ldflags", []))
    return out
