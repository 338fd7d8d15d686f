#!/usr/bin/env python3
"""Builds the model-checking runtime, the instrumented libdex and the harnesses from
/repo's current working tree.  Objects are cached by content hash in /verif/build."""
import glob, hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
OBJ = os.path.join(OUT, "obj")
GEN = os.path.join(OUT, "gen")
CC = os.environ.get("VERIF_CC", "gcc")

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def pkg(*a):
    return subprocess.run(["pkg-config", *a], stdout=subprocess.PIPE, text=True).stdout.split()

PKGS = ["gio-2.0", "gio-unix-2.0", "gobject-2.0", "gthread-2.0", "liburing"]

def write_if_changed(p, s):
    if os.path.exists(p) and open(p).read() == s: return
    tmp = "%s.%d" % (p, os.getpid())
    open(tmp, "w").write(s); os.replace(tmp, p)

def gen_headers():
    os.makedirs(GEN, exist_ok=True); os.makedirs(OBJ, exist_ok=True)
    meson = open(os.path.join(REPO, "meson.build")).read()
    m = re.search(r"version:\s*'([0-9]+)\.([0-9]+)\.?([0-9]*)", meson)
    maj, mnr, mic = m.group(1), m.group(2), m.group(3) or "0"
    ver = "%s.%s.%s" % (maj, mnr, mic)
    write_if_changed(os.path.join(GEN, "config.h"), f"""#pragma once
#define ALIGN_OF_UCONTEXT 8
#define HAVE_EVENTFD 1
#define HAVE_LIBURING 1
#define HAVE_MADVISE 1
#define HAVE_MPROTECT 1
#define HAVE_POSIX_FADVISE 1
#define HAVE_UCONTEXT_H 1
#define PACKAGE_VERSION "{ver}"
#define _DEX_EXTERN __attribute__((visibility("default"))) extern
""")
    uv = subprocess.run(["pkg-config", "--modversion", "liburing"], stdout=subprocess.PIPE, text=True).stdout.strip().split(".")
    sub = {"MAJOR_VERSION": maj, "MINOR_VERSION": mnr, "MICRO_VERSION": mic, "VERSION": ver,
           "DEX_URING_MAJOR_VERSION": uv[0] if uv[0] else "2", "DEX_URING_MINOR_VERSION": uv[1] if len(uv) > 1 else "0"}
    for f in glob.glob(os.path.join(SRC, "*.h.in")):
        t = open(f).read()
        t = re.sub(r"@([A-Z_]+)@", lambda m: sub.get(m.group(1), m.group(0)), t)
        write_if_changed(os.path.join(GEN, os.path.basename(f)[:-3]), t)
    # type registration list for the warm-up
    names = set()
    for f in glob.glob(os.path.join(SRC, "*.c")):
        for m in re.finditer(r"(?:_?DEX_DEFINE_(?:ABSTRACT|DERIVABLE|FINAL)_TYPE|G_DEFINE_(?:FINAL_)?TYPE(?:_WITH_CODE)?|G_DEFINE_BOXED_TYPE)\s*\(\s*\w+\s*,\s*(\w+)", open(f).read()):
            if m.group(1) != "class_name": names.add(m.group(1))
    body = "".join("extern __attribute__((weak)) GType %s_get_type (void);\n" % n for n in sorted(names))
    body += "#define RT_ENSURE_TYPES " + " ".join("if (%s_get_type) g_type_ensure (%s_get_type ());" % (n, n) for n in sorted(names)) + "\n"
    write_if_changed(os.path.join(GEN, "rt_types.h"), body)

def incl_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(d, "*.h")) + glob.glob(os.path.join(d, "*.inc"))):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def compile_(src, flags, ih):
    h = hashlib.sha256((ih + " ".join(flags) + src).encode() + open(src, "rb").read()).hexdigest()[:24]
    o = os.path.join(OBJ, os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(o):
        tmp = "%s.%d.tmp.o" % (o, os.getpid())
        sh([CC, "-c", *flags, src, "-o", tmp])
        os.replace(tmp, o)
    return o

def flags():
    cf = pkg("--cflags", *PKGS)
    base = ["-g", "-O1", "-fno-pie", "-std=gnu11", "-w", "-I", GEN, "-I", SRC, *cf, '-DG_LOG_DOMAIN="Dex"', "-DDEX_COMPILATION"]
    inst = base + ["-fsanitize=thread", "-fno-inline", "-fno-optimize-sibling-calls", "-fno-omit-frame-pointer", "-fno-ipa-icf"]
    harn = base + ["-I", os.path.join(V, "mc"), "-I", os.path.join(V, "harness")]
    return inst, harn

def build(harnesses):
    gen_headers()
    inst, harn = flags()
    ih = incl_hash([SRC, GEN, os.path.join(V, "mc"), os.path.join(V, "harness")])
    srcs = sorted(glob.glob(os.path.join(SRC, "*.c")) + glob.glob(os.path.join(SRC, "*.S")))
    srcs = [s for s in srcs if not s.endswith("asm.S")]
    jobs = [(s, inst) for s in srcs] + [(os.path.join(V, "mc", f), harn) for f in ("rt.c", "rt_glib.c")]
    hs = [os.path.join(V, "harness", h + ".c") for h in harnesses]
    jobs += [(h, harn) for h in hs]
    # NAME.inst.c: part of harness NAME that is instrumented like libdex (inline functions of libdex)
    shim = {h: os.path.join(V, "harness", h + ".inst.c") for h in harnesses}
    shim = {h: f for h, f in shim.items() if os.path.exists(f)}
    jobs += [(f, inst) for f in shim.values()]
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        objs = list(ex.map(lambda j: compile_(j[0], j[1], ih), jobs))
    dex = objs[:len(srcs)]; rt = objs[len(srcs):len(srcs) + 2]; ho = objs[len(srcs) + 2:len(srcs) + 2 + len(hs)]
    so = dict(zip(shim, objs[len(srcs) + 2 + len(hs):]))
    libs = pkg("--libs", *PKGS)
    def link(k):
        name, o = harnesses[k], ho[k]
        extra = [so[name]] if name in so else []
        key = hashlib.sha256(" ".join(dex + rt + [o] + extra).encode()).hexdigest()[:24]
        exe = os.path.join(OUT, name)
        stamp = exe + ".key"
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key: return exe
        syms = set()
        for f in rt + [o]:
            for l in sh(["nm", f]).splitlines():
                w = l.split()
                if len(w) >= 2 and w[-1].startswith("__wrap_") and w[-2] in "TtWw": syms.add(w[-1][7:])
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        sh([CC, "-no-pie", "-g", "-o", tmp, *dex, *rt, o, *extra, *["-Wl,--wrap=" + s for s in sorted(syms)], "-Wl,--dynamic-list-data", *libs, "-lpthread", "-ldl", "-latomic"])
        nm = sh(["nm", "-n", tmp])
        open(exe + ".nm", "w").write(nm)
        os.replace(tmp, exe); open(stamp, "w").write(key)
        return exe
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        return list(ex.map(link, range(len(harnesses))))

if __name__ == "__main__":
    hs = sys.argv[1:]
    if not hs or hs == ["--all"]:
        hs = sorted(os.path.basename(f)[:-2] for f in glob.glob(os.path.join(V, "harness", "c[0-9][0-9].c")))
    for e in build(hs): print(e)
