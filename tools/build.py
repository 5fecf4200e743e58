#!/usr/bin/env python3
"""Build the library (from /repo's *current working tree*) and the harnesses.

  build.py [--flavor q|t] [harness ...]      (no harness names: all of them)

/repo/{include,src,deps} is mirrored by CONTENT into /verif/build/mirror, so a file's
mtime in the mirror changes exactly when its content does; ninja then rebuilds what
depends on it.  Nothing is written in /repo.
"""
import json, os, re, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MIRROR = os.path.join(BUILD, "mirror")

FLAVORS = {
    # quick: AddressSanitizer + libstdc++ assertions + Eigen assertions
    "q": ["-O1", "-gline-tables-only", "-fsanitize=address", "-fno-omit-frame-pointer",
          "-D_GLIBCXX_ASSERTIONS"],
    # thorough: the same plus UBSan
    "t": ["-O1", "-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
          "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}
LIBS = ["-lspqr", "-lcholmod", "-lccolamd", "-lcamd", "-lcolamd", "-lamd", "-lumfpack",
        "-lsuitesparseconfig", "-llapack", "-lblas", "-lpthread"]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write_if_changed(path, data):
    try:
        if read(path) == data:
            return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def mirror():
    want = set()
    for top in ("include", "src", "deps"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [x for x in dirs if x not in ("_build", "build", ".git")]
            for f in files:
                p = os.path.join(d, f)
                if not os.path.isfile(p):
                    continue
                rel = os.path.relpath(p, REPO)
                want.add(rel)
                write_if_changed(os.path.join(MIRROR, rel), read(p))
    for d, _, files in os.walk(MIRROR):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), MIRROR)
            if rel not in want:
                os.unlink(os.path.join(d, f))


def sources():
    txt = read(os.path.join(MIRROR, "src/CMakeLists.txt")).decode()
    out = []
    for line in txt.splitlines():
        line = line.split("#", 1)[0]
        for m in re.findall(r"[\w./-]+\.cpp", line):
            if os.path.exists(os.path.join(MIRROR, "src", m)) and m not in out:
                out.append(m)
    return out


def main():
    args = sys.argv[1:]
    flavor = "q"
    if args[:1] == ["--flavor"]:
        flavor, args = args[1], args[2:]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror()
    run(flavor, args, False)


def run(flavor, args, full):
    needs = json.load(open(os.path.join(VERIF, "tools/needs.json")))
    hdir = os.path.join(VERIF, "harness")
    allh = sorted(f[:-4] for f in os.listdir(hdir) if f.endswith(".cpp"))
    happly = os.path.join(MIRROR, "deps/happly")
    # the happly submodule is empty in this sandbox: use the stand-in in /verif/shim
    real = os.path.join(happly, "happly.h")
    happly_inc = happly if os.path.exists(real) else os.path.join(VERIF, "shim")
    inc = " ".join("-I" + x for x in [os.path.join(MIRROR, "include"),
                                      os.path.join(MIRROR, "deps/nanort/include"),
                                      os.path.join(MIRROR, "deps/nanoflann/include"), happly_inc])
    sysinc = "-isystem /usr/include/eigen3 -isystem /usr/include/suitesparse"
    fl = " ".join(FLAVORS[flavor])
    defs = "-DNOMINMAX -D_USE_MATH_DEFINES -DGC_HAVE_SUITESPARSE"
    n = ["ninja_required_version = 1.5", "builddir = %s/%s" % (BUILD, flavor),
         "common = clang++ -w -fPIC %s %s %s %s" % (fl, defs, inc, sysinc)]
    n += ["rule lib", "  command = $common -std=c++14 -MMD -MF $out.d -c $in -o $out",
          "  depfile = $out.d", "  deps = gcc", "  description = LIB $in",
          "rule har", "  command = $common -std=c++17 -I%s/harness -MMD -MF $out.d -c $in -o $out" % VERIF,
          "  depfile = $out.d", "  deps = gcc", "  description = HARNESS $in",
          "rule ar", "  command = rm -f $out && ar rcs $out $in", "  description = AR $out",
          "rule link", "  command = clang++ %s $in -o $out %s" % (fl, " ".join(LIBS)),
          "  description = LINK $out"]
    objs = []
    for s in sources():
        o = "%s/%s/lib/%s.o" % (BUILD, flavor, s[:-4])
        objs.append(o)
        n.append("build %s: lib %s/src/%s" % (o, MIRROR, s))
    lib = "%s/%s/libgc.a" % (BUILD, flavor)
    n.append("build %s: ar %s" % (lib, " ".join(objs)))
    for h in allh:
        o = "%s/%s/h/%s.o" % (BUILD, flavor, h)
        n.append("build %s: har %s/%s.cpp" % (o, hdir, h))
        # the objects this harness was linked with last time; if they are not enough any more, all are built
        part = ["%s/%s/lib/%s.o" % (BUILD, flavor, s[:-4]) for s in needs.get(h, [])]
        if part and all(p in objs for p in part) and not full:
            plib = "%s/%s/libgc_%s.a" % (BUILD, flavor, h)
            n.append("build %s: ar %s" % (plib, " ".join(part)))
        else:
            plib = lib
        n.append("build %s/%s/bin/%s: link %s %s" % (BUILD, flavor, h, o, plib))
    nf = os.path.join(BUILD, "build.%s%s.ninja" % (flavor, ".full" if full else ""))
    write_if_changed(nf, ("\n".join(n) + "\n").encode())
    targets = ["%s/%s/bin/%s" % (BUILD, flavor, h) for h in (args or allh)]
    r = subprocess.run(["ninja", "-C", BUILD, "-f", nf, "-j", os.environ.get("VERIF_JOBS", "8")] + targets,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode and not full:
        return run(flavor, args, True)
    if r.returncode:
        sys.stdout.buffer.write(r.stdout[-8000:])
        print("BUILD FAILED")
        sys.exit(3)


main()
