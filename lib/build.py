"""Build instrumented variants of DLite from /repo's current working tree.

Build trees live in /verif/_build/<variant> (git-ignored); /repo is only read.
"""
import fcntl, os, shutil, subprocess, sys, hashlib, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(VERIF, "_build")
VENV = "/opt/dlite-venv"
PY = VENV + "/bin/python3"

SAN = "-fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=undefined"
VARIANTS = {
    # full stack with Python bindings, address + undefined behaviour sanitizers
    "py": dict(cflags="-O1 -g1 -fno-omit-frame-pointer " + SAN, python="ON",
               targets=["dlite", "dlite-utils", "dlite-plugins-json", "dlite-plugins-hdf5",
                        "dlite-plugins-rdf", "dlite-plugins-python", "dlitepy", "python_package",
                        "dlite-codegen", "dlite-getuuid", "dlite-env"]),
    # C library only, thread sanitizer
    "tsan": dict(cflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread", python="OFF",
                 targets=["dlite", "dlite-utils", "dlite-plugins-json"]),
    # C library only, ASan/UBSan (for C drivers with leak accounting)
    "core": dict(cflags="-O1 -g1 -fno-omit-frame-pointer " + SAN, python="OFF",
                 targets=["dlite", "dlite-utils", "dlite-plugins-json", "dlite-plugins-hdf5"]),
}


class BuildError(Exception):
    pass


def clean_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("DLITE_") and not k.startswith("ERR_") and k not in (
               "PYTHONPATH", "PYTHONHOME", "LD_LIBRARY_PATH", "CFLAGS", "CXXFLAGS", "LDFLAGS",
               "LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS")}
    env.update(HOME="/root", LANG="C.UTF-8", VIRTUAL_ENV=VENV,
               PATH=VENV + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
               PIP_NO_INDEX="1", FETCHCONTENT_FULLY_DISCONNECTED="ON", DLITE_BEHAVIOR="1")
    env.pop("DLITE_BEHAVIOR")
    return env


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=clean_env(), errors="replace", **kw)
    if p.returncode:
        errs = [l for l in p.stdout.splitlines() if "error:" in l or "undefined reference" in l]
        raise BuildError("command failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(cmd), "\n".join(errs[:20]),
                                                            p.stdout[-4000:]))
    return p.stdout


def ensure(variant):
    """Configure + build `variant` (incremental); returns its build directory."""
    v = VARIANTS[variant]
    d = os.path.join(ROOT, variant)
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(d, ".verif-config")
        want = repr((v, REPO))
        have = open(stamp).read() if os.path.exists(stamp) else None

        def configure():
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            run(["cmake", "-C", os.path.join(VERIF, "lib", "initcache.cmake"), "-S", REPO, "-B", d,
                 "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_FLAGS=" + v["cflags"],
                 "-DPython3_EXECUTABLE=" + PY, "-DSWIG_USE_SWIG_DEPENDENCIES=TRUE",
                 "-DWITH_PYTHON=" + v["python"], "-DWITH_HDF5=ON", "-DWITH_REDLAND=ON",
                 "-DWITH_FORTRAN=OFF", "-DWITH_EXAMPLES=OFF", "-DWITH_DOC=OFF"])
            with open(stamp, "w") as f:
                f.write(want)

        if have != want or not os.path.exists(os.path.join(d, "build.ninja")):
            configure()
        try:
            run(["ninja", "-C", d, "-j8"] + v["targets"])
        except BuildError:
            configure()                      # stale tree: one clean retry
            run(["ninja", "-C", d, "-j8"] + v["targets"])
    return d


INC = ["src", "src/utils", "src/pyembed"]


def compile_c(variant, src, out, shared=True, extra=(), libs=("dlite", "dlite-utils")):
    """Compile a harness C file against /repo's headers and the variant's libraries."""
    d = os.path.join(ROOT, variant)
    v = VARIANTS[variant]
    outp = os.path.join(d, out)
    cmd = ["gcc"] + v["cflags"].split() + ["-w", "-DHAVE_CONFIG_H"]
    if shared:
        cmd += ["-shared", "-fPIC"]
    for i in INC:
        cmd += ["-I" + os.path.join(d, i), "-I" + os.path.join(REPO, i)]
    cmd += ["-I/usr/include/raptor2", "-I/usr/include/rasqal"]
    cmd += list(extra) + ["-o", outp, src]
    for l in libs:
        sub = {"dlite": "src", "dlite-utils": "src/utils"}[l]
        cmd += ["-L" + os.path.join(d, sub), "-Wl,-rpath," + os.path.join(d, sub), "-l" + l]
    cmd += ["-lm", "-lpthread"]
    with open(os.path.join(ROOT, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tmp = outp + ".tmp%d" % os.getpid()
        cmd[cmd.index(outp)] = tmp
        run(cmd)
        os.replace(tmp, outp)
    return outp


if __name__ == "__main__":
    t = time.time()
    for name in (sys.argv[1:] or ["py"]):
        print(name, ensure(name), "%.1fs" % (time.time() - t), flush=True)
