"""compile /repo's current sources: LLVM IR for the verifier, a shared object for
the native replay"""
import os
import subprocess
import hashlib
import tempfile
import shutil
import concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(HERE, "harness")
INC = ["-I" + REPO + "/src", "-I" + REPO + "/tpl", "-I" + HARN,
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "-isystem", "/usr/include/trilinos"]
# the definitions of /opt/vp/build.sh
DEF = ["-DNIMBLE_HAVE_EXODUS", "-DNIMBLE_HAVE_KOKKOS", "-DNIMBLE_HAVE_MPI", "-DNIMBLE_HAVE_TRILINOS", "-DNDEBUG"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib", "-Wl,--as-needed", "-ltrilinos_tpetra", "-ltrilinos_teuchoscomm",
        "-ltrilinos_teuchosparameterlist", "-ltrilinos_teuchosnumerics", "-ltrilinos_teuchoscore", "-ltrilinos_kokkoscore",
        "-lmpi_cxx", "-lmpi", "-lstdc++", "-lm"]
_tmp = None


class BuildError(Exception):
    pass


def tmpdir():
    global _tmp
    if _tmp is None:
        import atexit
        _tmp = tempfile.mkdtemp(prefix="nverif.")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-4000:]))
    return r


def ir(src, defs=DEF, tag=""):
    """optimisation: only promotion of locals to registers and CFG clean-up"""
    out = os.path.join(tmpdir(), os.path.basename(src).replace(".cc", "") + tag)
    sh(["clang++-18", "-std=c++14", "-O1", "-w", "-fno-access-control", "-fno-vectorize", "-include", os.path.join(HARN, "pre.h"),
        "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-emit-llvm", "-c", src, "-o", out + ".bc"] + defs + INC)
    sh(["opt-18", "-passes=function(sroa,early-cse,simplifycfg)", out + ".bc", "-o", out + ".o.bc"])
    return out + ".o.bc"


def native(srcs, out="native.so", defs=DEF, extra=()):
    """shared object with the real code, for replaying inputs"""
    out = os.path.join(tmpdir(), out)
    objs = []

    def one(s):
        o = os.path.join(tmpdir(), os.path.basename(s) + "." + hashlib.md5(s.encode()).hexdigest()[:6] + ".o")
        sh(["clang++-18", "-std=c++14", "-O1", "-w", "-fno-access-control", "-fPIC", "-ffp-contract=off", "-c", s, "-o", o] + defs + INC)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs + [os.path.join(HARN, "nv.cc")]))
    sh(["clang++-18", "-shared", "-Wl,--wrap=abort", "-o", out] + objs + list(extra) + LIBS)
    return out
