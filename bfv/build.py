"""Builds everything the checks execute from /repo's current working tree.

Every artefact lives in /verif/.build/<kind>-<hash>/, where the hash covers the content of
all sources that go into it, so nothing stale is ever used and concurrent checks share."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("BFV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
VENV_PY = "/opt/bigfile-venv/bin/python"
if not os.path.exists(VENV_PY):
    VENV_PY = "python3"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "LD_PRELOAD"):
        e.pop(k, None)
    e.update({
        "PATH": "/opt/bigfile-venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": e.get("HOME", "/root"), "LANG": "C.UTF-8", "CC": "gcc", "CXX": "g++",
        "PYTHONDONTWRITEBYTECODE": "1",
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob_tcp_if_include": "lo",
        "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_rmaps_base_no_oversubscribe": "0",
        "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    })
    return e


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fp:
                h.update(fp.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def _srcs():
    return sorted(glob.glob(REPO + "/src/*.c"))


def _allsrc():
    return [f for p in ("/src/*", "/bigfile/*", "/utils/*", "/scripts/*", "/setup.py", "/CMakeLists.txt", "/README.rst")
            for f in glob.glob(REPO + p)
            if os.path.isfile(f) and not f.endswith((".so", ".pyc", "pyxbigfile.c", ".o", ".a"))]


def _run(cmd, cwd=None, extra={}):
    p = subprocess.run(cmd, cwd=cwd, env=dict(env(), **extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def _artefact(kind, key, make):
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, kind + "-" + key)
    with open(os.path.join(CACHE, kind + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".ok")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            make(d)
            open(os.path.join(d, ".ok"), "w").close()
            old = sorted((x for x in glob.glob(os.path.join(CACHE, kind + "-*")) if x != d), key=os.path.getmtime)
            for x in old[:-6]:
                shutil.rmtree(x, ignore_errors=True)
        os.utime(d)
    return d


def _is_mpi(f):
    return "mpi" in os.path.basename(f)


INC = ["-I", REPO + "/src"]
# calls of the operating system that harness/faults.c can make fail
WRAP = ["-U_FORTIFY_SOURCE"] + ["-Wl,--wrap=" + x for x in (
    "fopen fopen64 fdopen fclose fread fwrite fgets fgetc getc getline getdelim __getdelim fputs fputc putc fprintf vfprintf fflush fscanf __isoc99_fscanf "
    "__isoc23_fscanf ferror fseek fseeko ftell ftello lseek read write mkdir").split()]


def serial():
    """Serial library + shim, with AddressSanitizer -> path of the .so"""
    srcs = [f for f in _srcs() if not _is_mpi(f)]
    hdr = glob.glob(REPO + "/src/*.h")
    shim = [HARNESS + "/shim.c", HARNESS + "/faults.c"]
    key = _hash(srcs + hdr + shim, "serial5")

    def make(d):
        _run(["gcc", "-shared", "-fPIC", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-w"] + WRAP + INC
             + ["-o", d + "/libbf.so"] + srcs + shim + ["-lm", "-lpthread"])
    return _artefact("serial", key, make) + "/libbf.so"


def mpi(asan=True):
    srcs = _srcs()
    hdr = glob.glob(REPO + "/src/*.h")
    shim = [HARNESS + "/shim.c", HARNESS + "/shim_mpi.c", HARNESS + "/faults.c"]
    key = _hash(srcs + hdr + shim, "mpi5%d" % asan)

    def make(d):
        _run(["mpicc", "-shared", "-fPIC", "-g", "-O1", "-fno-omit-frame-pointer", "-w"]
             + (["-fsanitize=address"] if asan else []) + WRAP + INC
             + ["-o", d + "/libbfmpi.so"] + srcs + shim + ["-lm", "-lpthread"])
    return _artefact("mpi%d" % asan, key, make) + "/libbfmpi.so"


def fuzz_meta():
    """harness/fuzz_meta.c as a libFuzzer target -> the program, or None where clang cannot build it"""
    srcs = [f for f in _srcs() if not _is_mpi(f)]
    key = _hash(srcs + glob.glob(REPO + "/src/*.h") + [HARNESS + "/fuzz_meta.c"], "fuzz1")

    def make(d):
        try:
            _run(["clang", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=fuzzer,address"] + INC + ["-o", d + "/fuzz", HARNESS + "/fuzz_meta.c"] + srcs + ["-lm", "-lpthread"])
        except (BuildError, OSError) as e:
            with open(d + "/why", "w") as f:
                f.write(str(e))
    p = _artefact("fuzz", key, make) + "/fuzz"
    return p if os.path.exists(p) else None


def threads():
    """harness/threads.c with AddressSanitizer and with ThreadSanitizer -> directory"""
    srcs = [f for f in _srcs() if not _is_mpi(f)]
    key = _hash(srcs + glob.glob(REPO + "/src/*.h") + [HARNESS + "/threads.c"], "threads1")

    def make(d):
        _par([["gcc", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=" + x] + INC + ["-o", d + "/" + x, HARNESS + "/threads.c"] + srcs + ["-lm", "-lpthread"]
              for x in ("address", "thread")])
    return _artefact("threads", key, make)


def pyext(asan=False):
    """A copy of the Python package with its extension built from the current sources -> site directory"""
    files = [f for f in _allsrc() if not f.startswith((REPO + "/utils", REPO + "/scripts"))]
    key = _hash(files, "pyext3%d" % asan)

    def make(d):
        w = d + "/w"
        os.makedirs(w)
        for sub in ("src", "bigfile"):
            shutil.copytree(REPO + "/" + sub, w + "/" + sub,
                            ignore=shutil.ignore_patterns("*.so", "pyxbigfile.c", "__pycache__", "*.o", "*.a"))
        for f in ("setup.py", "README.rst", "MANIFEST.in", "runtests.py"):
            if os.path.exists(REPO + "/" + f):
                shutil.copy(REPO + "/" + f, w)
        _run([VENV_PY, "setup.py", "build_ext", "--inplace", "--force", "--build-temp", d + "/t", "--build-lib", d + "/l"], cwd=w,
             extra={"CFLAGS": "-fsanitize=address -fno-omit-frame-pointer -g -O1"} if asan else {})
        if not glob.glob(w + "/bigfile/pyxbigfile*.so"):
            raise BuildError("extension was not built")
        os.makedirs(d + "/site")
        os.rename(w + "/bigfile", d + "/site/bigfile")
        for x in ("w", "t", "l"):
            shutil.rmtree(d + "/" + x, ignore_errors=True)
    return _artefact("pyext%d" % asan, key, make) + "/site"


TOOLS = ["bigfile-cat", "bigfile-create", "bigfile-copy", "bigfile-get-attr", "bigfile-set-attr", "bigfile-ls"]
MPITOOLS = ["bigfile-copy-mpi", "bigfile-sample-mpi", "bigfile-iosim"]
SCRIPTS = ["bigfile-check", "bigfile-rename", "bigfile-repartition", "bigfile-rm"]


def tools(asan=True):
    """The command line tools -> directory. The serial C tools are built with AddressSanitizer."""
    files = [f for f in _allsrc() if f.startswith((REPO + "/src", REPO + "/utils"))]
    key = _hash(files, "tools5%d" % asan)

    def make(d):
        lib = [f for f in _srcs() if not _is_mpi(f)]
        san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []
        jobs = []
        objs = []
        for f in lib:
            o = d + "/" + os.path.basename(f) + ".o"
            jobs.append(["gcc", "-c", "-g", "-O1", "-w"] + san + INC + ["-o", o, f])
            objs.append(o)
        mobjs = []
        for f in _srcs():
            o = d + "/" + os.path.basename(f) + ".mpi.o"
            jobs.append(["mpicc", "-c", "-g", "-O1", "-w"] + INC + ["-o", o, f])
            mobjs.append(o)
        _par(jobs)
        jobs = []
        for t in TOOLS:
            jobs.append(["gcc", "-g", "-O0", "-w"] + san + INC + ["-o", d + "/" + t, REPO + "/utils/" + t + ".c"] + objs + ["-lm"])
        for t in MPITOOLS:
            jobs.append(["mpicc", "-g", "-O0", "-w"] + INC + ["-o", d + "/" + t, REPO + "/utils/" + t + ".c"] + mobjs
                        + ["-lgsl", "-lgslcblas", "-lm"])
        _par(jobs)
        for t in SCRIPTS:
            shutil.copy(REPO + "/utils/" + t, d + "/" + t)
            os.chmod(d + "/" + t, 0o755)
        for f in glob.glob(d + "/*.o"):
            os.unlink(f)
    return _artefact("tools%d" % asan, key, make)


def _par(jobs):
    ps = [(j, subprocess.Popen(j, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for j in jobs]
    bad = None
    for j, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            bad = bad or BuildError("%s\n%s" % (" ".join(j), out.decode(errors="replace")[-4000:]))
    if bad:
        raise bad


def libasan():
    out = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    return os.path.realpath(out)


if __name__ == "__main__":
    t = time.time()
    kinds = sys.argv[1:] or ["serial", "mpi", "pyext", "tools"]
    for k in kinds:
        print(k, globals()[k](), "%.1fs" % (time.time() - t))
