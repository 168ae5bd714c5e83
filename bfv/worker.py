"""Executes cases one after another. Started by engine.Worker; under mpirun, rank 0 talks and all ranks execute."""
import importlib, json, os, resource, shutil, socket, sys, traceback


class Fail(Exception):
    """the property does not hold on this case"""


class Ctx:
    def __init__(self, dir):
        self.dir = dir
        self.tags = []
        self.nt = False

    def tag(self, *t):
        for x in t:
            if x not in self.tags:
                self.tags.append(x)

    def nontrivial(self, cond=True):
        self.nt = self.nt or bool(cond)


def fresh(base, n):
    d = os.path.join(base, "c%d" % n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def execute(ex, case, d):
    ctx = Ctx(d)
    try:
        ex.run(case, ctx)
        return {"ok": True, "tags": ctx.tags, "nt": ctx.nt}
    except Exception as e:
        if type(e).__name__ == "Fail":
            msg = str(e)
        else:
            msg = "unexpected %s\n%s" % (type(e).__name__, traceback.format_exc()[-3000:])
        return {"ok": False, "kind": "fail", "msg": msg, "tags": ctx.tags, "nt": True}


def main():
    kind, exmod = sys.argv[1:3]
    base = os.environ["BFV_SCRATCH"]
    rank = 0
    comm = None
    if kind.startswith("mpi"):
        from mpi4py import MPI
        comm = MPI.COMM_WORLD
        rank = comm.rank
    ex = importlib.import_module("bfv.ex." + exmod)
    if comm is not None:
        comm.barrier()
    # descriptors that are not given back make later cases fail
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (256 if soft == resource.RLIM_INFINITY else min(soft, 256), hard))
    sock = None
    if rank == 0:
        sock = socket.socket(socket.AF_UNIX)
        sock.connect(os.environ["BFV_SOCK"])
        rf = sock.makefile("rb")
        sock.sendall(b'"ready"\n')
    n = 0
    while True:
        case = None
        if rank == 0:
            line = rf.readline()
            case = json.loads(line) if line.endswith(b"\n") else None
        if comm is not None:
            case = comm.bcast(case, root=0)
        if case is None:
            break
        n += 1
        d = os.path.join(base, "c%d" % n)
        if rank == 0:
            fresh(base, n)
        if comm is not None:
            comm.barrier()
        os.chdir(d)
        r = execute(ex, case, d)
        os.chdir(base)
        if comm is not None:
            rs = comm.gather(r, root=0)
            if rank == 0:
                bad = [(i, x) for i, x in enumerate(rs) if not x["ok"]]
                r = {"ok": not bad, "nt": any(x["nt"] for x in rs), "tags": sorted({t for x in rs for t in x["tags"]})}
                if bad:
                    r["kind"] = "fail"
                    r["msg"] = "\n".join("rank %d: %s" % (i, x["msg"]) for i, x in bad)[:6000]
        if rank == 0:
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(d):
                os.system("chmod -R u+rwx '%s'; rm -rf '%s'" % (d, d))
            sock.sendall(json.dumps(r).encode() + b"\n")
    os._exit(0)


if __name__ == "__main__":
    main()
