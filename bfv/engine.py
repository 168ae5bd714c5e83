"""Search engine: sharded Hypothesis search, crash-isolated execution, shrinking, replay, evidence."""
import collections, hashlib, importlib, json, os, pwd, shutil, signal, socket, subprocess, sys, tempfile, time, traceback

from . import build

VERIF = build.VERIF


class InfraError(Exception):
    pass


class Stop(BaseException):
    """ends a search early (time guard, stop file, shrink cap)"""


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            p = tempfile.mkdtemp(prefix="bfv", dir=d)
        except OSError:
            continue
        try:
            os.chmod(p, 0o755)
            return p
        except OSError:
            continue
    raise InfraError("no scratch directory")


class Worker:
    """A persistent process (or mpirun of processes) that executes cases; survives nothing, is respawned."""

    def __init__(self, kind, exmod, root, name):
        self.kind, self.exmod, self.root, self.name = kind, exmod, root, name
        self.proc = self.uid = None
        self.n = 0
        self.history = []  # the cases this process has executed

    def start(self):
        self.n += 1
        self.dir = os.path.join(self.root, "%s.%d" % (self.name, self.n))
        os.makedirs(self.dir)
        sockpath = os.path.join(self.dir, "s")
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(sockpath)
        srv.listen(1)
        e = build.env()
        e["TMPDIR"] = self.dir
        e["PYTHONPATH"] = VERIF
        e["BFV_SOCK"] = sockpath
        e["BFV_SCRATCH"] = self.dir
        e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:exitcode=99:"
                             "detect_odr_violation=0:malloc_context_size=12:quarantine_size_mb=16:detect_stack_use_after_return=0")
        e["PYTHONMALLOC"] = "malloc" if self.kind == "serialm" else e.get("PYTHONMALLOC", "default")
        cmd = [build.VENV_PY, "-X", "faulthandler", "-m", "bfv.worker", self.kind, self.exmod]
        if self.kind == "serial":
            e["BFV_LIB"] = build.serial()
            e["LD_PRELOAD"] = build.libasan()
        elif self.kind == "py":
            e["PYTHONPATH"] = build.pyext(True) + ":" + VERIF
            e["LD_PRELOAD"] = build.libasan()
        elif self.kind == "cli":
            e["BFV_TOOLS"] = build.tools(True)
        elif self.kind == "threads":
            e["BFV_THREADS"] = build.threads()
        elif self.kind == "mix":
            e["BFV_LIB"] = build.serial()
            e["BFV_TOOLS"] = build.tools(True)
            e["PYTHONPATH"] = build.pyext() + ":" + VERIF
            e["LD_PRELOAD"] = build.libasan()
        elif self.kind.startswith("mpi"):
            n = int(self.kind[3:] or 6)
            e["BFV_LIB"] = build.mpi(True)
            e["PYTHONPATH"] = build.pyext(self.exmod == "c24") + ":" + VERIF
            e["OMPI_MCA_orte_tmpdir_base"] = self.dir
            cmd = ["mpirun", "-n", str(n), "--oversubscribe", "--mca", "mpi_yield_when_idle", "1", "--bind-to", "none", "--mca", "orte_abort_on_non_zero_status", "1",
                   "-x", "LD_PRELOAD=" + build.libasan()] + cmd
        else:
            raise InfraError("kind " + self.kind)
        self.logpath = os.path.join(self.dir, "log")
        self.log = open(self.logpath, "wb")
        who = {}
        self.uid = None
        if self.kind == "cli":
            # some tools delete and move: they run as a user who can write nothing but this directory
            self.uid = unprivileged(self.n)
            if self.uid:
                e["HOME"] = e["OMPI_MCA_orte_tmpdir_base"] = e["OMPI_MCA_btl_vader_backing_directory"] = self.dir
                if not readable(self.uid, e["BFV_TOOLS"], self.dir):
                    for k, v in (("BFV_TOOLS", "T"), ("PYTHONPATH", "P")):
                        t = os.path.join(self.dir, v)
                        shutil.copytree(e[k] if v == "T" else os.path.join(VERIF, "bfv"), t if v == "T" else t + "/bfv")
                        e[k] = t
                for d, ds, fs in os.walk(self.dir):
                    for x in [d] + [os.path.join(d, f) for f in fs]:
                        os.lchown(x, self.uid, self.uid)
                who = dict(user=self.uid, group=self.uid, extra_groups=[])
        self.proc = subprocess.Popen(cmd, env=e, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.log,
                                     stderr=self.log, start_new_session=True, **who)
        t0 = time.time()
        srv.settimeout(1.0)
        while True:
            try:
                self.sock, _ = srv.accept()
                break
            except socket.timeout:
                if self.proc.poll() is not None or time.time() - t0 > 180:
                    log = self.tail()
                    self.stop()
                    raise InfraError("worker did not start: " + log)
        srv.close()
        self.rf = self.sock.makefile("rb")
        hello = self.rf.readline()
        if hello.strip() != b'"ready"':
            log = self.tail()
            self.stop()
            raise InfraError("worker failed at start: %r %s" % (hello, log))

    def tail(self, n=6000):
        try:
            with open(self.logpath, "rb") as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - 200000))
                t = f.read().decode(errors="replace")
            i = t.find("ERROR: AddressSanitizer")
            if i >= 0:
                return t[i:i + n]
            return t[-n:]
        except OSError:
            return ""

    def stop(self):
        p, self.proc = self.proc, None
        if p is None:
            return
        try:
            self.sock.close()
        except Exception:
            pass
        if self.kind.startswith("mpi"):
            p.terminate()
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        if self.kind.startswith("mpi"):
            _kill_marked(self.dir)
        if self.uid:
            _kill_user(self.uid)
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, case, timeout=60):
        if self.proc is None:
            self.start()
            self.history = []
        self.history.append(case)
        data = json.dumps(case).encode() + b"\n"
        try:
            self.sock.settimeout(timeout)
            self.sock.sendall(data)
            line = self.rf.readline()
        except socket.timeout:
            log = self.tail(1500)
            self.stop()
            return {"ok": False, "kind": "hang", "msg": "no answer within %d s\n%s" % (timeout, log), "tags": [], "nt": True}
        except OSError:
            line = b""
        if not line.endswith(b"\n"):
            try:
                rc = self.proc.wait(20)
            except subprocess.TimeoutExpired:
                rc = None
            log = self.tail()
            self.stop()
            return {"ok": False, "kind": "crash", "msg": "the process died (status %s)\n%s" % (rc, log), "tags": [], "nt": True}
        return json.loads(line)


def _kill_marked(d):
    """end our own stray ranks: processes of ours whose working directory lies in d"""
    for pid in os.listdir("/proc"):
        if pid.isdigit():
            try:
                if os.readlink("/proc/%s/cwd" % pid).startswith(d):
                    os.kill(int(pid), signal.SIGKILL)
            except OSError:
                pass


def _kill_user(uid):
    for pid in os.listdir("/proc"):
        if pid.isdigit():
            try:
                if os.stat("/proc/" + pid).st_uid == uid:
                    os.kill(int(pid), signal.SIGKILL)
            except OSError:
                pass


def unprivileged(n):
    """a user id of our own that owns nothing, or None where we cannot change to one"""
    if os.geteuid() != 0:
        return None
    used = set()
    for pid in os.listdir("/proc"):
        if pid.isdigit():
            try:
                used.add(os.stat("/proc/" + pid).st_uid)
            except OSError:
                pass
    for k in range(200):
        uid = 20000 + (os.getpid() * 7 + n + k * 101) % 40000
        try:
            pwd.getpwuid(uid)
            continue
        except KeyError:
            pass
        if uid in used:
            continue
        try:
            subprocess.run(["/bin/true"], user=uid, group=uid, extra_groups=[], check=True)
            return uid
        except (OSError, subprocess.SubprocessError):
            return None
    return None


def readable(uid, tools, d):
    """whether that user can start the executor"""
    r = subprocess.run([build.VENV_PY, "-c", "import os,sys; import bfv.worker; sys.exit(not all(os.access(os.path.join(sys.argv[1],f),os.R_OK|os.X_OK) "
                        "for f in os.listdir(sys.argv[1]) if f.startswith('bigfile')))", tools], user=uid, group=uid, extra_groups=[], cwd="/",
                       env=dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return r.returncode == 0


def canon(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


class Arm:
    def __init__(self, name, kind, ex, strategy, quick, thorough, shards=4, corners=(), timeout=60, guard=(240, 700), feed=None):
        """strategy may be None; feed(tier, seed, directory) yields further cases, from a generator of its own"""
        self.name, self.kind, self.ex, self.strategy = name, kind, ex, strategy
        self.counts = {"quick": 2 * quick, "thorough": 2 * thorough}
        self.shards, self.corners, self.timeout, self.feed = shards, corners, timeout, feed
        self.guard = {"quick": guard[0], "thorough": guard[1]}


def load(pid):
    return importlib.import_module("bfv.props." + pid.lower())


def run_shard(pid, arm_name, idx, nsh, seed, tier, outfile, stopfile, root):
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck, seed as hseed
    mod = load(pid)
    arm = [a for a in mod.ARMS if a.name == arm_name][0]
    n = -(-arm.counts[tier] // nsh)
    w = Worker(arm.kind, arm.ex, root, "%s%d" % (arm.name[:3], idx))
    st = {"evaluations": 0, "tags": collections.Counter(), "nt": set(), "samples": [], "failure": None, "arm": arm_name,
          "stopped": None, "seen": 0}
    t0 = time.time()
    fail_t = [None]

    def one(case):
        now = time.time()
        if fail_t[0] is None:
            if os.path.exists(stopfile):
                raise Stop("another shard failed")
            if now - t0 > arm.guard[tier]:
                raise Stop("time guard")
        elif now - fail_t[0] > 45:
            raise Stop("shrink cap")
        r = w.run(case, arm.timeout)
        st["evaluations"] += 1
        if r["ok"]:
            st["tags"].update(r["tags"])
            if r["nt"]:
                h = canon(case)
                if h not in st["nt"]:
                    st["nt"].add(h)
                    if len(st["samples"]) < 2 and len(st["nt"]) % 7 == 3:
                        st["samples"].append(case)
            return
        st["failure"] = {"case": case, "msg": r["msg"], "kind": r.get("kind", "fail"), "arm": arm_name}
        if fail_t[0] is None:
            st["sequence"] = {"sequence": list(w.history)}
            fail_t[0] = now
            open(stopfile, "w").close()
        if r.get("kind") == "hang":
            raise Stop("hang")
        raise AssertionError(r["msg"])

    def shorten(case):
        """the texts of a failing case, cut as long as it keeps failing"""
        for key in [k for k in case if isinstance(case[k], str)]:
            step = max(1, len(case[key]) // 2)
            while step:
                i = 0
                while i < len(case[key]):
                    c = dict(case, **{key: case[key][:i] + case[key][i + step:]})
                    try:
                        one(c)
                        i += step
                    except AssertionError:
                        case = c
                step //= 2
        try:
            one(case)  # the smallest one is the one reported
        except AssertionError:
            pass

    def search():
        if arm.strategy is None:
            return

        @hseed(derive(seed, pid, arm_name, idx) % (1 << 62))
        @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
                  phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)
        @given(arm.strategy(tier))
        def go(case):
            one(case)
        go()

    try:
        corners = arm.corners(tier) if callable(arm.corners) else arm.corners
        for i, c in enumerate(corners):
            if i % nsh == idx:
                one(c)
        if arm.feed:
            d = os.path.join(root, "feed.%s.%d" % (arm_name, idx))
            os.makedirs(d)
            for c in arm.feed(tier, derive(seed, pid, arm_name, idx, "feed") % (1 << 31), d):
                try:
                    one(c)
                except AssertionError:
                    shorten(c)
                    raise
            shutil.rmtree(d, ignore_errors=True)
        search()
    except Stop as e:
        st["stopped"] = str(e)
    except InfraError as e:
        st["infra"] = str(e)
    except BaseException as e:
        if st["failure"] is None:
            st["infra"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        w.stop()
    st["nt"] = sorted(st["nt"])
    st["tags"] = dict(st["tags"])
    st["wall"] = time.time() - t0
    with open(outfile + ".tmp", "w") as f:
        json.dump(st, f)
    os.rename(outfile + ".tmp", outfile)


def prebuild(mod):
    kinds = {a.kind for a in mod.ARMS}
    for k in kinds:
        if k in ("serial", "mix"):
            build.serial()
        if k in ("cli", "mix"):
            build.tools(True)
        if k == "threads":
            build.threads()
        if k.startswith("mpi"):
            build.mpi(True)
        if k == "py" or mod.ID == "C24":
            build.pyext(True)
        if k == "mix" or k.startswith("mpi"):
            build.pyext()


def replay_case(mod, arm_name, case, root, name="rp"):
    arm = [a for a in mod.ARMS if a.name == arm_name][0]
    w = Worker(arm.kind, arm.ex, root, name)
    try:
        for c in case["sequence"] if "sequence" in case else [case]:
            r = w.run(c, arm.timeout)
            if not r["ok"]:
                break
        return r
    finally:
        w.stop()


def sequence_of(mod, f, seq, root, deadline):
    """a failure that needs what went before it in the same process: the shortest end of the history that fails repeatedly, or None"""
    def fails(cs, times):
        return all(time.time() < deadline and not replay_case(mod, f["arm"], {"sequence": cs}, root, "sq")["ok"] for _ in range(times))

    seq = seq["sequence"]
    if not fails(seq, 3):
        return None
    k = 2
    while k < len(seq):
        if fails(seq[-k:], 3):
            seq = seq[-k:]
            break
        k *= 2
    i = 0
    while len(seq) <= 40 and i < len(seq) - 1 and time.time() < deadline - 30:
        if fails(seq[:i] + seq[i + 1:], 2):
            seq = seq[:i] + seq[i + 1:]
        else:
            i += 1
    return {"sequence": seq}


def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def check(pid, seed, tier):
    t0 = time.time()
    mod = load(pid)
    prebuild(mod)
    root = scratch_root()
    try:
        return _check(pid, mod, seed, tier, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _check(pid, mod, seed, tier, root, t0):
    stopfile = os.path.join(root, "stop")
    jobs = []
    for arm in mod.ARMS:
        for i in range(arm.shards):
            out = os.path.join(root, "out.%s.%d" % (arm.name, i))
            e = build.env()
            e["PYTHONPATH"] = VERIF
            p = subprocess.Popen([sys.executable, "-m", "bfv.engine", "shard", pid, arm.name, str(i), str(arm.shards), str(seed),
                                  tier, out, stopfile, root], env=e, cwd=VERIF, start_new_session=True)
            jobs.append((arm, i, out, p))
    results = []
    infra = []
    hard = {"quick": 780, "thorough": 1500}[tier]
    for arm, i, out, p in jobs:
        try:
            p.wait(max(1, hard - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            results.append(r)
            if r.get("infra"):
                infra.append("%s/%d: %s" % (arm.name, i, r["infra"]))
        else:
            infra.append("%s/%d: no result (status %s)" % (arm.name, i, p.returncode))
    fails = [dict(r["failure"], before=r.get("sequence")) for r in results if r["failure"]]
    fails.sort(key=lambda f: len(json.dumps(f["case"])))
    violation = None
    unconfirmed = []
    for k, f in enumerate(fails[:6]):
        hits = runs = 0
        for j in range(8):
            r = replay_case(mod, f["arm"], f["case"], root, "rp%d_%d" % (k, j))
            runs += 1
            hits += not r["ok"]
            if (runs == 3 and hits in (0, 3)) or hits >= 4 or time.time() - t0 > 820:
                break
        if hits == runs or hits >= 3:
            violation = f
            violation["replays"] = "%d of %d" % (hits, runs)
            break
        unconfirmed.append({"case": f["case"], "msg": f["msg"][:500], "replays": "%d of %d" % (hits, runs)})
    for f in fails[:3]:
        if violation is None and unconfirmed and f["before"] and len(f["before"]["sequence"]) > 1:
            c = sequence_of(mod, f, f["before"], root, t0 + 600)
            if c is not None:
                violation = dict(f, case=c, replays="3 of 3, only after the cases before it")
    known = []
    if violation is None:
        for kf in known_findings():
            if kf["property"] == pid:
                r = replay_case(mod, kf["arm"], kf["case"], root, "kf")
                if not r["ok"]:
                    known.append(kf)
                    print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    tags = collections.Counter()
    nt = set()
    ev = 0
    samples = []
    arms = collections.Counter()
    for r in results:
        tags.update(r["tags"])
        nt.update((r["arm"], h) for h in r["nt"])
        ev += r["evaluations"]
        arms[r["arm"]] += r["evaluations"]
    for a in mod.ARMS:
        for r in results:
            if r["arm"] == a.name and r["samples"]:
                s = json.dumps(r["samples"][0])
                samples.append({"arm": a.name, "case": r["samples"][0] if len(s) < 3000 else s[:3000] + "..."})
                if len([x for x in samples if x["arm"] == a.name]) >= 2:
                    break
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(nt), "rule": mod.RULE, "samples": samples,
                     "evaluations_per_arm": dict(arms), "classes": dict(sorted(tags.items())),
                     "stopped_early": sorted({"%s: %s" % (r["arm"], r["stopped"]) for r in results if r["stopped"]}),
                     "known_findings_reproduced": [k["id"] for k in known]},
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": int(violation is not None)}
    if unconfirmed:
        evd["coverage"]["unconfirmed"] = unconfirmed
    rc = 0
    if violation is not None:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, canon(violation["case"])))
        with open(path, "w") as f:
            json.dump({"property": pid, "arm": violation["arm"], "case": violation["case"], "message": violation["msg"],
                       "replays": violation["replays"]}, f, indent=1)
        evd["coverage"]["counterexample"] = {"arm": violation["arm"], "case": violation["case"], "message": violation["msg"][:2000]}
        print("--- %s (%s)\n%s\ncase: %s" % (pid, violation["arm"], violation["msg"][:3000], json.dumps(violation["case"])[:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s, arms %s%s" % (pid, tier, ev, len(nt), time.time() - t0, dict(arms),
          "" if not unconfirmed else ", UNCONFIRMED %d" % len(unconfirmed)))
    if infra and rc == 0:
        print("infrastructure problem:\n" + "\n".join(infra), file=sys.stderr)
        return 2
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "shard":
        _, _, pid, arm, idx, nsh, seed, tier, out, stopf, root = sys.argv
        run_shard(pid, arm, int(idx), int(nsh), int(seed), tier, out, stopf, root)
