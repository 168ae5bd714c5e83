"""running the command line tools"""
import os, resource, signal, subprocess
from ..worker import Fail

T = os.environ.get("BFV_TOOLS", "")


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def tool(name, *args, stdin=b"", timeout=40, cwd=None, env=None, np=0, fsize=None, stdout=None, aborts=False):
    """-> (exit status, stdout, stderr); crashes and hangs are failures of the property.
    aborts: the tool may end itself with abort(); fsize: files cannot grow beyond that many bytes; stdout: a file to write to instead"""
    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))

    cmd = [os.path.join(T, name)] + [os.fsencode(a) if isinstance(a, str) else a for a in args]
    if np:
        cmd = ["mpirun", "-n", str(np), "--mca", "orte_abort_on_non_zero_status", "1"] + cmd
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    e["PATH"] = T + ":" + e["PATH"]
    if env:
        e.update(env)
    out = open(stdout, "wb") if stdout else subprocess.PIPE
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=out, stderr=subprocess.PIPE, cwd=cwd, env=e, start_new_session=True,
                         preexec_fn=limit if fsize is not None else None)
    if stdout:
        out.close()
    try:
        out, err = p.communicate(stdin, timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise Fail("%s %s did not end within %d s" % (name, list(args), timeout))
    t = err.decode(errors="replace")
    need("AddressSanitizer" not in t and p.returncode != 99, "%s %s: memory error\n%s", name, list(args), t[:4000])
    need(p.returncode >= 0, "%s %s was ended by signal %d\n%s", name, list(args), -p.returncode, t[:2000])
    if aborts and "Signal: Aborted" in t and "Signal: Seg" not in t:
        return p.returncode, out, t
    need(np == 0 or "signal" not in t or "Signal:" not in t, "%s %s crashed\n%s", name, list(args), t[:3000])
    return p.returncode, out, t
