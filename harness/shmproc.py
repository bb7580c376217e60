"""Processes that deflate, pickle, load, inflate and destroy pulsars on command."""
import gc
import json
import os
import pickle
import signal
import subprocess
import sys
import time
from multiprocessing import resource_tracker, shared_memory

import numpy as np

import engine
import psrdata


def shows(psr):
    """The data a pulsar shows, as text."""
    out = []
    for f in ("Mmat", "planetssb", "sunssb", "residuals", "toas"):
        try:
            out += [repr(float(x)) for x in np.asarray(getattr(psr, f)).ravel()]
        except Exception as e:
            out.append("{} of {}".format(type(e).__name__, f))
    try:
        for k, v in psr.flags.items():
            out += [str(k)] + [str(x) for x in v]
    except Exception as e:
        out.append("{} of flags".format(type(e).__name__))
    return out


def serve(rd, wr, objs):
    """Answers one command per line until told to exit."""
    made = []
    init = shared_memory.SharedMemory.__init__

    def noting(self, name=None, create=False, size=0, **kw):
        init(self, name, create, size, **kw)
        if create:
            made.append(self.name)
    shared_memory.SharedMemory.__init__ = noting
    for line in rd:
        a = json.loads(line)
        ans = {"err": "", "made": []}
        del made[:]
        try:
            if a["op"] == "deflate":
                objs[a["p"]].deflate()
            elif a["op"] == "inflate":
                objs[a["p"]].inflate()
            elif a["op"] == "destroy":
                objs[a["p"]].destroy()
            elif a["op"] == "dump":
                with open(a["file"], "wb") as f:
                    pickle.dump(objs[a["p"]], f)
            elif a["op"] == "load":
                with open(a["file"], "rb") as f:
                    objs[a["p"]] = pickle.load(f)
            elif a["op"] == "drop":
                objs.pop(a["p"], None)
                gc.collect()
        except Exception as e:
            ans["err"] = "{}: {}".format(type(e).__name__, e)
        ans["made"] = list(made)
        if a["op"] == "exit":
            objs.clear()
            gc.collect()
            ans["tracker"] = resource_tracker._resource_tracker._pid or 0
        else:
            ans["objs"] = {p: shows(x) for p, x in objs.items()}
        wr.write(json.dumps(ans) + "\n")
        wr.flush()
        if a["op"] == "exit":
            return


def main():
    serve(sys.stdin, sys.stdout, {})


class Proc:
    """A process of its own, forked or a new interpreter."""

    def __init__(self, objs, fresh):
        self.pop = None
        if fresh:
            code = "import sys; sys.path.insert(0, {!r}); import shmproc; shmproc.main()".format(os.path.dirname(os.path.abspath(__file__)))
            self.pop = subprocess.Popen([sys.executable, "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            self.rd, self.wr, self.pid = self.pop.stdout, self.pop.stdin, self.pop.pid
            return
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(300)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 2)
                os.close(w1), os.close(r2)
                t = resource_tracker._resource_tracker
                t._fd = t._pid = None            # a process of its own, with its own tracker
                serve(os.fdopen(r1), os.fdopen(w2, "w"), objs)
            finally:
                os._exit(0)
        os.close(r1), os.close(w2)
        self.rd, self.wr = os.fdopen(r2), os.fdopen(w1, "w")

    def ask(self, a):
        self.wr.write(json.dumps(a) + "\n")
        self.wr.flush()
        line = self.rd.readline()
        if not line:
            raise RuntimeError("the process died during {}".format(a))
        return json.loads(line)

    def close(self, kill=False):
        ans = {}
        try:
            ans = self.ask({"op": "exit"}) if not kill else {"tracker": None}
        except Exception:
            pass
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        self.rd.close(), self.wr.close()
        if self.pop:
            self.pop.wait()
        else:
            os.waitpid(self.pid, 0)
        if kill:
            time.sleep(0.3)                      # its tracker notices
        else:
            gone(ans.get("tracker"))


def gone(pid):
    """Waits for a resource tracker to finish its work."""
    end = time.time() + 5
    while pid and time.time() < end:
        try:
            with open("/proc/{}/stat".format(pid)) as f:
                if f.read().rsplit(")", 1)[1].split()[0] == "Z":
                    return
        except OSError:
            return
        time.sleep(0.01)


def pulsars(scn, r):
    out = {}
    for p in range(1, scn["npsr"] + 1):
        n = int(r.randint(2, 5))
        flags = [[{"f": "A", "fe": "R1"}, {"f": "Bb"}], [{"f": "A"}, {"f": "ccc"}], [{}, {}]][int(r.choice(3, p=[.5, .4, .1]))]
        tab = [dict(t=int(r.randint(1, 6)), f=flags[k % 2], nz=[True, k % 2 == 0, True]) for k in range(n)]
        rows, fit = psrdata.table({"tab": tab}, r)
        psr = out[str(p)] = psrdata.make("t2", "J%04d+5678" % p, rows, fit, [0.6, 0.0, 0.8], bool(r.rand() < 0.7))
        # arrays need not be stored row by row
        if r.rand() < 0.5:
            psr._designmatrix = np.asfortranarray(psr._designmatrix)
        if r.rand() < 0.3:
            psr._planetssb = np.array(psr._planetssb, order="F")
        if r.rand() < 0.3:
            psr._residuals = np.repeat(psr._residuals, 2)[::2]
    return out


def history(scn, r, path):
    objs = pulsars(scn, r)
    data = [shows(objs[str(p)]) for p in range(1, scn["npsr"] + 1)]
    fresh = r.rand() < scn.get("fresh", 0.1)
    procs = {1: Proc(objs, False)}
    segs, ev = [], []
    try:
        for n, a in enumerate(scn["ops"]):
            q = a["q"]
            ans = {"err": "", "made": []}
            if a["op"] == "start":
                procs[q] = Proc({}, fresh and r.rand() < 0.5)
            elif a["op"] == "exit":
                procs.pop(q).close(kill=bool(r.rand() < 0.3))
            else:
                c = {"op": a["op"], "p": str(a["p"]), "file": os.path.join(path, "p{}.pkl".format(a["p"]))}
                ans = procs[q].ask(c)
                if ans["made"]:
                    segs.append(ans["made"])
            seen = {}
            for k, pr in procs.items():
                for p, v in pr.ask({"op": "look"})["objs"].items():
                    seen["{},{}".format(k, p)] = v
            ev.append(dict(a, obs={"err": ans["err"], "objs": seen,
                                   "segs": [{"total": len(g), "exist": sum(os.path.exists("/dev/shm/" + x.lstrip("/")) for x in g)} for g in segs]}))
    finally:
        for pr in procs.values():
            pr.close()
        for g in segs:
            for x in g:
                try:
                    os.unlink("/dev/shm/" + os.path.basename(x))
                except OSError:
                    pass
    return {"nproc": scn["nproc"], "npsr": scn["npsr"], "data": data, "ops": scn["ops"], "ev": ev}
