"""Runs workload cases on the real code in parallel Jython processes and returns
the recorded events.  Never decides anything itself."""
import json
import os
import shutil
import signal
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
JAVA = ["/usr/lib/jvm/java-21-openjdk-amd64/bin/java", "-Xss64m", "-Xmx3g",
        "-XX:+UseSerialGC",
        "-Djava.library.path=/usr/lib/x86_64-linux-gnu/jni",
        "-cp", "/usr/share/java/jython.jar:/usr/share/java/com.microsoft.z3.jar",
        "-Dpython.cachedir.skip=true", "-Dpython.home=/usr/share/jython",
        "-Dpython.executable=/opt/py2/bin/jython", "org.python.util.jython"]


class Infra(Exception):
    """the machinery itself could not run: neither held nor violated"""


def env(extra=None):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "JYTHONPATH": "/opt/py2/lib",
              "VERIF_REPO": REPO, "HOME": "/root", "LANG": "C.UTF-8"})
    if extra:
        e.update(extra)
    return e


class Proc:
    def __init__(self, family, cases, scratch, name, prepare=None, extra_env=None, driver=None,
                 jvm=None):
        self.cases = cases
        self.dir = os.path.join(scratch, name)
        os.makedirs(os.path.join(self.dir, "cwd"))
        self.out = os.path.join(self.dir, "out.jsonl")
        cpath = os.path.join(self.dir, "cases.jsonl")
        with open(cpath, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        if prepare:
            prepare(os.path.join(self.dir, "cwd"))
        self.err = open(os.path.join(self.dir, "err"), "wb")
        self.p = subprocess.Popen(
            JAVA[:1] + (jvm or ["-XX:TieredStopAtLevel=1"]) + JAVA[1:] + [driver or os.path.join(VERIF, "jy", "driver.py"), family, cpath, self.out],
            cwd=os.path.join(self.dir, "cwd"), env=env(extra_env), stdout=self.err,
            stderr=self.err, stdin=subprocess.DEVNULL, start_new_session=True)
        self.pos = 0
        self.events = []
        self.current = None
        self.last = time.time()
        self.started = time.time()
        self.ended = False
        self.ready = False

    def poll(self):
        if os.path.exists(self.out):
            with open(self.out, "rb") as f:
                f.seek(self.pos)
                data = f.read()
            cut = data.rfind(b"\n") + 1
            if cut:
                self.pos += cut
                self.last = time.time()
                for line in data[:cut].splitlines():
                    ev = json.loads(line.decode("utf-8"))
                    if ev["id"] == "__start__":
                        self.current = ev["case"]
                    elif ev["id"] == "__end__":
                        self.ended = True
                    elif ev["id"] == "__ready__":
                        self.ready = True
                        self.events.append(ev)
                    else:
                        self.current = None
                        self.events.append(ev)
        return self.p.poll()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def errtext(self):
        self.err.flush()
        with open(os.path.join(self.dir, "err"), "rb") as f:
            return f.read()[-3000:].decode("utf-8", "replace")


class Result:
    def __init__(self):
        self.events = {}        # case id -> event
        self.unrun = []         # cases never reached (deadline)
        self.hangs = []         # case ids that gave no answer within the step limit
        self.crashes = []       # (case id or None, stderr)
        self.import_exc = None
        self.procs = 0
        self.wall = 0.0


def scratch_dir():
    return tempfile.mkdtemp(prefix="verif-")


def run(family, cases, shards=7, step=150, deadline=600, prepare=None, extra_env=None,
        driver=None, jvm=None):
    """cases: list of dicts with unique 'id'. Sharded round robin, in order."""
    t0 = time.time()
    res = Result()
    scratch = scratch_dir()
    n = 0
    try:
        groups = [[] for _ in range(shards)]
        k = 0
        for c in cases:
            if c.get("shard") is not None:
                groups[c["shard"] % shards].append(c)
            else:
                groups[k % shards].append(c)
                k += 1
        groups = [g for g in groups if g]
        res.groups = groups
        live = []
        for g in groups:
            live.append(Proc(family, g, scratch, "p%d" % n, prepare, extra_env, driver, jvm))
            n += 1
        restarts = 0
        while live:
            time.sleep(0.05)
            for pr in list(live):
                rc = pr.poll()
                now = time.time()
                over = now - t0 > deadline
                idle = now - pr.last > (step if pr.ready else max(step, 240))
                if rc is None and not over and not idle:
                    continue
                if rc is None:
                    pr.kill()
                    pr.poll()
                live.remove(pr)
                done = set()
                for ev in pr.events:
                    if ev["id"] == "__import__":
                        res.import_exc = ev["exc"]
                    elif ev["id"] != "__ready__":
                        res.events[ev["id"]] = ev
                        done.add(ev["id"])
                pr.err.close()
                if pr.ended or res.import_exc:
                    continue
                rest = [c for c in pr.cases if c["id"] not in done]
                if over:
                    res.unrun += [c["id"] for c in rest]
                    continue
                if rc is None:                       # idle: a case gave no answer
                    if not pr.ready:
                        raise Infra("driver did not start: " + pr_err(pr))
                    res.hangs.append(pr.current)
                else:                                # process died
                    if not pr.ready:
                        raise Infra("driver died at start: " + pr_err(pr))
                    res.crashes.append((pr.current, pr_err(pr)))
                rest = [c for c in rest if c["id"] != pr.current]
                restarts += 1
                if restarts > 12 or len(res.hangs) > 3:
                    res.unrun += [c["id"] for c in rest]
                    continue
                if rest:
                    live.append(Proc(family, rest, scratch, "p%d" % n, prepare, extra_env, driver, jvm))
                    n += 1
        res.procs = n
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res.wall = time.time() - t0
    return res


def pr_err(pr):
    with open(os.path.join(pr.dir, "err"), "rb") as f:
        return f.read()[-3000:].decode("utf-8", "replace")
