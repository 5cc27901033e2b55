"""Running TLC: configurations are written next to a wrapper module in a scratch
directory that sees /verif/spec."""
import itertools, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import common

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.lines = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                try:
                    self.lines.append(json.loads(json.loads(line)[2:]))
                except ValueError:
                    pass
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            self.generated = self.distinct = int(m[-1]) if m else 0

    @property
    def ok(self):
        return self.rc == 0


def run(name, wrapper_body, cfg, extends, workdir, args=(), timeout=600, env=None, heap="6g", workers=None):
    """Runs TLC on a module `name` that EXTENDS `extends` and has `wrapper_body`."""
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(common.SPEC):
        if f.endswith(".tla"):
            copy = os.path.join(workdir, "%s.%s.tmp" % (f, name))     # others may be reading it
            shutil.copy(os.path.join(common.SPEC, f), copy)
            os.replace(copy, os.path.join(workdir, f))
    with open(os.path.join(workdir, name + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (name, extends, wrapper_body))
    with open(os.path.join(workdir, name + ".cfg"), "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or common.CORES), "-config", name + ".cfg"]
    cmd += list(args) + [name + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=e)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(workdir, name + ".out"), "w") as f:
        f.write(out)
    return TlcResult(rc, out)


POOL = ThreadPoolExecutor(5)
COUNT = itertools.count()


class Later:
    """Something TLC fills: runs are queued, several at a time, and their results taken in the order they
    were queued in as soon as one of the fields named in `FILLED` is looked at."""
    FILLED = ()

    def later(self, done, name, body, cfg, extends, workdir, simulate):
        d = os.path.join(workdir, "%s_%d" % (name, next(COUNT)))
        self.__dict__.setdefault("pending", []).append(
            (POOL.submit(run, name, body, cfg, extends, d, args=simulate or (), heap="4g", workers=1 if simulate else 4), done))

    def __getattribute__(self, a):
        if a in object.__getattribute__(self, "FILLED"):
            state = object.__getattribute__(self, "__dict__")
            if state.get("pending") and not state.get("filling"):
                state["filling"] = True
                try:
                    while state["pending"]:
                        future, done = state["pending"].pop(0)
                        done(future.result())
                finally:
                    state["filling"] = False
        return object.__getattribute__(self, a)
