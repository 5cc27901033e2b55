"""Inductive invariants of the Unbounded* modules, by Apalache, while a check does other things."""
import atexit, os, shutil, signal, subprocess, time
from . import common
from .common import say

# name -> module, [(arguments, should it hold)]
PROOFS = {
    "UnboundedDeclare": [
        ("--init=Init --inv=Inv --length=0", True),
        ("--init=InductiveInit --inv=Inv --length=1", True),
        ("--init=InductiveInit --inv=ClosedIsGlsl --length=0", True),
        ("--init=InductiveInit --inv=FieldAgain --length=0", True),
        ("--init=InductiveInit --inv=NoImplicitPadding --length=0", True),
        ("--init=InductiveInit --inv=NeverClosed --length=0", False),
    ],
    "UnboundedBuffer": [
        ("--init=Init --inv=Inv --length=0", True),
        ("--init=InductiveInit --inv=Inv --length=1", True),
        ("--init=InductiveInit --inv=Consequences --length=0", True),
        ("--init=InductiveInit --inv=Inv --length=1 --next=NextLate", False),
    ],
}


class Proof:
    """Two processes at a time, so that the rest of the check is not starved.  Nothing here depends on the code:
    a solver that does not answer in time is noted, an answer other than the expected one is a tool failure."""

    def __init__(self, out, module, patience=60):
        self.out, self.module, self.patience = out, module, patience
        self.dir = os.path.join(out.workdir, "apa_" + module)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        shutil.copy(os.path.join(common.SPEC, module + ".tla"), self.dir)
        self.jobs = []
        atexit.register(self.stop)
        cinit = "Many" if common.TIER == "thorough" else "Few"
        lanes = [[], []]
        for i, (args, _) in enumerate(PROOFS[module]):
            lanes[i % 2].append("timeout -k 5 %d nice -n 5 apalache-mc check --cinit=%s %s --out-dir=out%d %s.tla > log%d 2>&1"
                                % (3000 if common.TIER == "thorough" else 400, cinit, args, i, module, i))
        env = dict(os.environ, JVM_ARGS="-Xmx2g")
        for lane in lanes:
            self.jobs.append(subprocess.Popen("; ".join(lane), shell=True, cwd=self.dir, env=env, start_new_session=True,
                                              stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))

    def stop(self):
        for j in self.jobs:
            try:
                os.killpg(j.pid, signal.SIGKILL)
            except OSError:
                pass
            j.wait()
        self.jobs = []

    def finish(self):
        end = time.time() + self.patience * (20 if common.TIER == "thorough" else 1)
        for j in self.jobs:
            try:
                j.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                pass
        self.stop()
        proved, open_ = 0, []
        for i, (args, holds) in enumerate(PROOFS[self.module]):
            try:
                text = open(os.path.join(self.dir, "log%d" % i)).read()
            except OSError:
                text = ""
            if "The outcome is: NoError" in text:
                answer = True
            elif "The outcome is: Error" in text:
                answer = False
            else:
                open_.append(args)
                continue
            if answer != holds:
                raise common.ToolError("%s %s: unexpected outcome\n%s" % (self.module, args, text[-3000:]))
            proved += 1
        self.out.notes.setdefault("unbounded", {})[self.module] = {"decided": proved, "undecided": open_}
        say("model", self.module, "inductive:", proved, "decided", len(open_), "undecided")
