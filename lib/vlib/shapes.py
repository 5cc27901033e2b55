"""Programs (struct declarations) from behaviours of the specification."""
import json, os
from . import common, tlc

CFG = """SPECIFICATION Spec
CONSTANTS
 Alphabet <- c_alphabet
 MinLens <- c_min
 MaxLens <- c_max
 UseRefs = %s
 NeedRef = %s
 MaxLeaves = %d
 Names <- c_names
 DeclNames <- c_declnames
 Styles <- c_styles
 Final <- c_last
INVARIANTS Emit %s
CHECK_DEADLOCK FALSE
"""


def seq(xs):
    return "<<" + ", ".join(map(str, xs)) + ">>"


class Gen(tlc.Later):
    """Collects programs and what TLC explored to get them."""
    FILLED = ("programs", "states", "transitions", "families")

    def __init__(self, workdir):
        self.workdir = workdir
        self.programs = []
        self.seen = set()
        self.states = 0
        self.transitions = 0
        self.families = {}

    def family(self, name, alphabet, lo, hi, refs=False, need=False, simulate=0, seed=None, max_leaves=64,
               keep=None, check=None, limit=None, names="{}", declnames="{}", styles="NoStyle", last="{}"):
        check = not simulate if check is None else check
        body = "c_alphabet == %s\nc_min == %s\nc_max == %s\nc_names == %s\nc_declnames == %s\nc_styles == %s\nc_last == %s" % (
            alphabet, seq(lo), seq(hi), names, declnames, styles, last)
        cfg = CFG % (str(refs).upper(), str(need).upper(), max_leaves, "EmittedIsGlsl" if check else "")
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(2 * (sum(hi) + len(hi)) + 2),
                    "-seed", str(common.SEED if seed is None else seed)]
        def done(r):
            if not r.ok:
                raise common.ToolError("TLC failed generating %s:\n%s" % (name, r.out[-3000:]))
            n = 0
            lines = r.lines if simulate else sorted(r.lines, key=lambda p: json.dumps(p, sort_keys=True))
            for p in lines:
                key = json.dumps(p, sort_keys=True)
                if key in self.seen or (keep and not keep(p)):
                    continue
                if limit is not None and n >= limit:
                    break
                self.seen.add(key)
                self.programs.append(p)
                n += 1
            self.families[name] = n
            self.states += r.distinct
            self.transitions += r.generated
        self.later(done, "Gen_" + name.replace(" ", "_"), body, cfg, "GenShapes", os.path.join(self.workdir, "gen"), args)
