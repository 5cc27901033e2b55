"""Sizers on any type list, and offsets beyond 32 bits: sessions decided by TraceWide."""
import copy, json, os
from concurrent.futures import ThreadPoolExecutor
from . import cargo, codec, codegen, common, tlc
from .common import say

MEG = 1 << 20


def pair(n):
    return [n // MEG, n % MEG]


class Entry:
    def __init__(self, rust, term, lays=("std140", "std430")):
        self.rust, self.term, self.lays = rust, term, lays


def huge(words, align):
    return Entry("rt::User<%d, %d>" % (words, align), {"k": "huge", "size": pair(4 * words), "align": align})


def sizer_source(entries):
    s = ""
    for lay, n in (("std140", "140"), ("std430", "430")):
        s += "rt::sizer_sessions!(sizer%s, %s, \"%s\", [\n" % (n, lay, lay)
        s += "".join("    %d = %s,\n" % (i, e.rust) for i, e in enumerate(entries) if lay in e.lays) + "]);\n"
    return s


def scripts(out, name, lay, ids, lo, hi, simulate=0, limit=None):
    """Type lists from GenBuffer."""
    from . import buffers
    sc = buffers.Scripts(out)
    sc.family(name, lay, ids, "Writes(t)", lo, hi, sizer=True, simulate=simulate, limit=limit)
    res = []
    for x in sc.lines:
        res.append(lay + " " + " ".join(op.split()[1] for op in x.split(";")[1:]))
    out.notes.setdefault("sizer_scripts", {})["%s %s" % (name, lay)] = len(res)
    return res


def run_sizers(exe, scripts_):
    parts = [scripts_[k::8] for k in range(8)]
    with ThreadPoolExecutor(8) as ex:
        ps = list(ex.map(lambda p: cargo.run(exe, stdin="\n".join(p) + "\n" if p else ""), parts))
    lines = []
    for p in ps:
        if "harness" in p.stderr or p.returncode != 0:
            raise common.ToolError("the sizer program failed: " + p.stderr[-2000:])
        lines += [json.loads(x) for x in p.stdout.splitlines() if x.endswith("]}")]
    return lines


RULES = {"sizer offset": ("add", "off"), "sizer length": ("add", "len"), "far offset": ("put", "ret"), "far place": ("put", "first"),
         "far bytes": ("put", "held"), "far length": ("put", "len")}


def corrupt(s, rule):
    kind, key = RULES[rule]
    for i, e in enumerate(s["ev"]):
        if e["e"] == kind and (i > 0 or len(s["ev"]) == 1):
            s = copy.deepcopy(s)
            s["ev"][i][key][0] += 1
            return s
    return None


def judge(out, entries, sessions, name="wide_judge", note=""):
    if not sessions:
        raise common.ToolError("no sizer sessions")
    d = os.path.join(out.workdir, name)
    os.makedirs(d, exist_ok=True)
    planted = []
    for rule in RULES:
        for s in sessions[-3:] + sessions[:3]:
            c = corrupt(s, rule)
            if c:
                planted.append(c)
                break
    every = sessions + planted
    with open(os.path.join(d, "types.ndjson"), "w") as f:
        f.write("".join(json.dumps({"t": e.term}) + "\n" for e in entries))
    with open(os.path.join(d, "trace.ndjson"), "w") as f:
        f.write("".join(json.dumps({"lay": s["lay"], "ev": s["ev"]}) + "\n" for s in every))
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n TypesFile = "types.ndjson"\n TraceFile = "trace.ndjson"\n Checked <- c_checked\nCHECK_DEADLOCK FALSE\n'
    r = tlc.run("WideRun", 'c_checked == {%s, "fails", "panic"}' % ", ".join('"%s"' % x for x in RULES), cfg, "TraceWide", d)
    if not r.ok:
        raise common.ToolError("TLC failed on the sizer sessions:\n" + r.out[-3000:])
    if r.distinct != sum(len(s["ev"]) + 1 for s in every):
        raise common.ToolError("TLC read %d steps" % r.distinct)
    out.add_states(r)
    out.cov["traces_validated_against_impl"] += len(sessions)
    missed = set(range(len(sessions), len(every)))
    real = 0
    for x in r.lines:
        i = x["s"] - 1
        if i >= len(sessions):
            missed.discard(i)
            continue
        real += 1
        s = sessions[i]
        types = [entries[e["ty"]].rust for e in s["ev"][:x["l"]] if "ty" in e]
        out.violation({"kind": "trace", "rules": x["faults"], "layout": s["lay"], "types": types, "step": x["l"], "event": s["ev"][x["l"] - 1],
                       "text": "%s%s of %s breaks %s at step %d (from %s): %s" % (note, s["lay"], ", ".join(types)[:300], x["faults"], x["l"], x["at"], json.dumps(s["ev"][x["l"] - 1]))})
    if missed and not real:
        raise common.ToolError("planted sizer faults were not rejected")
    out.notes["planted_faults_rejected"] = out.notes.get("planted_faults_rejected", 0) + len(planted) - len(missed)
    say("judged", name, "sessions", len(sessions), "rejects", real)


# Far offsets: these types bring a sizer, or a writer over a counting output, past 2^32.
def far_entries():
    c = lambda n: {"k": "scalar", "c": n}
    v = lambda n, k: {"k": "vec", "c": n, "n": k}
    return [Entry("f32", c("float")), Entry("mint::Vector3<f32>", v("float", 3)), Entry("f64", c("double")),
            Entry("mint::ColumnMatrix3<f32>", {"k": "mat", "c": "float", "n": 3}),
            Entry("rt::User<16384, 4>", {"k": "custom", "size": 65536, "align": 4}), Entry("rt::User<7, 128>", {"k": "custom", "size": 28, "align": 128}),
            Entry("rt::User<1, 65536>", {"k": "custom", "size": 4, "align": 65536}), Entry("rt::User<3, 1048576>", {"k": "custom", "size": 12, "align": MEG}),
            huge((1 << 28) - 3, 4), huge(1 << 29, 16), huge((1 << 30) + 1, 4), huge((1 << 33) + 7, 256)] + [
            Entry("crevice::std140::DynamicUniform<%s>" % r, {"k": "dyn", "t": t}, ["std140"]) for r, t in (
                ("f32", c("float")), ("rt::User<1, 65536>", {"k": "custom", "size": 4, "align": 65536}),
                ("rt::User<3, 1048576>", {"k": "custom", "size": 12, "align": MEG}))]


FAR_WRITES = [
    [(0, 1), (4, 65530), (1, 1), (4, 9), (0, 1), (1, 1), (2, 1), (5, 1), (3, 3), (0, 2)],
    [(5, 2), (4, 32767), (6, 1), (4, 32770), (6, 2), (1, 2), (7, 1), (0, 1)],
]


def far(out, thorough, writer=True, sizer=True):
    """Offsets past 2^31 and 2^32."""
    es = far_entries()
    text = "#![allow(warnings)]\n" + sizer_source(es)
    text += "fn main() {\n    let mut log = rt::Log::new();\n    rt::wide::run_sizer_scripts(&mut log, sizer140, sizer430);\n}\n"
    files = {"sizer.rs": text}
    for k, plan in enumerate(FAR_WRITES):
        for lay in ("std140", "std430"):
            body = "".join("        %d = %s, %d;\n" % (t, es[t].rust, n) for t, n in plan)
            files["far%d_%s.rs" % (k, lay)] = ("#![allow(warnings)]\nfn main() {\n    rt::hush();\n    rt::QUIET.with(|q| q.set(true));\n    let mut log = rt::Log::new();\n    rt::far_session!(&mut log, %s, \"%s\", %d, [\n%s    ]);\n}\n"
                                              % (lay, lay, k, body))
    d = os.path.join(out.workdir, "far")
    codegen.crate(d, "gen", files)
    try:
        bindir = cargo.build(d, os.path.join(common.BUILD, "target-std"), release=True)
    except (cargo.BuildError, cargo.BuildTimeout) as e:
        raise common.ToolError("the far-offset programs do not build:\n" + str(e)[-4000:])
    ss = []
    if sizer:
        for lay in ("std140", "std430"):
            ss += run_sizers(os.path.join(bindir, "sizer"), scripts(out, "farpairs", lay, [i for i, e in enumerate(es) if lay in e.lays], 2, 2)
                             + scripts(out, "far", lay, [i for i, e in enumerate(es) if lay in e.lays], 3, 10, simulate=600 if thorough else 100))
    if writer:
        names = [f[:-3] for f in files if f != "sizer.rs"]
        with ThreadPoolExecutor(4) as ex:
            for n, p in zip(names, ex.map(lambda n: cargo.run(os.path.join(bindir, n)), names)):
                if "harness" in p.stderr:
                    raise common.ToolError("the harness failed: " + p.stderr[-2000:])
                if p.returncode != 0:
                    out.violation({"kind": "crash", "rules": ["panic"], "text": "writing past 4 GiB (%s) ended with status %d: %s" % (n, p.returncode, p.stderr[-400:])})
                ss += [json.loads(x) for x in p.stdout.splitlines() if x.endswith("]}")]
        if len([s for s in ss if s["ev"][0]["e"] == "put"]) != len(names) and not out.violations:
            raise common.ToolError("far writer sessions are missing")
    out.notes["far_sessions"] = len(ss)
    judge(out, es, ss, name="far_judge")
