"""Long sequences of values: scripts from GenBulk run on the real writers and sizers, decided by TraceWide."""
import copy, json, os, random
from concurrent.futures import ThreadPoolExecutor
from . import cargo, codegen, common, tlc, wide
from .common import say

WORKERS = 8
EACH_RULES = ["each fails", "each bytes", "each places", "each returns", "bulk length"]
SEQ_RULES = ["seq fails", "seq bytes", "seq places", "seq returns"]
SIZE_RULES = ["bulk sizer", "bulk size"]
COUNTS = (0, 1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025)


class Scripts(tlc.Later):
    FILLED = ("lines", "families")

    def __init__(self, out):
        self.out = out
        self.lines = []
        self.seen = set()
        self.families = {}

    def family(self, name, lay, types, kinds, counts, lo=1, hi=1, prefixes=(0,), pieces=(0,), repeats=(1,), simulate=0, limit=None):
        st = lambda xs: ", ".join(json.dumps(x) for x in xs)
        body = "c_types == {%s}\nc_kinds == {%s}\nc_counts == {%s}\nc_pre == {%s}\nc_pieces == {%s}\nc_repeats == {%s}" % tuple(
            st(x) for x in (types, kinds, counts, prefixes, pieces, repeats))
        cfg = """SPECIFICATION Spec
CONSTANTS
 Types <- c_types
 Lay = "%s"
 Kinds <- c_kinds
 Counts <- c_counts
 Prefixes <- c_pre
 Pieces <- c_pieces
 Repeats <- c_repeats
 MinOps = %d
 MaxOps = %d
INVARIANT Emit
CHECK_DEADLOCK FALSE
""" % (lay, lo, hi)
        args = ["-simulate", "num=%d" % simulate, "-depth", str(hi + max(prefixes) + 4), "-seed", str(common.SEED)] if simulate else []
        def done(r):
            if not r.ok:
                raise common.ToolError("TLC failed generating scripts:\n" + r.out[-3000:])
            lines = [x["x"] for x in r.lines]
            if not simulate:
                lines.sort()
            if limit is not None and len(lines) > limit:
                lines = sorted(random.Random(common.SEED).sample(lines, limit))
            new = [x for x in dict.fromkeys(lines) if x not in self.seen]
            self.seen.update(new)
            self.lines += new
            self.families[name + " " + lay] = len(new)
            self.out.add_states(r)
        self.later(done, "Blk_%s_%s" % (name, lay), body, cfg, "GenBulk", os.path.join(self.out.workdir, "scripts"), args)


def sources(v):
    text = codegen.PRELUDE
    for i, p in enumerate(v.programs):
        text += codegen.program_module("p%d" % i, p)
    for lay, n, extra in (("std140", "140", "write_slice"), ("std430", "430", "write")):
        text += ("rt::bulk_sessions!(bulk%s, %s, \"%s\", AsStd%s, Std%s, WriteStd%s, as_%s, write_%s, %s_size, %s_size_static, %s, [\n"
                 % (n, lay, lay, n, n, n, lay, lay, lay, lay, extra))
        text += "".join("    %d = %s,\n" % (i, v.entries[i][0]) for i in v.ids(lay)) + "]);\n"
    text += "fn main() {\n    let mut log = rt::Log::new();\n    rt::bulk::run_scripts(&mut log, bulk140::run, bulk430::run);\n}\n"
    return text


def record(out, v, lines, math=False, name="bulk"):
    d = os.path.join(out.workdir, name)
    codegen.crate(d, "gen", {"b.rs": sources(v)}, math=math)
    try:
        target = os.path.join(common.BUILD, "target-std" + ("-math" if math else ""))
        bindir = cargo.build(d, target)
    except cargo.BuildTimeout as e:
        raise common.ToolError(str(e))
    except cargo.BuildError as e:
        blamed = [x for x in e.errors if any(f == "src/bin/b.rs" for f, _, _ in x[1])]
        if not blamed:
            raise common.ToolError("the build failed outside the generated programs:\n" + e.text[-6000:])
        out.violation({"kind": "rejected", "rules": ["compile"], "error": blamed[0][2][:3000],
                       "text": "rustc rejects writing supported types: " + blamed[0][0][:300]})
        return []
    twin = cargo.Twin(out, d, target)
    ss = replay(out, lines, bindir)
    say("recorded", len(ss), "long sessions,", sum(e["n"] for s in ss for e in s["ev"]), "values")
    return ss + twin.differing(ss, lambda bindir: replay(out, lines, bindir))


def replay(out, lines, bindir):
    order = list(range(len(lines)))
    random.Random(5).shuffle(order)
    parts = [order[k::WORKERS] for k in range(WORKERS)]
    with ThreadPoolExecutor(WORKERS) as ex:
        ps = list(ex.map(lambda p: cargo.run(os.path.join(bindir, "b"), stdin="".join("%d %s\n" % (i, lines[i]) for i in p)), parts))
    ss = []
    for p in ps:
        if "harness" in p.stderr:
            raise common.ToolError("the harness failed: " + p.stderr[-2000:])
        if p.returncode != 0:
            out.violation({"kind": "crash", "rules": ["panic"], "text": "a long session ended with status %d: %s" % (p.returncode, p.stderr[-600:])})
        ss += [json.loads(x) for x in p.stdout.splitlines() if x.endswith("]}")]
    ss.sort(key=lambda s: s["no"])
    return ss


def corrupt(s, rule):
    for i, e in enumerate(s["ev"][:40]):
        seq = e["k"] in ("slice", "old", "iter", "vague")
        if rule.startswith("seq ") and not seq or rule.startswith("each ") and seq or e["n"] < 2 or not e["ok"]:
            continue
        c = copy.deepcopy(s)
        c["ev"] = c["ev"][:i + 1]
        e = c["ev"][i]
        what = rule.split(" ")[1] if " " in rule else rule
        if what == "fails":
            e["ok"] = False
        elif what == "bytes":
            e["bad"] = e["n"] - 1
        elif what == "places":
            e["runs"][0][1][1] += 4
        elif what == "returns":
            e["rets"][-1][0][1] += 1
        elif what == "length":
            e["len"][1] += 1
        elif what == "item":
            e["al"] *= 2
        elif what == "sizer" and e["sizer"]:
            e["sized"][0][1][1] += 4
        elif what == "size" and e["asked"]:
            e["query"][1] += 4
        elif what == "array" and e["k"] == "slice":
            e["runs"][0][1][1] += 4
        else:
            continue
        return c
    return None


def judge(out, v, sessions, rules, lines, name="bulk_judge"):
    d = os.path.join(out.workdir, name)
    os.makedirs(d, exist_ok=True)
    planted = []
    for rule in rules:
        for s in sessions:
            c = corrupt(s, rule)
            if c:
                planted.append((rule, c))
                break
        else:
            raise common.ToolError("no session can be spoilt to break " + rule)
    every = sessions + [c for _, c in planted]
    with open(os.path.join(d, "types.ndjson"), "w") as f:
        f.write("".join(json.dumps({"t": e[1]}) + "\n" for e in v.entries))
    with open(os.path.join(d, "trace.ndjson"), "w") as f:
        f.write("".join(json.dumps({"lay": s["lay"], "ev": s["ev"]}) + "\n" for s in every))
    checked = list(rules) + (["packed"] if "bulk array" in rules else [])
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n TypesFile = "types.ndjson"\n TraceFile = "trace.ndjson"\n Checked <- c_checked\nCHECK_DEADLOCK FALSE\n'
    r = tlc.run("BulkRun", 'c_checked == {%s}' % ", ".join('"%s"' % x for x in checked), cfg, "TraceWide", d)
    if not r.ok:
        raise common.ToolError("TLC failed on the long sessions:\n" + r.out[-3000:])
    if r.distinct != sum(len(s["ev"]) + 1 for s in every):
        raise common.ToolError("TLC read %d steps" % r.distinct)
    out.add_states(r)
    out.cov["traces_validated_against_impl"] += len(sessions)
    missed = set(range(len(sessions), len(every)))
    packed, real = set(), 0
    for x in r.lines:
        if "faults" not in x:
            continue
        i = x["s"] - 1
        if i >= len(sessions):
            if planted[i - len(sessions)][0] in x["faults"]:
                missed.discard(i)
            continue
        if x["faults"] == ["packed"]:
            packed.add((x["lay"], x["ty"]))
            continue
        real += 1
        s = sessions[i]
        e = s["ev"][x["l"] - 1]
        out.violation({"kind": "trace", "rules": x["faults"], "layout": s["lay"], "script": lines[s["no"]], "step": x["l"], "event": e,
                       "text": "long session `%s`: operation %d (%s of %d %s from %s) breaks %s: %s" % (
                           lines[s["no"]][:200], x["l"], e["k"], e["n"], v.entries[e["ty"]][3][:100], x["at"], sorted(x["faults"]), json.dumps(e)[:300])})
    if missed and not real:
        raise common.ToolError("planted faults in long sessions were not rejected: %s" % [planted[i - len(sessions)][0] for i in sorted(missed)])
    out.notes["planted_faults_rejected"] = out.notes.get("planted_faults_rejected", 0) + len(planted) - len(missed)
    out.notes.setdefault("long_sessions", {})[name] = {"sessions": len(sessions), "operations": sum(len(s["ev"]) for s in sessions),
                                                       "values": sum(e["n"] for s in sessions for e in s["ev"]), "longest": max(e["n"] for s in sessions for e in s["ev"])}
    say("judged", name, "sessions", len(sessions), "rejects", real)
    return packed


def sweep(out, v, rules, kinds, thorough, sizes=True, lays=("std140", "std430")):
    """The usual families, for operations of the given kinds."""
    sc = Scripts(out)
    k = 6 if thorough else 1
    for lay in lays:
        t = v.ids(lay)
        few = sorted(random.Random(common.SEED * 77 + len(lay)).sample(t, min(6, len(t))))
        sc.family("counts", lay, t, kinds, COUNTS, limit=500 * k)
        sc.family("late", lay, t, kinds, COUNTS, prefixes=(1, 2, 3), pieces=(0, 1, 7, 4096), lo=1, hi=3, simulate=250 * k)
        sc.family("repeated", lay, t, kinds, (1, 1, 2, 3), lo=2, hi=5, repeats=(70, 300, 1100), prefixes=(0, 1), simulate=12 * k)
        sc.family("huge", lay, few, kinds, (4097, 20000, 70000), prefixes=(0, 1), lo=1, hi=1, simulate=10 * k)
        # of two types, all kinds of operation on more values than 16 bits can count
        sc.family("most", lay, few[::4], kinds, (70000, 140000), prefixes=(0,))
    out.notes.setdefault("long_scripts", {}).update(sc.families)
    ss = record(out, v, sc.lines)
    if not ss and not out.violations:
        raise common.ToolError("no long sessions")
    return judge(out, v, ss, rules, sc.lines) if ss else set()
