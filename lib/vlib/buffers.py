"""Writer, sizer and size-query sessions: scripts from GenBuffer run on the real code,
recorded and validated against Buffer."""
import copy, json, os, random
from concurrent.futures import ThreadPoolExecutor
from . import bulk, cargo, codegen, codec, common, report, tlc
from .common import say

SHARDS = 8
HUGE = 1000000000


class Vocabulary:
    """Types to write, by index; some exist in one layout only."""

    def __init__(self, entries, programs):
        self.entries = entries      # (rust, term, lays, label)
        self.programs = programs

    def ids(self, lay, pred=lambda e: True):
        return [i for i, e in enumerate(self.entries) if lay in e[2] and pred(e)]


def vocabulary(hosts, programs, pick):
    es = [(h["h"], h["t"], h["lays"], h["g"] or h["h"]) for h in hosts if pick(h)]
    for i, p in enumerate(programs):
        d = p["decls"][-1]
        es.append(("p%d::%s" % (i, codegen.ident(d["name"])), d["t"], ["std140", "std430"], codec.render(p)))
    return Vocabulary(es, programs)


def sources(v):
    text = codegen.PRELUDE
    for i, p in enumerate(v.programs):
        text += codegen.program_module("p%d" % i, p)
    for lay, n, extra in (("std140", "140", "write_slice"), ("std430", "430", "write")):
        ids = v.ids(lay)
        text += ("rt::writer_sessions!(run%s, %s, \"%s\", AsStd%s, Std%s, WriteStd%s, as_%s, write_%s, %s_size, %s_size_static, %s, [\n"
                 % (n, lay, lay, n, n, n, lay, lay, lay, lay, extra))
        text += "".join("    V%d: %d = %s,\n" % (i, i, v.entries[i][0]) for i in ids) + "]);\n"
    text += "fn main() {\n    let mut log = rt::Log::new();\n    rt::writer::run_scripts(&mut log, run140::run, run430::run);\n}\n"
    return text


class Scripts(tlc.Later):
    FILLED = ("lines", "families")

    def __init__(self, out):
        self.out = out
        self.lines = []
        self.seen = set()
        self.families = {}

    def family(self, name, lay, types, ops, lo, hi, kinds=(), max_faults=0, max_gap=0, caps=(HUGE,), sizer=False,
               simulate=0, limit=None):
        body = "c_types == {%s}\nc_caps == {%s}\nc_kinds == {%s}\nc_ops(t) == %s" % (
            ", ".join(map(str, types)), ", ".join(map(str, caps)), ", ".join('"%s"' % k for k in kinds), ops)
        cfg = """SPECIFICATION Spec
CONSTANTS
 Types <- c_types
 Lay = "%s"
 OpSet <- c_ops
 MinOps = %d
 MaxOps = %d
 Kinds <- c_kinds
 MaxFaults = %d
 MaxGap = %d
 Caps <- c_caps
 Sizer = %s
INVARIANT Emit
CHECK_DEADLOCK FALSE
""" % (lay, lo, hi, max_faults, max_gap, str(sizer).upper())
        args = ["-simulate", "num=%d" % simulate, "-depth", str(hi + max_faults + 4), "-seed", str(common.SEED)] if simulate else []
        def done(r):
            if not r.ok:
                raise common.ToolError("TLC failed generating scripts:\n" + r.out[-3000:])
            lines = [x["x"] for x in r.lines]
            if not simulate:
                lines.sort()
            if limit is not None and len(lines) > limit:
                # a seeded sample, not the first ones: those are all of one kind
                lines = sorted(random.Random(common.SEED).sample(lines, limit))
            n = 0
            for x in lines:
                if x not in self.seen and (limit is None or n < limit):
                    self.seen.add(x)
                    self.lines.append(x)
                    n += 1
            self.families[name + " " + lay] = n
            self.out.cov["states"] += r.distinct
            self.out.cov["transitions"] += r.generated
        self.later(done, "Scr_%s_%s" % (name, lay), body, cfg, "GenBuffer", os.path.join(self.out.workdir, "scripts"), args)


def record(out, v, scripts, math=False, release=False, name="writer"):
    d = os.path.join(out.workdir, name)
    target = os.path.join(common.BUILD, "target-std" + ("-math" if math else ""))
    codegen.crate(d, "gen", {"w.rs": sources(v)}, math=math)
    try:
        bindir = cargo.build(d, target, release=release)
    except cargo.BuildTimeout as e:
        raise common.ToolError(str(e))
    except cargo.BuildError as e:
        blamed = [x for x in e.errors if any(f == "src/bin/w.rs" for f, _, _ in x[1])]
        if not blamed:
            raise common.ToolError("the build failed outside the generated programs:\n" + e.text[-6000:])
        out.violation({"kind": "rejected", "rules": ["compile"], "error": blamed[0][2][:3000],
                       "text": "rustc rejects writing supported types: " + blamed[0][0][:300]})
        return []
    twin = cargo.Twin(out, d, target) if not release else None
    say("built", name)
    lines = replay(out, scripts, bindir)
    say("recorded", len(lines), "sessions")
    return lines + (twin.differing(lines, lambda bindir: replay(out, scripts, bindir)) if twin else [])


def replay(out, scripts, bindir):
    parts = [scripts[k::SHARDS] for k in range(SHARDS)]
    env = {"VERIF_SEED": common.SEED}
    with ThreadPoolExecutor(SHARDS) as ex:
        ps = list(ex.map(lambda p: cargo.run(os.path.join(bindir, "w"), stdin="\n".join(p) + "\n" if p else "", env=env), parts))
    lines = []
    for k, p in enumerate(ps):
        if "harness" in p.stderr:
            raise common.ToolError("the harness failed: " + p.stderr[-2000:])
        if p.returncode != 0:
            out.violation({"kind": "crash", "rules": ["panic"], "text": "a recording program ended with status %d: %s"
                           % (p.returncode, p.stderr[-600:])})
        for x in p.stdout.splitlines():
            if x.endswith("]}"):
                s = json.loads(x)
                s["no"] = s["no"] * SHARDS + k      # index into scripts
                lines.append(s)
    return lines


def corrupt(s, rule):
    s = copy.deepcopy(s)
    base = rule.replace("seq ", "").replace("faulty ", "")
    for i, e in enumerate(s["ev"]):
        if e["e"] == "drop":
            continue
        if e["e"] == "query":
            if rule == "size":
                e["q"] += 4
                return s
            if rule == "static size" and e["static"] >= 0:
                e["static"] += 4
                return s
            if rule == "sizer length" and e["sizer"]:
                e["slen"] += 4
                return s
            continue
        calls = [c[1] for c in e["calls"]]
        err = any(c in (0, -2) for c in calls)
        part = any(0 < c[1] < c[0] for c in e["calls"])
        intr = -1 in calls
        if rule.startswith("seq ") and e["k"] not in ("slice", "iter", "multislice", "multiiter", "mixed", "paniciter"):
            if err and part:
                return None
            continue
        if rule.startswith("faulty ") and not (err or part or intr):
            continue
        if err and part:
            return None
        if base == "bytes" and not err and e["app"]:
            e["app"].append(0)
            e["len"] += 1
            return s
        if base == "offset" and e["ret"] >= 0 and not err:
            e["ret"] += 1
            return s
        if base == "len":
            e["len"] += 1
            return s
        if base == "fails" and e["ret"] >= 0 and not err:
            e["ret"] = -1
            return s
        if base == "error lost" and err:
            e["ret"] = e["len"]
            return s
        if base == "prefix" and err and e["app"]:
            e["app"][0] ^= 0x55
            return s
        if base == "goes on" and err:
            e["calls"].append([1, 1, 1])
            e["app"].append(0)
            e["len"] += 1
            return s
        if base == "item" and e["items"]:
            e["items"][0]["al"] *= 2
            return s
        if base in ("sizer offset", "sizer offsets") and e["sizer"] and e["sized"]:
            e["sized"][0] += 1
            return s
        if base == "sizer length" and e["sizer"]:
            e["slen"] += 1
            return s
        if base == "pad" and e["app"] and e["items"] and 0 in e["app"]:
            e["app"][e["app"].index(0)] = 7
            return s
        if base == "panic" and e["k"] != "paniciter":
            e["ret"] = -2
            return s
        if base == "array" and e["array"] and len(e["items"]) > 1 and e["ret"] >= 0 and not err:
            e["ret"] += 1
            return s
        if e["ret"] < 0:
            return None
    return None


def judge(out, v, sessions, rules, scripts, name="wjudge", controls=True, per_file=5000):
    d = os.path.join(out.workdir, name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "types.ndjson"), "w") as f:
        for e in v.entries:
            f.write(json.dumps({"t": e[1]}) + "\n")
    packed = set()
    seqs = 0
    for start in range(0, max(1, len(sessions)), per_file):
        chunk = sessions[start:start + per_file]
        if not chunk:
            continue
        planted = []
        if controls:
            for rule in rules:
                n = 0
                for x in chunk[::max(1, len(chunk) // 60)] + chunk:
                    c = corrupt(x, rule)
                    if c is not None:
                        planted.append((rule, c))
                        n += 1
                        if n == 2:
                            break
                if rule.endswith("bytes"):
                    c = copy.deepcopy(chunk[0])
                    c["ev"] = [dict(c["ev"][-1], app=[0])]
                    planted.append((rule, c))
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            for s in chunk + [p[1] for p in planted]:
                f.write(json.dumps(s) + "\n")
        cfg = 'SPECIFICATION Spec\nCONSTANTS\n TypesFile = "types.ndjson"\n TraceFile = "trace.ndjson"\n Checked <- c_checked\nCHECK_DEADLOCK FALSE\n'
        body = "c_checked == {%s}" % ", ".join('"%s"' % r for r in list(rules) + (["packed"] if "array" in rules else []))
        r = tlc.run("TraceRun", body, cfg, "TraceBuffer", d, timeout=800)
        if not r.ok:
            raise common.ToolError("TLC failed on the recorded sessions:\n" + r.out[-4000:])
        steps = sum(len(s["ev"]) + 1 for s in chunk + [p[1] for p in planted])
        if r.distinct != steps:
            raise common.ToolError("TLC read %d of %d steps of the recorded sessions" % (r.distinct, steps))
        out.add_states(r)
        out.cov["traces_validated_against_impl"] += len(chunk)
        missed = set(range(len(chunk), len(chunk) + len(planted)))
        bad = False
        for x in r.lines:
            if "faults" not in x:
                continue
            i = x["s"] - 1
            if i >= len(chunk):
                missed.discard(i)
                continue
            if x["faults"] == ["packed"]:
                packed.add((x["lay"], x["ty"]))
                continue
            bad = True
            s = chunk[i]
            e = s["ev"][x["l"] - 1]
            what = v.entries[x["ty"]][3] if x["ty"] >= 0 else "nothing"
            brief = {k: e[k] for k in e if k not in ("items",)}
            out.violation({"kind": "trace", "rules": sorted(x["faults"]), "layout": x["lay"], "script": scripts[s["no"]],
                           "step": x["l"], "at": x["at"], "event": e, "first_type": what,
                           "text": "script `%s`: call %d (%s of %s at %d) breaks %s: %s" % (
                               scripts[s["no"]][:200], x["l"], x["k"], what[:120], x["at"], sorted(x["faults"]), json.dumps(brief)[:300])})
        if missed and not bad:
            raise common.ToolError("planted faults were not rejected: %s" % [
                (planted[i - len(chunk)][0], json.dumps(planted[i - len(chunk)][1])[:500]) for i in sorted(missed)][:2])
        out.notes["planted_faults_rejected"] = out.notes.get("planted_faults_rejected", 0) + len(planted) - len(missed)
        out.notes["planted_rules"] = sorted({p[0] for p in planted} | set(out.notes.get("planted_rules", [])))
        out.notes["events"] = out.notes.get("events", 0) + sum(len(s["ev"]) for s in chunk)
    kinds = out.notes.setdefault("calls_by_kind", {})
    outcomes = out.notes.setdefault("output_answers", {"short": 0, "interrupted": 0, "failed": 0, "nothing": 0})
    for s in sessions:
        for e in s["ev"]:
            k = e.get("k", e["e"])
            kinds[k] = kinds.get(k, 0) + 1
            for c in e.get("calls", []):
                if c[1] == -1:
                    outcomes["interrupted"] += 1
                elif c[1] == -2:
                    outcomes["failed"] += 1
                elif c[1] == 0:
                    outcomes["nothing"] += 1
                elif c[1] < c[0]:
                    outcomes["short"] += 1
    say("judged", name, "violations so far", len(out.violations))
    return packed


OWN_OK = lambda h: h["lib"] in ("core", "mint") and "Point" not in h["h"] or h["h"] in (
    "User<0, 16>", "User<0, 256>", "User<1, 64>", "User<3, 256>", "User<3, 4>", "User<5, 16>", "User<2, 512>", "Colour",
    "crevice::std140::Vec3", "crevice::std140::DMat2", "crevice::std430::Mat3", "crevice::std430::IVec2", "crevice::std140::Bool")


def standard(out, hosts, g, dyn=False):
    """The usual vocabulary: every GLSL numeric type, some own and user types, some structs."""
    g.family("vocab", "AllMembers", [1, 2], [3, 5], refs=True, need=True, simulate=14, max_leaves=40, limit=10)
    g.family("vocab1", "Few", [1], [1])
    v = vocabulary(hosts, g.programs, lambda h: OWN_OK(h) or (dyn and h["h"] in DYN))
    v.entries.append(("Marker", {"k": "scalar", "c": "uint"}, ["std140", "std430"], "Marker"))
    return v


DYN = tuple("crevice::std140::DynamicUniform<%s>" % x for x in (
    "f32", "bool", "f64", "mint::Vector3<f32>", "mint::Vector2<i32>", "mint::ColumnMatrix3<f32>", "mint::ColumnMatrix2<f64>", "User<0, 16>", "User<2, 512>", "User<3, 4>",
    "Colour", "crevice::std140::DynamicUniform<f32>", "crevice::std140::Vec3"))


def small(ids, v, lay, n=6, salt=0):
    """A seeded handful of types of differing classes."""
    import random
    rnd = random.Random(common.SEED * 1000 + salt)
    return sorted(rnd.sample(ids, min(n, len(ids))))


def perfect(out, sc, v, lay, scale=1):
    """Scripts over an output that takes everything."""
    t = v.ids(lay)
    few = small(t, v, lay, 5, 1)
    sc.family("pairs", lay, t, "Writes(t)", 2, 2, sizer=True)
    sc.family("ops", lay, few, "One(t) \\cup Slices(t, {0, 1, 2, 5}) \\cup Iters(t, {0, 1, 2, 5}, 0..9) \\cup Panics(t, {0, 2}) \\cup Multis(t) \\cup Mixed(t)",
              1, 1)
    sc.family("walks", lay, t, "One(t) \\cup Slices(t, {0, 1, 2, 3, 7}) \\cup Iters(t, {0, 1, 3, 7}, 0..9) \\cup Panics(t, {0, 1, 3})",
              4, 14, simulate=150 * scale)
    sc.family("multi", lay, few, "Multis(t) \\cup Mixed(t) \\cup Ragged(t) \\cup One(t)", 3, 8, simulate=60 * scale)


PERFECT_RULES = ["fails", "bytes", "offset", "len", "prefix", "panic"]


def scripts_of(out):
    return Scripts(out)


def finish_scripts(out, sc):
    out.notes["scripts"] = dict(sc.families)
    say("scripts", len(sc.lines))
    for x in sc.lines[:1] + sc.lines[-2:]:
        out.sample({"script": x})


def padding(out, hosts, g, thorough):
    v = standard(out, hosts, g)
    sc = Scripts(out)
    for lay in ("std140", "std430"):
        perfect(out, sc, v, lay)
    finish_scripts(out, sc)
    ss = record(out, v, sc.lines)
    judge(out, v, ss, ["pad", "panic"], sc.lines)
    bulk.sweep(out, v, ["each bytes", "seq bytes"], ["each", "direct", "slice", "iter"], thorough)


def placement(out, hosts, g, thorough):
    v = standard(out, hosts, g)
    sc = Scripts(out)
    for lay in ("std140", "std430"):
        perfect(out, sc, v, lay, 8 if thorough else 1)
    finish_scripts(out, sc)
    ss = record(out, v, sc.lines)
    judge(out, v, ss, PERFECT_RULES + ["item"], sc.lines)
    bulk.sweep(out, v, bulk.EACH_RULES + ["item"], ["each", "direct"], thorough)


def sizing(out, hosts, g, thorough):
    v = standard(out, hosts, g, dyn=True)
    sc = Scripts(out)
    k = 8 if thorough else 1
    for lay in ("std140", "std430"):
        t = v.ids(lay)
        few = small(t, v, lay, 6, 2)
        sc.family("pairs", lay, t, "Writes(t)", 2, 2, sizer=True)
        if thorough:
            sc.family("triples", lay, small(t, v, lay, 14, 3), "Writes(t)", 3, 3, sizer=True)
        sc.family("queries", lay, t, "Queries(t)", 1, 1)
        sc.family("queriesm", lay, t, "MultiQueries(t)", 1, 1, limit=None if thorough else 700)
        sc.family("ragged", lay, few, "RaggedQueries(t)", 1, 1, limit=None if thorough else 400)
        sc.family("walks", lay, t, "One(t) \\cup Iters(t, {0, 1, 2, 4}, {0}) \\cup Mixed({%s})" % ", ".join(map(str, few)), 3, 16, sizer=True, simulate=200 * k)
    finish_scripts(out, sc)
    ss = record(out, v, sc.lines)
    judge(out, v, ss, ["sizer offset", "sizer offsets", "sizer length", "size", "static size", "panic"], sc.lines)
    bulk.sweep(out, v, bulk.SIZE_RULES, ["each", "iter", "slice"], thorough)


def sequences(out, hosts, g, thorough):
    v = standard(out, hosts, g)
    sc = Scripts(out)
    k = 8 if thorough else 1
    for lay in ("std140", "std430"):
        t = v.ids(lay)
        few = small(t, v, lay, 6, 4)
        every = "Slices(t, {0, 1, 2, 3, 8}) \\cup Iters(t, {0, 1, 2, 3, 8}, 0..9) \\cup Panics(t, {0, 1, 3})"
        sc.family("each", lay, t, every, 1, 1, limit=None if thorough else 3000)
        sc.family("prefixed", lay, small(t, v, lay, 4, 5), every + " \\cup Writes(t)", 2, 2, limit=None if thorough else 1500)
        sc.family("multi", lay, few, "Multis(t) \\cup Mixed(t)", 1, 1)
        sc.family("triples", lay, small(t, v, lay, 4, 6), "{ \"x \" \\o p : p \\in Triples(t) }", 1, 1)
        sc.family("walks", lay, t, every + " \\cup One(t)", 3, 10, simulate=150 * k)
        sc.family("ragged", lay, few, "Ragged(t)", 1, 1, limit=None if thorough else 400)
        sc.family("multiwalks", lay, few, "Multis(t) \\cup Mixed(t) \\cup Ragged(t) \\cup One(t)", 2, 6, simulate=100 * k)
        sc.family("big", lay, few, "Slices(t, {100}) \\cup Iters(t, {100}, {0, 1}) \\cup One(t)", 2, 3, simulate=20)
    finish_scripts(out, sc)
    ss = record(out, v, sc.lines)
    judge(out, v, ss, ["seq " + r for r in ("fails", "bytes", "offset", "prefix")] + ["panic"], sc.lines)
    bulk.sweep(out, v, bulk.SEQ_RULES, ["slice", "old", "iter", "vague"], thorough)


FAULT_RULES = ["fails", "bytes", "offset", "len", "error lost", "prefix", "goes on", "panic"]


LARGE = "User<300, 16>"
VAST = ((1300, 4), (2100, 16), (17000, 8))


def faults(out, hosts, g, thorough):
    v = standard(out, hosts, g)
    large = len(v.entries)
    v.entries.append((LARGE, {"k": "custom", "size": 1200, "align": 16}, ["std140", "std430"], LARGE))
    for words, align in VAST:
        v.entries.append(("User<%d, %d>" % (words, align), {"k": "custom", "size": 4 * words, "align": align}, ["std140", "std430"], "User<%d, %d>" % (words, align)))
    unusual = {LARGE} | {"User<%d, %d>" % x for x in VAST}
    sc = Scripts(out)
    k = 8 if thorough else 1
    kinds = ("I", "E", "Z", "1", "2", "3", "5", "12")
    for lay in ("std140", "std430"):
        t = v.ids(lay, lambda e: e[0] not in unusual)
        # every single fault at every request of short scripts
        pick = small(t, v, lay, 4 if thorough else 3, 7)
        sc.family("single", lay, pick, "Writes(t) \\cup Slices(t, {2}) \\cup Iters(t, {2}, {0})", 2, 2, kinds=kinds, max_faults=1,
                  max_gap=20 if thorough else 8, limit=None if thorough else 2500)
        sc.family("walks", lay, t, "One(t) \\cup Slices(t, {0, 1, 3}) \\cup Iters(t, {0, 1, 3}, {0, 1})", 3, 8, kinds=kinds, max_faults=5,
                  max_gap=14, simulate=400 * k)
        sc.family("caps", lay, t, "One(t) \\cup Slices(t, {1, 3})", 3, 8, caps=(0, 1, 3, 4, 15, 16, 17, 40, 64, 100), simulate=100 * k)
        sc.family("multi", lay, small(t, v, lay, 5, 8), "Multis(t) \\cup Mixed(t) \\cup Ragged(t) \\cup One(t)", 2, 5, kinds=kinds, max_faults=4, max_gap=14, simulate=150 * k)
        # only whole accepts and refusals: the count must stay exact through any number of failures
        # many answers of a kind in a row, and values of more than a kilobyte
        storms = ["I" + ",I" * (n - 1) for n in (2, 9, 33, 130)] + ["1" + ",1" * (n - 1) for n in (3, 16, 70)] + ["1,I" + ",1,I" * 20, "255", "256", "512", "1023", "I", "E", "Z"]
        sc.family("storms", lay, [large] + pick, "One(t) \\cup Slices(t, {2}) \\cup Iters(t, {2}, {0})", 1, 3, kinds=storms, max_faults=4, max_gap=9, simulate=120 * k)
        # values that might go out in several requests: whole or not at all
        for j, n in enumerate((60, 24, 6)):
            sc.family("vast%d" % j, lay, [large + 1 + j, v.ids(lay, lambda e: e[0] == "f32")[0]], "One(t) \\cup Slices(t, {2}) \\cup Iters(t, {2}, {0})", 1, 2,
                      kinds=("I", "E", "Z"), max_faults=2, max_gap=3, simulate=n * k)
            sc.family("vastcaps%d" % j, lay, [large + 1 + j], "One(t)", 1, 1, caps=[c for c in (511, 513, 1025, 2049, 4097, 8191, 8193, 16385, 32769, 65537) if c < 4 * VAST[j][0]], simulate=0)
        sc.family("whole", lay, t, "One(t) \\cup Slices(t, {1, 3}) \\cup Iters(t, {0, 2}, {0})", 4, 10, kinds=("I", "E", "Z"), max_faults=6, max_gap=10, simulate=250 * k)
    finish_scripts(out, sc)
    ss = record(out, v, sc.lines)
    judge(out, v, ss, FAULT_RULES, sc.lines)


def dynamic(out, hosts, g, thorough):
    v = vocabulary(hosts, [], lambda h: h["h"] in DYN or h["h"] in ("f32", "mint::Vector3<f32>", "f64", "User<2, 512>", "User<3, 4>", "User<0, 256>"))
    sc = Scripts(out)
    t = v.ids("std140")
    sc.family("pairs", "std140", t, "Writes(t)", 2, 2, sizer=True)
    sc.family("queries", "std140", t, "Queries(t) \\cup MultiQueries(t)", 1, 1)
    sc.family("sized", "std140", t, "One(t) \\cup Iters(t, {0, 1, 3}, {0})", 3, 8, sizer=True, simulate=400 if thorough else 80)
    sc.family("walks", "std140", t, "One(t) \\cup Slices(t, {1, 3}) \\cup Iters(t, {0, 1, 3}, {0})", 3, 8, simulate=400 if thorough else 80)
    finish_scripts(out, sc)
    ss = record(out, v, sc.lines)
    judge(out, v, ss, PERFECT_RULES + ["item", "sizer offset", "sizer offsets", "sizer length", "size", "static size"], sc.lines)


def arrays(out, hosts, g, thorough):
    """C14: slices of GLSL types against the array rules."""
    g.family("elements", "AllMembers", [1], [1])
    g.family("elements2", "Few", [2], [2])
    g.family("elementsn", "AllMembers", [1, 2], [3, 6], refs=True, need=True, simulate=100 if thorough else 14, max_leaves=60)
    v = vocabulary(hosts, g.programs, lambda h: h["lib"] in ("core", "mint", "own") or h["h"] == "Colour")
    sc = Scripts(out)
    for lay in ("std140", "std430"):
        t = v.ids(lay)
        sc.family("each", lay, t, "Slices(t, {0, 1, 2, 5})", 1, 1)
        sc.family("placed", lay, small(t, v, lay, 12, 9), "Slices(t, {1, 3}) \\cup Writes(t)", 2, 2)
        sc.family("walks", lay, t, "Slices(t, {1, 2, 4}) \\cup Writes(t)", 3, 8, simulate=800 if thorough else 150)
    finish_scripts(out, sc)
    ss = record(out, v, sc.lines)
    packed = judge(out, v, ss, ["array", "panic"], sc.lines)
    packed |= bulk.sweep(out, v, ["bulk array"], ["slice", "old"], thorough)
    known = report.known_findings("C14")
    for lay, ty in sorted(packed):
        rust, term, _, label = v.entries[ty]
        # findings are listed by the GLSL name of the element type
        key = "%s/%s/packed-naturally" % (lay, NAMES.get(json.dumps(term, sort_keys=True), rust))
        if key in known:
            out.known[key] = "%s (%s)" % (key, known[key])
        else:
            out.violation({"kind": "trace", "rules": ["array"], "layout": lay, "type": term, "text":
                           "a slice of %s is packed naturally, not as a GLSL %s array (%s)" % (label[:200], lay, key)})
    out.notes["element_types"] = len(v.entries)


NAMES = {}


def learn_names(hosts):
    for h in hosts:
        if h["g"]:
            NAMES[json.dumps(h["t"], sort_keys=True)] = h["g"]
