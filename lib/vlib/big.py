"""Structs of many fields, deep nesting or great size: sessions decided by TraceShape."""
import copy, json, os
from . import codec, codegen, common, tlc
from .common import say


def leaves(t):
    k = t["k"]
    return {"scalar": lambda: 1, "vec": lambda: t["n"], "mat": lambda: t["n"] ** 2, "struct": lambda: sum(map(leaves, t["f"])),
            "dyn": lambda: leaves(t["t"]), "custom": lambda: t["size"] // 4}[k]()


def families(g, lays, thorough):
    k = 4 if thorough else 1
    g.family("wide", "MemberHosts", [20], [320 if thorough else 180], simulate=6 * k, max_leaves=5000)
    g.family("deep", "Few", [1] * 16, [2] * 16, refs=True, need=True, simulate=4 * k, max_leaves=400)
    g.family("blocks", "{ HostFor(Scalar(\"float\")), HostFor(Vec(\"float\", 3)), HostFor(Scalar(\"double\")), HostFor(Mat(\"float\", 3)), UserHost(16400, 16), UserHost(40000, 4), UserHost(9, 4096) }",
             [1, 2, 2], [3, 3, 4], refs=True, need=True, simulate=12 * k, max_leaves=200000)
    g.family("steep", "{ HostFor(Scalar(\"float\")), HostFor(Vec(\"float\", 3)), UserHost(1, 65536), UserHost(3, 8192), UserHost(0, 16384) }",
             [1, 1, 2], [3, 2, 3], refs=True, need=True, simulate=10 * k, max_leaves=100)
    # the strict one comes late
    # rustc takes 10 s for 257 fields and 40 s for 520
    for n in (9, 17, 33, 65, 129, 257) + ((520, 1025) if thorough else ()):
        g.family("late%d" % n, "{ HostFor(Scalar(\"float\")) }", [n], [n], last="{ HostFor(Vec(\"double\", 3)), HostFor(Vec(\"float\", 3)) }", max_leaves=1100, check=n < 200,
                 keep=lambda p, n=n: thorough and n < 1000 or n < 100 or "3<f64>" in p["decls"][0]["fields"][-1]["h"])
    any_of = lambda p: set(lays) & set(codegen.lays_of(p))
    for i, x in enumerate(lays):
        g.family("any " + x, "{ h \\in AllHosts \\cup UserHosts \\cup DynHosts : \"%s\" \\in h.lays }" % x, [1, 2, 3], [3, 5, 9], refs=True, need=True,
                 simulate=40 * k, max_leaves=400, keep=any_of)
    # structs that double, and more, at every level
    g.family("doubling", "Classes", [2] * 9, [4] * 9, refs=True, need=True, simulate=250 * k, max_leaves=40000,
             keep=lambda p: leaves(p["decls"][-1]["t"]) > 400, limit=4 * k)


class ShapeRecording(codec.Recording):
    def sources(self):
        files = super().sources()
        for fn, text in files.items():
            files[fn] = text.replace("rt::record!(&mut log, ", "shape!(&mut log, ").replace(
                "fn main()", "macro_rules! shape {\n (&mut log, $i:expr, $t:ty, std140) => { rt::shape::shape140::<$t>(&mut rt::Log::new(), $i) };\n"
                " (&mut log, $i:expr, $t:ty, std430) => { rt::shape::shape430::<$t>(&mut rt::Log::new(), $i) };\n}\nfn main()", 1)
            off = 4
            self.lines["src/bin/" + fn] = [(a + off, b + off, k, i) if k == "s" else (a, b, k, i) for a, b, k, i in self.lines["src/bin/" + fn]]
        return files


def corrupt(s, rule):
    s = copy.deepcopy(s)
    for e in s["ev"]:
        if rule == "align" and e["e"] == "type":
            e["align"] *= 2
        elif rule == "size" and e["e"] == "full":
            e["len"] += 16
        elif rule == "length" and e["e"] == "full":
            e["vsize"] += 16
        elif rule == "pad" and e["e"] == "full":
            e["weight"] += 1
        elif rule == "determinism" and e["e"] == "full":
            e["same"] = False
        elif rule == "place" and e["e"] == "leaf":
            e["at"] += 4
        elif rule == "read" and e["e"] == "read":
            e["v"][0] ^= 1
            if len(e["v"]) == 4 and e["v"][1:] == [0, 0, 0]:
                e["v"][0] = 7
        elif rule == "cast" and e["e"] == "cast" or rule == "roundtrip" and e["e"] == "round":
            e["same"] = False
        else:
            continue
        return s
    return None


def wrapped(g, lays, thorough):
    k = 4 if thorough else 1
    hosts = "{ HostFor(Scalar(\"float\")), HostFor(Vec(\"float\", 3)), UserHost(1, 65536), UserHost(3, 8192), UserHost(0, 16384), UserHost(9, 4096), UserHost(16400, 16) }"
    g.family("steepdyn", "WrappedAll(%s) \\cup %s" % (hosts, hosts), [1, 1, 2], [3, 3, 4], refs=True, need=True, simulate=20 * k, max_leaves=40000)
    g.family("latedyn", "BaseMembers", [40], [70], simulate=3 * k, last="WrappedAll(%s)" % hosts, max_leaves=40000)


def check(out, g, rules, lays=("std140", "std430"), thorough=False, which=families):
    which(g, lays, thorough)
    subs = codec.subjects_of_programs(g.programs, list(lays))
    rec = ShapeRecording(out, out.workdir, g.programs, subs, lays=lays, math=True, name="shape")
    if not rec.build():
        return
    out.notes["big_families"] = dict(g.families)
    out.cov["states"] += g.states
    out.cov["transitions"] += g.transitions
    lines = rec.record()
    say("recorded", len(lines), "big types")
    expected = sum(len(s.lays) for s in subs)
    if len(lines) != expected and not out.violations:
        raise common.ToolError("%d sessions of %d big types" % (len(lines), expected))
    judge(out, subs, [json.loads(x) for x in lines], rules)


def judge(out, subs, sessions, rules):
    d = os.path.join(out.workdir, "shape_judge")
    os.makedirs(d, exist_ok=True)
    planted = []
    for rule in rules:
        for x in sessions:
            c = corrupt(x, rule) if rule != "panic" else None
            if c:
                planted.append((rule, c))
                break
    with open(os.path.join(d, "types.ndjson"), "w") as f:
        for s in subs:
            f.write(json.dumps({"t": s.term}) + "\n")
    with open(os.path.join(d, "trace.ndjson"), "w") as f:
        for s in sessions + [p[1] for p in planted]:
            f.write(json.dumps(s) + "\n")
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n TypesFile = "types.ndjson"\n TraceFile = "trace.ndjson"\n Checked <- c_checked\nCHECK_DEADLOCK FALSE\n'
    r = tlc.run("TraceRun", "c_checked == {%s}" % ", ".join('"%s"' % x for x in rules), cfg, "TraceShape", d, timeout=800)
    if not r.ok:
        raise common.ToolError("TLC failed on the recorded shapes:\n" + r.out[-4000:])
    steps = sum(len(s["ev"]) + 1 for s in sessions + [p[1] for p in planted])
    if r.distinct != steps:
        raise common.ToolError("TLC read %d of %d steps of the recorded shapes" % (r.distinct, steps))
    out.add_states(r)
    out.cov["traces_validated_against_impl"] += len(sessions)
    missed = set(range(len(sessions), len(sessions) + len(planted)))
    bad = False
    for x in r.lines:
        if "faults" not in x:
            continue
        i = x["s"] - 1
        if i >= len(sessions):
            missed.discard(i)
            continue
        bad = True
        e = sessions[i]["ev"][x["l"] - 1]
        label = subs[x["ty"]].label
        out.violation({"kind": "trace", "rules": sorted(x["faults"]), "layout": x["lay"], "program": label, "step": x["l"], "event": e,
                       "text": "%s of %s breaks %s: %s" % (x["lay"], label[:300], sorted(x["faults"]), json.dumps(e)[:200])})
    if missed and not bad:
        raise common.ToolError("planted faults were not rejected: %s" % [planted[i - len(sessions)][0] for i in sorted(missed)])
    out.notes["planted_shape_faults_rejected"] = len(planted) - len(missed)
    out.notes["big_types"] = len(sessions)
    if sessions:
        out.sample({"big type": subs[sessions[-1]["ty"]].label[:600], "events": len(sessions[-1]["ev"])})
    say("judged big types; violations so far", len(out.violations))
