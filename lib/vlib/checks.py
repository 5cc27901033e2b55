"""What each check runs."""
import os
from concurrent.futures import ThreadPoolExecutor
from . import admit, big, buffers, codec, codegen, common, glsl, report, shapes, styles, tlc, unbounded, wide
from .common import say

BOTH = ("std140", "std430")


def thorough():
    return common.TIER == "thorough"


def model(out, cfg, module, expect_error=False, timeout=800):
    """Model-checks a committed configuration; a model that fails says nothing about the code: exit 2."""
    d = os.path.join(out.workdir, "mc_" + cfg)
    text = open(os.path.join(common.SPEC, cfg + ".cfg")).read()
    r = tlc.run("MC", "", text, module, d, timeout=timeout)
    if r.ok == expect_error or (expect_error and "is violated" not in r.out):
        raise common.ToolError("model %s: unexpected outcome\n%s" % (cfg, r.out[-3000:]))
    if not expect_error:
        out.add_states(r)
        out.notes.setdefault("models", {})[cfg] = r.distinct
    say("model", cfg, "states", r.distinct, "(fails, as it should)" if expect_error else "")


def hosts(out):
    r = tlc.run("Hosts_", "", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", "GenHosts", os.path.join(out.workdir, "hosts"), workers=1)
    if not r.ok or not r.lines:
        raise common.ToolError("TLC failed printing the host table:\n" + r.out[-2000:])
    return sorted(r.lines, key=lambda h: h["h"])


def generator(out):
    return shapes.Gen(out.workdir)


def note_programs(out, g):
    out.cov["states"] += g.states
    out.cov["transitions"] += g.transitions
    out.notes["programs"] = len(g.programs)
    out.notes["families"] = dict(g.families)
    for p in g.programs[:1] + g.programs[-2:]:
        out.sample({"program": codec.render(p)})
    say("programs", g.families)


def sessions(out, programs, subjects, rules, lays=BOTH, std=True, math=False, release=False, vectors=2, gpu=1, name="rec", extra=(), again=True, known=()):
    """Built as in development, and once more without debug assertions; release: optimised instead.
    Sessions recorded exactly as one of `known` are not judged again."""
    rec = codec.Recording(out, out.workdir, programs, subjects, lays=lays, std=std, math=math, release=release, name=name, extra=extra)
    rec.again = again and not release
    rec.build()
    say("built", name)
    lines = rec.record(vectors=vectors, gpu=gpu)
    say("recorded", len(lines), "sessions")
    if not lines and not out.violations:
        raise common.ToolError("nothing was recorded")
    if known:
        if len(lines) != len(known) and not out.violations:
            raise common.ToolError("%d sessions, %d before" % (len(lines), len(known)))
        seen = set(known)
        every, lines = lines, [x for x in lines if x not in seen]
        out.notes[name + "_sessions"] = {"recorded": len(every), "differing": len(lines)}
        say("of which", len(lines), "differ from those judged")
        if lines:
            codec.judge(out, out.workdir, subjects, lines, rules, name=name + "_judge", controls=False)
        return every
    n = codec.judge(out, out.workdir, subjects, lines, rules, name=name + "_judge")
    for x in lines[:1]:
        out.sample({"session": x[:1500]})
    say("judged", name, "rejects", n)
    other = rec.differing(lines, vectors, gpu)
    if other:
        codec.judge(out, out.workdir, subjects, other, rules, name=name + "_bare_judge", controls=False)
    return lines


LAYOUT_RULES = ["align", "size", "place", "length", "panic"]


def layout_families(g, quick_triples=True):
    g.family("singles", "AllMembers", [1], [1])
    g.family("pairs", "AllMembers", [2], [2])
    g.family("nested", "Few", [1, 1], [2, 2], refs=True, need=True)
    g.family("triples", "Classes", [3], [3], keep=None if thorough() else every(5))
    if thorough():
        g.family("nested3", "Few", [1, 3], [2, 3], refs=True, need=True)
        g.family("deep", "{ HostFor(Scalar(\"float\")), HostFor(Vec(\"float\", 3)), HostFor(Scalar(\"double\")) }",
                 [1, 1, 1], [2, 2, 2], refs=True, need=True)
    k = 8 if thorough() else 1
    g.family("random", "AllMembers", [1, 1, 2, 3], [4, 6, 8, 12], refs=True, need=True, simulate=150 * k, max_leaves=90)
    g.family("long", "AllMembers", [8], [16], simulate=60 * k, max_leaves=200)


def styled(out, hs, rules, lays, vectors=2, gpu=1, name="styled", families=None, need=None, text=False):
    """Programs written in ways that should make no difference to layouts and values (nor, with `text`, to declarations).
    families: of the caller's choice instead of the usual ones; need: which programs to keep."""
    g = generator(out)
    k = 6 if thorough() else 1
    ok = lambda p: not styles.clash(p) and (need is None or need(p)) and (not text or glsl.names_fit(p))
    three = dict(refs=True, need=True, max_leaves=90, keep=ok)
    if families is not None:
        families(g, k, three)
    else:
        g.family("written", "Few \\cup { UserHost(0, 16), UserHost(3, 4), ColourHost }", [1, 1, 2], [3, 3, 4], simulate=90 * k, styles="LayoutStyles", declnames="StructNames", **three)
        g.family("short", "Few", [1, 1], [2, 3], simulate=60 * k, styles="{ w \\in LayoutStyles : w.place = \"split\" \\/ w.extra = \"paths\" }", declnames="ShortNames", **three)
        g.family("floats", "FloatFew", [1, 2], [4, 3], simulate=60 * k, styles="LayoutStyles", **dict(three, need=False))
        g.family("pairsrepr", "FloatFew", [2], [2], styles="{ w \\in LayoutStyles : w.extra = \"repr16\" /\\ w.place = \"module\" }")
        g.family("oddnames", "BaseMembers", [2, 1, 1], [5, 4, 6], simulate=40 * k, styles="WrittenStyles", names="OddNames", declnames="StructNames", **three)
    # every attribute, on any field
    if need is None:
        g.family("attributes", "Few", [4], [9], simulate=30 * k, styles="{ w \\in LayoutStyles : w.extra = \"attrs\" /\\ w.place \\in {\"module\", \"function\"} }",
                 names="GlslSafeNames" if text else "{}", **dict(three, refs=False, need=False))
    out.notes["families"].update(g.families)
    table = {h["h"]: h for h in hs}
    subs = []
    for i, p in enumerate(g.programs):
        ks = styles.kinds(p, table, glsl=False)
        subs.append(codec.Subject("", p["decls"][-1]["t"], [x for x in ks if x in lays], prog=i, label=styles.describe(p)))
    rec = styles.StyledRecording(out, out.workdir, g.programs, subs, name=name, hosts=hs, glsl=text, math=True, lays=lays)
    if not rec.build():
        return
    lines = rec.record(vectors=vectors, gpu=gpu)
    values = [x for x in lines if x.startswith('{"ty"')]
    if len(values) != sum(len(s.lays) for s in subs) and not out.violations:
        raise common.ToolError("%d sessions recorded of the styled programs" % len(values))
    if text:
        ss = glsl.assemble(g.programs, [], lines)
        if not ss and not out.violations:
            raise common.ToolError("no declarations recorded of the styled programs")
        for s in ss:
            s["label"] = styles.describe(g.programs[s["program"]])
        glsl.judge(out, ss, name=name + "_glsl")
    if rules:
        codec.judge(out, out.workdir, subs, values, rules, name=name + "_judge")
    say("judged", name, g.families)


def layout_check(out, lay):
    # the proofs are the same for both layouts, and for all writer properties
    proof = unbounded.Proof(out, "UnboundedDeclare") if thorough() or lay == "std140" else None
    model(out, "MCDeclare_Wide", "MCDeclare")
    if thorough():
        for c in ("Class", "Nest", "Dyn"):
            model(out, "MCDeclare_" + c, "MCDeclare")
    g = generator(out)
    layout_families(g)
    note_programs(out, g)
    subs = codec.subjects_of_programs(g.programs, [lay])
    sessions(out, g.programs, subs, LAYOUT_RULES, lays=[lay], vectors=2, gpu=0)
    styled(out, hosts(out), LAYOUT_RULES, [lay], vectors=2, gpu=0)
    big.check(out, generator(out), LAYOUT_RULES, [lay], thorough())
    if proof:
        proof.finish()


def c01(out):
    layout_check(out, "std140")


def c02(out):
    layout_check(out, "std430")



def small_families(g, scale=1):
    """A spread of programs for the properties that are about values rather than layouts."""
    g.family("singles", "AllMembers", [1], [1])
    g.family("pairs", "AllMembers", [2], [2], keep=None if thorough() else every(3))
    g.family("nested", "Few", [1, 1], [2, 2], refs=True, need=True, keep=None if thorough() else every(3))
    k = scale * (6 if thorough() else 1)
    g.family("random", "BaseMembers \\cup { ColourHost }", [1, 1, 2, 3], [4, 6, 8, 12], refs=True, need=True, simulate=80 * k, max_leaves=90)
    g.family("long", "BaseMembers", [8], [16], simulate=30 * k, max_leaves=200)


def every(n):
    """Keeps one in n, which ones depending on the seed."""
    count = [common.SEED % n]

    def keep(_):
        count[0] += 1
        return count[0] % n == 0
    return keep


def c03(out):
    model(out, "MCDeclare_Wide", "MCDeclare")   # assumes PrimitivesAreGlsl
    hs = [h for h in hosts(out) if h["lib"] not in ("user", "dyn")]
    subs = codec.subjects_of_hosts(hs)
    out.notes["hosts"] = len(hs)
    n = 40 if thorough() else 8
    sessions(out, [], subs, LAYOUT_RULES + ["read", "roundtrip"], math=True, vectors=n, gpu=n)


PAD_RULES = ["pad", "determinism", "panic"]


def c04(out):
    model(out, "MCCodec", "MCCodec")
    g = generator(out)
    small_families(g)
    g.family("math", "MathHosts \\cup { HostFor(Scalar(\"float\")) }", [4], [10], simulate=120 if thorough() else 20, max_leaves=150)
    note_programs(out, g)
    hs = hosts(out)
    subs = codec.subjects_of_programs(g.programs, BOTH) + codec.subjects_of_hosts(hs)
    n = 8 if thorough() else 2
    lines = sessions(out, g.programs, subs, PAD_RULES, vectors=n, gpu=0, math=True, name="debug", again=False)
    sessions(out, g.programs, subs, PAD_RULES, vectors=n, gpu=0, math=True, release=True, name="release", known=lines)
    buffers.padding(out, hs, generator(out), thorough())
    styled(out, hs, PAD_RULES, BOTH, vectors=2, gpu=0)
    big.check(out, generator(out), PAD_RULES, BOTH, thorough())


READ_RULES = ["read", "roundtrip", "panic"]


def c05(out):
    model(out, "MCCodec", "MCCodec")
    g = generator(out)
    small_families(g)
    g.family("math", "MathHosts \\cup { HostFor(Scalar(\"float\")) }", [4], [10], simulate=120 if thorough() else 20, max_leaves=150)
    note_programs(out, g)
    hs = hosts(out)
    subs = codec.subjects_of_programs(g.programs, BOTH) + codec.subjects_of_hosts(hs)
    n = 12 if thorough() else 4
    lines = sessions(out, g.programs, subs, READ_RULES, vectors=n, gpu=n, math=True, name="debug", again=not thorough())
    if thorough():
        sessions(out, g.programs, subs, READ_RULES, vectors=n, gpu=n, math=True, release=True, name="release", known=lines)
    styled(out, hs, READ_RULES, BOTH, vectors=2, gpu=2)
    big.check(out, generator(out), READ_RULES, BOTH, thorough())


def c10(out):
    hs = [h for h in hosts(out) if h["lib"] in ("mint", "cgmath", "glam", "nalgebra")]
    g = generator(out)
    g.family("mathpairs", "MathHosts \\cup { HostFor(Scalar(\"float\")) }", [2], [2], keep=every(2 if thorough() else 13))
    g.family("mathlong", "MathHosts", [6], [12], simulate=200 if thorough() else 30, max_leaves=150)
    note_programs(out, g)
    out.notes["hosts"] = len(hs)
    subs = codec.subjects_of_hosts(hs) + codec.subjects_of_programs(g.programs, BOTH)
    n = 40 if thorough() else 8
    rules = ["size", "place", "length", "read", "roundtrip", "panic", "pad"]
    sessions(out, g.programs, subs, rules, math=True, vectors=n, gpu=n)

    def written(g, k, three):
        g.family("mathwritten", "MathHosts", [2, 1], [4, 3], simulate=80 * k, styles="LayoutStyles", **three)
    styled(out, hosts(out), rules, BOTH, vectors=2, gpu=2, families=written)


def c12(out):
    model(out, "MCDeclare_Dyn", "MCDeclare")
    hs = [h for h in hosts(out) if h["lib"] == "dyn"]
    g = generator(out)
    small = "WrappedAll({ HostFor(t) : t \\in { Scalar(\"float\"), Vec(\"float\", 3), Vec(\"double\", 3), Mat(\"float\", 2) } } \\cup { UserHost(3, 4), UserHost(2, 512) })"
    plain = "{ HostFor(Scalar(\"float\")), HostFor(Vec(\"float\", 3)), HostFor(Scalar(\"double\")) }"
    has_dyn = lambda p: any(f["h"].startswith("crevice::std140::Dyn") for d in p["decls"] for f in d["fields"])
    g.family("dynpairs", small + " \\cup " + plain, [1], [2], keep=has_dyn)
    g.family("dynnest", "WrappedAll({ HostFor(Scalar(\"float\")) }) \\cup " + plain, [1, 1], [2, 2], refs=True, need=True, keep=has_dyn)
    if thorough():
        g.family("dyntriples", small + " \\cup " + plain, [3], [3], keep=has_dyn)
    g.family("dynlong", "DynHosts \\cup MemberHosts", [3], [8], simulate=200 if thorough() else 40, keep=has_dyn, max_leaves=150)
    note_programs(out, g)
    # wrapped structs
    subs = codec.subjects_of_hosts(hs) + codec.subjects_of_programs(g.programs, ["std140"])
    for s in [s for s in subs if s.prog is not None]:
        subs.append(codec.Subject("crevice::std140::DynamicUniform<%s>" % s.rust, {"k": "dyn", "t": s.term}, ["std140"],
                                  prog=s.prog, label="DynamicUniform of " + s.label))
    n = 8 if thorough() else 3
    sessions(out, g.programs, subs, LAYOUT_RULES + ["pad", "read", "roundtrip", "cast"], lays=["std140"], vectors=n, gpu=n)

    def written(g, k, three):
        g.family("dynwritten", small + " \\cup " + plain, [1, 1], [3, 3], simulate=90 * k, styles="LayoutStyles", **three)
    styled(out, hosts(out), LAYOUT_RULES + ["pad", "read", "roundtrip", "cast"], ["std140"], vectors=2, gpu=2, families=written, need=has_dyn)
    buffers.dynamic(out, hosts(out), generator(out), thorough())
    wide.far(out, thorough(), writer=False)
    big.check(out, generator(out), LAYOUT_RULES + ["pad", "read", "roundtrip", "cast"], ["std140"], thorough(), which=big.wrapped)


def c13(out):
    model(out, "MCCodec", "MCCodec")
    has_bool = lambda t: t.get("c") == "bool" or any(has_bool(x) for x in t.get("f", []))
    hs = [h for h in hosts(out) if has_bool(h["t"])]
    g = generator(out)
    pb = lambda p: has_bool(p["decls"][-1]["t"])
    g.family("singles", "AllMembers", [1], [1], keep=pb)
    g.family("pairs", "AllMembers", [2], [2], keep=pb)
    bools = "{ HostFor(Scalar(\"bool\")), HostFor(Vec(\"bool\", 3)), HostFor(Scalar(\"float\")), HostFor(Vec(\"float\", 3)) }"
    g.family("nested", bools, [1, 1], [2, 3], refs=True, need=True, keep=lambda p: pb(p) and every_third(p))
    g.family("long", "{ h \\in BaseMembers : h.t.k # \"mat\" /\\ h.t.c = \"bool\" } \\cup " + bools, [6], [14], simulate=200 if thorough() else 30, keep=pb, max_leaves=200)
    note_programs(out, g)
    subs = codec.subjects_of_hosts(hs) + codec.subjects_of_programs(g.programs, BOTH)
    n = 40 if thorough() else 10
    sessions(out, g.programs, subs, ["bool", "panic"], math=True, vectors=n, gpu=n)

    def written(g, k, three):
        g.family("boolwritten", "{ h \\in BaseMembers \\cup MathHosts : h.t.k # \"mat\" /\\ h.t.c = \"bool\" } \\cup " + bools, [1, 1], [4, 3], simulate=90 * k, styles="LayoutStyles", **three)
        g.family("boolstyles", "{ HostFor(Scalar(\"bool\")) }", [1], [2], styles="LayoutStyles", keep=every(2))
    styled(out, hosts(out), ["bool", "panic"], BOTH, vectors=4, gpu=4, families=written, need=pb)
    # every word
    words = [h for h in hs if h["lib"] in ("core", "own", "mint") and "Point" not in h["h"]]
    subs, extra = codec.subjects_of_hosts(words), []
    chunks = 8
    for j, s in enumerate(subs):
        for lay in s.lays:
            comps = s.term.get("n", 1)
            for leaf in range(comps):
                if not thorough() and not (s.rust in ("bool",) or leaf == (common.SEED + j) % comps):
                    continue
                f = "scan140" if lay == "std140" else "scan430"
                if thorough() or s.rust == "bool":
                    step = (1 << 32) // chunks
                    ranges = [(c * step, (c + 1) * step) for c in range(chunks)]
                else:
                    ranges = [(0, 1 << 17)] + [((1 << b) - 300, (1 << b) + 300) for b in range(18, 32)] + [((1 << 32) - 1000, 1 << 32)]
                for a, b in ranges:
                    extra.append("rt::%s::<%s>(&mut log, %d, %d, %d, %d, %d);" % (f, s.rust, j, leaf, 4 * leaf, a, b))
    # some words of booleans within structs
    bit = lambda t: {"scalar": lambda: [t["c"] == "bool"], "vec": lambda: [t["c"] == "bool"] * t["n"], "mat": lambda: [False] * t["n"] ** 2,
                     "struct": lambda: sum(map(bit, t["f"]), [])}[t["k"]]()
    longest = sorted(range(len(g.programs)), key=lambda i: -len(bit(g.programs[i]["decls"][-1]["t"])))
    picked = [g.programs[i] for i in longest[:60 if thorough() else 16]] + g.programs[::4 if thorough() else 16]
    for i, p in enumerate(picked):
        where = [x for x, b in enumerate(bit(p["decls"][-1]["t"])) if b]
        j = len(subs)
        subs += codec.subjects_of_programs([p], BOTH)
        subs[j].prog, subs[j].rust = i, subs[j].rust.replace("p0::", "p%d::" % i)
        for lay in subs[j].lays:
            for leaf in where if thorough() else sorted({where[0], where[len(where) // 2], where[-1]}):
                extra.append("#%d rt::some%s::<%s>(&mut log, %d, %d);" % (i, lay[3:], subs[j].rust, j, leaf))
    out.notes["scans"] = len(extra)
    for s in subs:
        s.lays = []
    sessions(out, picked, subs, ["bool"], release=True, name="scan", extra=extra)


def every_third(p, n=[0]):
    n[0] += 1
    return thorough() or n[0] % 3 == common.SEED % 3


# Configurations: name, crevice's features, standard library, math libraries in the harness.
CONFIGS = [
    ("core", [], False, False),
    ("core-cgmath", ["cgmath"], False, False),
    ("core-glam", ["glam"], False, False),
    ("core-nalgebra", ["nalgebra"], False, False),
    ("core-math", ["cgmath", "glam", "nalgebra"], False, True),
    ("std", ["std"], True, False),
    ("std-math", ["std", "test-all-math-libraries"], True, True),
    ("std-debug", ["std"], True, False),
]
# The other combinations, with fewer programs in the quick tier.
FEWER = [
    ("core-cgmath-glam", ["cgmath", "glam"], False, False),
    ("core-cgmath-nalgebra", ["cgmath", "nalgebra"], False, False),
    ("core-glam-nalgebra", ["glam", "nalgebra"], False, False),
    ("std-cgmath", ["std", "cgmath"], True, False),
    ("std-glam", ["std", "glam"], True, False),
    ("std-nalgebra", ["std", "nalgebra"], True, False),
    ("std-cgmath-glam", ["std", "cgmath", "glam"], True, False),
    ("std-cgmath-nalgebra", ["std", "cgmath", "nalgebra"], True, False),
    ("std-glam-nalgebra", ["std", "glam", "nalgebra"], True, False),
]

DEBUG = 'crevice-derive = { path = "%s/crevice-derive", features = ["debug-methods"] }' % common.REPO


# glam needs a mathematical backend from somebody; that does not give crevice the standard library.
GLAM = 'glam = { version = "0.33", default-features = false, features = ["std"] }'


class ConfigRecording(codec.Recording):
    """Recording in one configuration of crevice; crevice itself must build in it."""
    config = ""
    entries = ()

    def more_files(self):
        text = codegen.PRELUDE + "".join(codegen.program_module("p%d" % i, p) for i, p in enumerate(self.programs) if i not in self.rejected
                                         and any(e.rust.startswith("p%d::" % i) for e in self.entries))
        text += wide.sizer_source(self.entries)
        text += "fn main() {\n    let mut log = rt::Log::new();\n    rt::wide::run_sizer_scripts(&mut log, sizer140, sizer430);\n}\n"
        return {"sizer.rs": text}

    def foreign(self, e):
        theirs = [x for x in e.errors if "crevice" in x[4]]
        if not theirs:
            raise common.ToolError("the build failed outside the generated programs:\n" + e.text[-6000:])
        self.out.violation({"kind": "rejected", "rules": ["compile"], "configuration": self.config, "error": theirs[0][2][:3000],
                            "text": "crevice does not build with features %s: %s" % (self.features, theirs[0][0][:300])})


def c16(out):
    g = generator(out)
    small_families(g)
    note_programs(out, g)
    every_host = hosts(out)
    n = 6 if thorough() else 2
    programs = g.programs
    known = {}

    def lists(name, lay, ids, lo, hi, simulate=0):
        # the same numbers in most configurations
        key = (name, lay, tuple(ids))
        if key not in known:
            known[key] = wide.scripts(out, "%s%d" % (name, len(known)), lay, ids, lo, hi, simulate=simulate)
        return known[key]

    def decide(config, features, subs, lines, entries, sized):
        codec.judge(out, out.workdir, subs, lines, codec.ALL_RULES, name=config + "_judge")
        wide.judge(out, entries, sized, name=config + "_sizers", note="with features %s: " % features)
        out.notes.setdefault("configurations", {})[config] = len(lines)
        say("judged", config)

    judge, judging = ThreadPoolExecutor(1), []      # one configuration is judged while the next is built
    for config, features, std, math in CONFIGS + FEWER:
        few = not thorough() and (config, features, std, math) in FEWER
        g.programs = programs[common.SEED % 9::9] if few else programs
        hs = [h for h in every_host if math or h["lib"] in ("core", "mint", "own", "user", "dyn")]
        subs = codec.subjects_of_programs(g.programs, BOTH) + codec.subjects_of_hosts(hs)
        rec = ConfigRecording(out, out.workdir, g.programs, subs, std=std, math=math, features=features, target="target-cfg",
                              name=config, no_std=not std, extra_deps=DEBUG if config == "std-debug" else GLAM if "glam" in features and not math else "")
        rec.config = config
        entries = [wide.Entry(h["h"], h["t"], h["lays"]) for h in hs if h["lib"] in ("core", "mint") or "DynamicUniform<f32>" in h["h"] or h["lib"] == "user"]
        entries += [wide.Entry("p%d::%s" % (i, g.programs[i]["decls"][-1]["name"]), g.programs[i]["decls"][-1]["t"]) for i in range(0, len(g.programs), 40)]
        near = len(entries)
        entries += wide.far_entries()
        rec.entries = entries
        if not rec.build():
            continue
        lines = rec.record(vectors=n, gpu=n)
        if len(lines) != sum(len(s.lays) for s in subs) and not out.violations:
            raise common.ToolError("%d sessions recorded in %s" % (len(lines), config))
        sc = []
        for lay in BOTH:
            ids = [i for i, e in enumerate(entries) if lay in e.lays]
            sc += lists("pairs", lay, ids[::3], 2, 2)
            if few:
                continue
            sc += lists("lists", lay, [i for i in ids if i < near], 3, 12, simulate=60)
            sc += lists("far", lay, ids, 3, 12, simulate=60)
        sized = wide.run_sizers(os.path.join(rec.bindir, "sizer"), sc)
        judging.append(judge.submit(decide, config, features, subs, lines, entries, sized))
    for x in judging:
        x.result()


def c17(out):
    g = generator(out)
    small_families(g)
    note_programs(out, g)
    hs = hosts(out)
    subs = codec.subjects_of_hosts(hs) + codec.subjects_of_programs(g.programs, BOTH)
    n = 16 if thorough() else 4
    lines = sessions(out, g.programs, subs, ["cast", "length", "panic"], vectors=1, gpu=n, math=True, name="debug", again=False)
    sessions(out, g.programs, subs, ["cast", "length", "panic"], vectors=1, gpu=n, math=True, release=True, name="release", known=lines)
    styled(out, hs, ["cast", "length", "panic"], BOTH, vectors=1, gpu=2)
    big.check(out, generator(out), ["cast", "length", "panic"], BOTH, thorough())


def c11(out):
    g = generator(out)
    fit = dict(names="GlslSafeNames", declnames="GlslStructNames")
    k = 8 if thorough() else 1
    g.family("singles", "{ HostFor(t) : t \\in Numeric }", [1], [1], keep=glsl.names_fit)
    g.family("names", "{ HostFor(Scalar(\"float\")) }", [1], [1], names="GlslSafeNames")
    g.family("structnames", "{ HostFor(Scalar(\"float\")) }", [1], [1], declnames="GlslStructNames")
    g.family("pairs", "AllMembers", [2], [2], keep=None if thorough() else every(6))
    g.family("nested", "Few", [1, 1], [2, 2], refs=True, need=True, keep=None if thorough() else every(6))
    g.family("named", "AllMembers", [2, 1, 1], [6, 5, 8], refs=True, need=True, simulate=150 * k, max_leaves=90, keep=glsl.names_fit, **fit)
    g.family("long", "AllMembers", [8], [24], simulate=30 * k, max_leaves=250, keep=glsl.names_fit, names="GlslSafeNames")
    for m in (65, 130, 300) if not thorough() else (40, 65, 100, 130, 200, 257, 300, 600):
        g.family("wide%d" % m, "BaseMembers", [m], [m], simulate=2, max_leaves=9000)
    g.family("math", "MathHosts \\cup { HostFor(Scalar(\"float\")), HostFor(Vec(\"float\", 3)) }", [4], [10], simulate=40 * k, max_leaves=150)
    for lay in BOTH:
        g.family("own " + lay, "OwnMembers(\"%s\") \\cup Few" % lay, [3], [8], simulate=10 * k, max_leaves=150)
    note_programs(out, g)
    hs = [h for h in hosts(out) if h["lib"] not in ("user", "dyn")]
    out.notes["hosts"] = len(hs)
    ss, _ = glsl.record(out, g.programs, hs, 4 if thorough() else 2)
    if len(ss) < len(g.programs) + len(hs) and not out.violations:
        raise common.ToolError("%d sessions of %d programs and %d types" % (len(ss), len(g.programs), len(hs)))

    def written(g, k, three):
        g.family("textwritten", "BaseMembers", [1, 1], [4, 3], simulate=120 * k, styles="WrittenStyles", names="GlslSafeNames", declnames="GlslStructNames", **three)
        g.family("mathtext", "MathHosts", [1, 1], [4, 3], simulate=40 * k, styles="LayoutStyles", declnames="GlslStructNames", **three)
    styled(out, hosts(out), [], BOTH, vectors=1, gpu=0, families=written, text=True)
    for s in ss[:1] + ss[-1:]:
        out.sample({"declarations": [x["text"] for x in s["got"]] or s["hosts"]})
    glsl.judge(out, ss)


def c15(out):
    hs = hosts(out)
    g = generator(out)
    ok = lambda p: not styles.clash(p)
    k = 8 if thorough() else 1
    odd = dict(names="OddNames", declnames="StructNames", keep=ok)
    # every type as the only field, every name, every way of writing
    g.family("types", "AllHosts \\cup UserHosts \\cup DynHosts", [1], [1])
    g.family("names", "{ HostFor(Vec(\"float\", 3)) }", [1], [1], names="OddNames", keep=ok)
    g.family("structnames", "{ HostFor(Scalar(\"float\")) }", [1], [1], declnames="StructNames", keep=ok)
    plainly = "w.vis = \"pub\" /\\ w.imports = \"none\""
    g.family("rawnames", "{ HostFor(Vec(\"float\", 3)) }", [1], [1], names="OddNames", keep=ok, styles="{ w \\in WrittenStyles : %s /\\ w.place = \"module\" /\\ w.extra = \"raw\" }" % plainly)
    g.family("padnames", "{ HostFor(Vec(\"float\", 3)), HostFor(Scalar(\"double\")) }", [2], [3], names="PadNames", keep=ok if thorough() else every(5),
             styles="{ w \\in WrittenStyles : %s /\\ w.place \\in {\"module\", \"macro\"} /\\ w.extra \\in {\"\", \"raw\"} }" % plainly)
    g.family("styles", "{ HostFor(Vec(\"float\", 3)) }", [1], [1], styles="WrittenStyles", keep=None if thorough() else every(5))
    # together
    mix = "BaseMembers \\cup UserHosts \\cup DynHosts"
    g.family("odd", "BaseMembers", [2, 1, 1], [5, 4, 6], refs=True, need=True, simulate=120 * k, max_leaves=90, styles="WrittenStyles", **odd)
    g.family("oddwrapped", mix, [2, 1], [4, 6], refs=True, need=True, simulate=80 * k, max_leaves=120, styles="WrittenStyles", **odd)
    g.family("digits", "FloatFew", [1, 11, 1], [2, 13, 2], simulate=30 * k, max_leaves=300, declnames="DigitNames", keep=ok)
    g.family("deep", "Few", [1] * 12, [2] * 12, refs=True, need=True, simulate=10 * k, max_leaves=150)
    note_programs(out, g)
    subs = []
    table = {h["h"]: h for h in hs}
    for i, p in enumerate(g.programs):
        lays = [x for x in styles.kinds(p, table) if x != "glsl"]
        subs.append(codec.Subject("", p["decls"][-1]["t"], lays, prog=i, label=styles.describe(p)))
    n = 6 if thorough() else 2
    derive_and_use(out, g.programs, subs, hs, n, "odd", True, editions=("2018", "2024"))
    # inner structs in another package, of this or another edition
    for mine, theirs in (("2021", "2021"), ("2024", "2018")) + ((("2018", "2024"), ("2021", "2024")) if thorough() else ()):
        a = generator(out)
        a.family("apart" + mine + theirs, "BaseMembers", [1, 1, 1], [3, 3, 4], refs=True, need=True, simulate=60 * k, max_leaves=90, styles="ApartStyles", **odd)
        subs = [codec.Subject("", p["decls"][-1]["t"], [x for x in styles.kinds(p, table) if x != "glsl"], prog=i, label=styles.describe(p))
                for i, p in enumerate(a.programs)]
        derive_and_use(out, a.programs, subs, hs, 1, "apart" + mine + theirs, False, apart=(mine, theirs))
        out.notes["families"].update(a.families)
    # long structs, in a package of their own: they must also compile in reasonable time
    w = generator(out)
    for m in (32, 64, 128, 200) + ((256,) if thorough() else ()):
        w.family("wide%d" % m, "Classes", [m], [m], simulate=2, max_leaves=3000)
    out.notes["families"].update(w.families)
    subs = [codec.Subject("", p["decls"][-1]["t"], list(BOTH), prog=i, label="a struct of %d fields: %s" % (len(p["decls"][-1]["fields"]), codec.render(p)))
            for i, p in enumerate(w.programs)]
    derive_and_use(out, w.programs, subs, hs, 1, "wide", False, build_timeout=240)


def derive_and_use(out, programs, subs, hs, n, name, math, build_timeout=None, editions=(), apart=None):
    rec = styles.StyledRecording(out, out.workdir, programs, subs, math=math, name=name, hosts=hs)
    if apart:
        rec.edition, rec.apart_edition = apart
    rec.build_timeout = build_timeout
    if not rec.build():
        return
    say("built", name)
    lines = rec.record(vectors=n, gpu=n)
    differing = []
    for k, edition in enumerate(editions):
        # some of them in packages of other editions, where they have to do the same
        part = [i for i in range(len(programs)) if i not in rec.rejected and (thorough() or i % codec.SHARDS in (3 * k, 3 * k + 1))]
        other = styles.StyledRecording(out, out.workdir, programs, subs, math=math, name=name + edition, hosts=hs)
        other.edition, other.rejected = edition, set(range(len(programs))) - set(part)
        if not other.build():
            continue
        again = other.record(vectors=n, gpu=n)
        known = set(lines)
        new = [x for x in again if x not in known]
        out.notes.setdefault("editions", {})[edition] = {"recorded": len(again), "differing": len(new)}
        say("edition", edition, "recorded", len(again), "of which", len(new), "differ")
        if not again and not out.violations:
            raise common.ToolError("nothing was recorded in edition " + edition)
        differing += [x for x in new if x.startswith('{"ty"')]
        for x in new:
            if not x.startswith('{"ty"'):
                out.violation({"kind": "edition", "rules": ["compile"], "text": "a declaration differs in edition %s: %s" % (edition, x[:300])})
    ss = glsl.assemble(programs, [], [x for x in lines if x.startswith('{"program"')])
    lines = [x for x in lines if x.startswith('{"ty"')]
    say("recorded", len(lines), "sessions and", len(ss), "declarations")
    expected = sum(len(s.lays) for s in subs)
    if len(lines) != expected and not out.violations:
        raise common.ToolError("%d sessions recorded, %d expected" % (len(lines), expected))
    if not lines and not out.violations:
        raise common.ToolError("nothing was recorded of " + name)
    if not lines:
        return
    codec.judge(out, out.workdir, subs, lines + differing, codec.ALL_RULES, name=name + "_judge")
    if ss:
        # names here need not be GLSL's, so only the rules that do not depend on them
        glsl.judge(out, ss, ["syntax", "name constant", "field list", "member types"], name=name + "_glsl")
    say("judged", name)


def writer_models(out):
    model(out, "BufferImpl_Plain", "BufferImpl")
    model(out, "BufferImpl_Late", "BufferImpl", expect_error=True)
    model(out, "BufferImpl_Deep" if thorough() else "BufferImpl_Faults", "BufferImpl")


def c06(out):
    proof = unbounded.Proof(out, "UnboundedBuffer")
    model(out, "BufferImpl_Plain", "BufferImpl")
    buffers.placement(out, hosts(out), generator(out), thorough())
    wide.far(out, thorough(), sizer=False)
    proof.finish()


def c07(out):
    proof = unbounded.Proof(out, "UnboundedBuffer") if thorough() else None
    model(out, "BufferImpl_Plain", "BufferImpl")
    buffers.sizing(out, hosts(out), generator(out), thorough())
    wide.far(out, thorough())
    if proof:
        proof.finish()


def c08(out):
    model(out, "BufferImpl_Plain", "BufferImpl")
    buffers.sequences(out, hosts(out), generator(out), thorough())


def c09(out):
    proof = unbounded.Proof(out, "UnboundedBuffer") if thorough() else None
    writer_models(out)
    buffers.faults(out, hosts(out), generator(out), thorough())
    if proof:
        proof.finish()


def c14(out):
    hs = hosts(out)
    buffers.learn_names(hs)
    buffers.arrays(out, hs, generator(out), thorough())


def c18(out):
    admit.check(out)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C14": c14, "C15": c15, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C16": c16, "C17": c17, "C18": c18}


def run(prop):
    out = report.Outcome(prop)
    out.workdir = os.path.join(common.BUILD, "work", prop)
    os.makedirs(out.workdir, exist_ok=True)
    CHECKS[prop](out)
    return out.finish()
