"""What the compiler accepts: uses from GenAdmit compiled against the real crate, decided by TraceAdmit."""
import json, os, random, re
from . import cargo, codegen, common, tlc
from .common import say

SHARDS = 8
TRAIT = {"std140": "AsStd140", "std430": "AsStd430", "glsl": "GlslStruct"}
PRELUDE = """#![allow(warnings)]
use rt::{Colour, User};
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Plain { pub a: f32, pub b: f32 }
unsafe impl bytemuck::Zeroable for Plain {}
unsafe impl bytemuck::Pod for Plain {}
#[derive(Clone, Copy)]
#[repr(u32)]
pub enum Choice { Yes = 1, No = 0 }
#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430)]
pub struct Mixed { pub a: f32, pub b: mint::Vector3<f32> }
#[derive(crevice::std140::AsStd140)]
pub struct Only140 { pub a: f32, pub b: mint::Vector3<f32> }
#[derive(crevice::std430::AsStd430)]
pub struct Only430 { pub a: f32, pub b: mint::Vector3<f32> }
"""
ONLY_GLSL = "pub struct OnlyGlsl { pub a: f32, pub b: mint::Vector3<f32> }\n"
DERIVED = "#[derive(crevice::glsl::GlslStruct)]\n" + ONLY_GLSL
BY_HAND = ONLY_GLSL + "unsafe impl crevice::glsl::Glsl for OnlyGlsl { const NAME: &'static str = \"OnlyGlsl\"; }\n"



DECLARATIONS = ("named", "tuple", "unit", "enum", "union", "fieldless", "numbered", "never", "variant", "positional", "transparent")


def text(u):
    f, k, ts = u["form"], u["kind"], u["types"]
    if f in DECLARATIONS:
        named = ", ".join("f%d: %s" % x for x in enumerate(ts))
        body = {"named": "struct S { %s }" % named, "tuple": "struct S(%s);" % ", ".join(ts), "unit": "struct S;",
                "enum": "enum S { A { %s }, B }" % named, "union": "union S { %s }" % named,
                "fieldless": "enum S { A, B }", "numbered": "enum S { A = 1, B = 0 }", "never": "enum S {}", "variant": "enum S { A { %s } }" % named,
                "positional": "enum S { A(%s) }" % ", ".join(ts), "transparent": "struct S(%s);" % ", ".join(ts)}[f]
        body = {"numbered": "#[repr(u32)] ", "transparent": "#[repr(transparent)] "}.get(f, "") + "pub " + body
        return "#[derive(crevice::%s::%s)] %s" % (k, TRAIT[k], body)
    t, m = ts[0], "crevice::" + k
    return {
        "convert": "fn f(x: &%s) { let _ = %s::%s::as_%s(x); }" % (t, m, TRAIT[k], k),
        "read": "fn f(x: <%s as %s::%s>::Output) { let _ = <%s as %s::%s>::from_%s(x); }" % (t, m, TRAIT[k], t, m, TRAIT[k], k),
        "valuesize": "fn f(x: &%s) -> usize { %s::Write%s::%s_size(x) }" % (t, m, TRAIT[k][2:], k),
        "write": "fn f(w: &mut %s::Writer<Vec<u8>>, x: &%s) { let _ = w.write(x); }" % (m, t),
        "slice": "fn f(w: &mut %s::Writer<Vec<u8>>, x: &[%s]) { let _ = w.write(x); }" % (m, t),
        "iter": "fn f(w: &mut %s::Writer<Vec<u8>>, x: Vec<%s>) { let _ = w.write_iter(x); }" % (m, t),
        "size": "fn f(z: &mut %s::Sizer) { let _ = z.add::<%s>(); }" % (m, t),
        "wrap": "fn f(x: &crevice::std140::DynamicUniform<%s>) { let _ = crevice::std140::AsStd140::as_std140(x); }" % t,
        "name": "fn f() -> &'static str { <%s as crevice::glsl::Glsl>::NAME }" % t,
    }[f]


def generate(out):
    body = ('c_usual == { HostFor(t) : t \\in { Scalar("float"), Scalar("bool"), Vec("float", 2), Vec("float", 3), Vec("uint", 3), Vec("bool", 4), '
            'Vec("double", 3), Mat("float", 3), Mat("double", 2) } } \\cup { UserHost(3, 4), ColourHost } \\cup WrappedAll({ HostFor(Vec("float", 3)) })\n'
            '  \\cup OwnHosts("std140") \\cup OwnHosts("std430")')
    cfg = "SPECIFICATION Spec\nCONSTANT Usual <- c_usual\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    r = tlc.run("Uses", body, cfg, "GenAdmit", os.path.join(out.workdir, "gen"))
    if not r.ok:
        raise common.ToolError("TLC failed generating uses:\n" + r.out[-3000:])
    out.add_states(r)
    uses = sorted(r.lines, key=lambda u: json.dumps(u, sort_keys=True))
    random.Random(3).shuffle(uses)      # spreads what is costly over the shards
    return uses


def compile_all(out, uses, name, std, math):
    """Which of the uses does rustc let through?  What it complains about is taken out until it complains no more,
    as an early complaint can hide others."""
    d = os.path.join(out.workdir, name)
    target = os.path.join(common.BUILD, "target-" + ("std" if std else "core") + ("-math" if math else ""))
    refused = {}
    for attempt in range(8):
        files, lines = {}, {}
        for k in range(SHARDS):
            s = PRELUDE + (DERIVED if std else BY_HAND)
            for i in range(k, len(uses), SHARDS):
                if i in refused:
                    continue
                lines["src/bin/u%d.rs" % k, s.count("\n") + 1] = i
                s += "pub mod m%d { use super::*; %s }\n" % (i, text(uses[i]))
            files["u%d.rs" % k] = s + "fn main() {}\n"
        codegen.crate(d, "gen", files, std=std, math=math)
        try:
            cargo.build(d, target)
            say(name, "rounds", attempt + 1, "accepted", len(uses) - len(refused), "refused", len(refused))
            return refused
        except cargo.BuildTimeout as e:
            raise common.ToolError(str(e))
        except cargo.BuildError as e:
            before = len(refused)
            for msg, spans, rendered, tgt, pkg in e.errors:
                for f, a, b in spans:
                    if (f, a) in lines:
                        refused.setdefault(lines[f, a], msg)
            if len(refused) == before:
                raise common.ToolError("the build failed outside the generated programs:\n" + e.text[-6000:])
    raise common.ToolError("the build keeps failing")


def foreign(u):
    return any(re.search(r"\b(cgmath|glam|nalgebra)::", t) for t in u["types"])


def check(out):
    every = generate(out)
    say("uses", len(every))
    for name, std, math in (("math", True, True), ("plain", True, False), ("core", False, False)):
        uses = [u for u in every if math or not foreign(u)]
        if not std:
            # writers and declarations in GLSL are there with the standard library only
            uses = [u for u in uses if u["form"] not in ("write", "slice", "iter", "valuesize") and (u["kind"] != "glsl" or u["form"] == "name")]
        judge(out, uses, compile_all(out, uses, name, std, math), name)


def judge(out, uses, refused, name):
    events = [dict(u, accepted=i not in refused) for i, u in enumerate(uses)]
    # planted: one of each outcome, turned round
    planted = [dict(next(e for e in events if e["accepted"] == b), accepted=not b) for b in (True, False)]
    d = os.path.join(out.workdir, "judge_" + name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "trace.ndjson"), "w") as f:
        f.write("".join(json.dumps(e) + "\n" for e in events + planted))
    r = tlc.run("AdmitRun", "", 'SPECIFICATION Spec\nCONSTANT TraceFile = "trace.ndjson"\nCHECK_DEADLOCK FALSE\n', "TraceAdmit", d, workers=1)
    if not r.ok or r.distinct != len(events) + len(planted) + 1:
        raise common.ToolError("TLC failed on the uses:\n" + r.out[-3000:])
    out.add_states(r)
    out.cov["traces_validated_against_impl"] += len(events)
    found = set()
    for x in r.lines:
        i = x["l"] - 1
        if i >= len(events):
            found.add(i)
            continue
        u = events[i]
        out.violation({"kind": "admission", "rules": x["faults"], "use": u, "error": refused.get(i),
                       "text": "%s by rustc (%s): %s%s" % (x["faults"][0], name, text(u), ": " + refused[i] if i in refused else "")})
    if len(found) != len(planted) and not out.violations:
        raise common.ToolError("planted faults were not rejected")
    out.notes["planted_faults_rejected"] = out.notes.get("planted_faults_rejected", 0) + len(found)
    forms = out.notes.setdefault("uses", {})
    for e in events:
        k = "%s %s %s" % (name, e["form"], e["kind"])
        forms.setdefault(k, [0, 0])[0 if e["accepted"] else 1] += 1
    out.sample({"use": text(events[0]), "accepted": events[0]["accepted"]})
    out.sample({"use": text(events[-1]), "accepted": events[-1]["accepted"]})
