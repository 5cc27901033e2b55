"""Conversion sessions: compile programs and host types, record, validate against Codec."""
import copy, json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import cargo, codegen, common, tlc

SHARDS = 8
ALL_RULES = ["align", "size", "place", "pad", "determinism", "bool", "length", "read", "roundtrip", "cast", "panic"]


class Subject:
    """A type to record: rust path, term, layouts, and (for derived ones) its program."""

    def __init__(self, rust, term, lays, prog=None, label=None):
        self.rust, self.term, self.lays, self.prog = rust, term, lays, prog
        self.label = label or rust


def subjects_of_programs(programs, lays, all_decls=False):
    out = []
    for i, p in enumerate(programs):
        ds = p["decls"] if all_decls else p["decls"][-1:]
        for d in ds:
            out.append(Subject("p%d::%s" % (i, codegen.ident(d["name"])), d["t"], [x for x in lays if x in codegen.lays_of(p)], prog=i, label=render(p)))
    return out


def render(p):
    return " ".join("struct %s { %s }" % (d["name"], ", ".join("%s: %s" % (f["n"], f["h"]) for f in d["fields"])) for d in p["decls"])


def subjects_of_hosts(hosts, lays=("std140", "std430")):
    return [Subject(h["h"], h["t"], [l for l in h["lays"] if l in lays]) for h in hosts if set(h["lays"]) & set(lays)]


class Recording:
    """Builds the crate and records; programs that do not compile become violations."""

    def __init__(self, out, workdir, programs, subjects, lays=("std140", "std430"), std=True, math=False, release=False,
                 name="rec", extra=(), derives=(), features=None, target=None, no_std=False, extra_deps=""):
        self.extra_deps = extra_deps
        self.features, self.target, self.no_std = features, target, no_std
        self.derives = list(derives)
        self.out, self.programs, self.subjects = out, programs, subjects
        self.lays, self.std, self.math, self.release = lays, std, math, release
        self.extra = list(extra)     # further statements of main, dealt to the shards
        self.dir = os.path.join(workdir, name)
        self.name = name
        self.build_timeout = None       # where a slow build is a verdict: seconds
        self.rejected = set()    # programs
        self.rejected_subjects = set()
        self.sessions = []

    def sources(self):
        files, self.lines = {}, {}
        for k in range(SHARDS):
            text = codegen.NO_STD_PRELUDE if self.no_std else codegen.PRELUDE
            spans = []
            for i in range(k, len(self.programs), SHARDS):
                if i in self.rejected:
                    continue
                start = text.count("\n") + 1
                text += codegen.program_module("p%d" % i, self.programs[i], derives=self.derives, lays=self.lays)
                spans.append((start, text.count("\n"), "p", i))
            text += "fn main() {\n    let mut log = rt::Log::new();\n"
            for j, s in enumerate(self.subjects):
                shard = (s.prog if s.prog is not None else j) % SHARDS
                if shard != k or s.prog in self.rejected or j in self.rejected_subjects:
                    continue
                for lay in s.lays:
                    start = text.count("\n") + 1
                    text += "    rt::record!(&mut log, %d, %s, %s);\n" % (j, s.rust, lay)
                    spans.append((start, start, "s", j))
            for i in range(k, len(self.programs), SHARDS):
                if i not in self.rejected:
                    for x in self.statements(i):
                        start = text.count("\n") + 1
                        text += "    %s\n" % x
                        spans.append((start, start, "p", i))
            for x in [x for x in self.extra if x[0] != "#"][k::SHARDS]:
                text += "    %s\n" % x
            for x in self.extra:
                # "#i ..." is about program i
                if x[0] == "#" and int(x[1:].split()[0]) % SHARDS == k and int(x[1:].split()[0]) not in self.rejected:
                    text += "    %s\n" % x.split(" ", 1)[1]
            text += "}\n"
            fn = "s%d.rs" % k
            files[fn] = text
            self.lines["src/bin/" + fn] = spans
        return files

    def more_files(self):
        return {}

    def packages(self):
        """Further packages the programs are spread over: name -> (edition, text)."""
        return {}

    def foreign(self, e):
        """Called when a build fails outside the generated programs."""
        raise common.ToolError("the build failed outside the generated programs:\n" + e.text[-6000:])

    def statements(self, i):
        """Further statements of main about program i."""
        return []

    def attribute(self, spans):
        hit = set()
        for f, a, b in spans:
            for lo, hi, kind, ix in self.lines.get(f, []):
                if lo <= a <= hi:
                    hit.add((kind, ix))
        return hit

    def build(self):
        target = os.path.join(common.BUILD, self.target or "target-" + ("std" if self.std else "core") + ("-math" if self.math else ""))
        for attempt in range(4):
            codegen.crate(self.dir, "gen", dict(self.sources(), **self.more_files()), std=self.std, math=self.math, features=self.features, extra_deps=self.extra_deps,
                          edition=self.edition, packages=self.packages())
            try:
                self.bindir = cargo.build(self.dir, target, release=self.release, timeout=self.build_timeout or 700)
                self.twin = cargo.Twin(self.out, self.dir, target) if self.again else None
                return True
            except cargo.BuildTimeout as e:
                if not self.build_timeout:
                    raise common.ToolError(str(e))
                self.out.violation({"kind": "rejected", "rules": ["compile"], "program": [s.label for s in self.subjects][:4],
                                    "text": "rustc does not finish with supported programs in %d s" % self.build_timeout})
                return False
            except cargo.BuildError as e:
                blamed = {}
                for msg, spans, rendered, tgt, pkg in e.errors:
                    for h in self.attribute(spans):
                        blamed.setdefault(h, (msg, rendered))
                if not blamed:
                    self.foreign(e)
                    return False
                for (kind, ix), (msg, rendered) in sorted(blamed.items()):
                    if kind == "p":
                        self.rejected.add(ix)
                        label = render(self.programs[ix])
                    else:
                        s = self.subjects[ix]
                        self.rejected_subjects.add(ix)
                        label = s.label
                    self.out.violation({"kind": "rejected", "rules": ["compile"], "program": label, "error": rendered[:3000],
                                        "text": "rustc rejects a supported program: %s: %s" % (label[:300], msg[:300])})
        raise common.ToolError("the build keeps failing")

    edition = "2021"    # of the user's package
    again = False       # record once more without debug assertions

    def differing(self, lines, vectors=2, gpu=1):
        """Sessions recorded otherwise without debug assertions."""
        return self.twin.differing(lines, lambda bindir: self.record(vectors, gpu, bindir)) if self.twin else []

    def record(self, vectors=2, gpu=1, bindir=None):
        """Runs the binaries; returns lines of sessions."""
        env = {"VERIF_SEED": common.SEED, "H_VECTORS": vectors, "H_GPU": gpu}
        with ThreadPoolExecutor(SHARDS) as ex:
            ps = list(ex.map(lambda k: cargo.run(os.path.join(bindir or self.bindir, "s%d" % k), env=env), range(SHARDS)))
        lines = []
        for k, p in enumerate(ps):
            if "harness" in p.stderr:
                raise common.ToolError("the harness failed: " + p.stderr[-2000:])
            if p.returncode != 0:
                self.out.violation({"kind": "crash", "rules": ["panic"], "text": "a recording program ended with status %d: %s"
                                    % (p.returncode, p.stderr[-600:])})
            lines += [x for x in p.stdout.splitlines() if x.endswith("]}")]
        return lines


def corrupt(session, rule):
    """A copy of a session with one fault of the given rule planted, or None."""
    s = copy.deepcopy(session)
    ev = s["ev"]
    ups = [e for e in ev if e["e"] == "up"]
    if rule == "align":
        s["align"] *= 2
        return s
    if rule == "size":
        s["size"] += 4
        return s
    for i, e in enumerate(ev):
        if rule == "bool" and e["e"] == "scan":
            e["falses"][1] += 1
            return s
        if rule in ("place", "bool") and e["e"] == "up":
            if rule == "bool" and not any(len(v) == 4 and v == [1, 0, 0, 0] for v in e["v"]):
                continue
            for j, b in enumerate(e["img"]):
                if b != 0:
                    e["img"][j] = 2 if b != 2 else 3
                    return s
        if rule == "pad" and e["e"] == "up" and all(all(v) for v in e["v"]):
            for j, b in enumerate(e["img"]):
                if b == 0:
                    e["img"][j] = 1
                    return s
        if rule == "length" and e["e"] == "up":
            e["size"] += 1
            return s
        if rule in ("read", "roundtrip") and e["e"] == "down":
            if rule == "roundtrip" and ev[i - 1]["e"] != "up" or rule == "read" and ev[i - 1]["e"] == "up":
                continue
            e["v"][-1][0] ^= 1
            return s
        if rule == "cast" and e["e"] == "cast":
            e["img"][-1] ^= 1
            return s
    if rule == "determinism" and len(ups) > 1 and ups[0]["v"] == ups[1]["v"] and len(ups[1]["img"]) > 0:
        ups[1]["img"][-1] ^= 1
        return s
    return None


def judge(out, workdir, subjects, lines, rules, name="judge", controls=True, per_file=6000):
    """TLC decides every session; planted faults must be rejected, and only they."""
    d = os.path.join(workdir, name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "types.ndjson"), "w") as f:
        for s in subjects:
            f.write(json.dumps({"t": s.term}) + "\n")
    rejects = []
    for start in range(0, len(lines), per_file):
        chunk = lines[start:start + per_file]
        planted = []
        if controls:
            for rule in rules:
                if rule == "panic":
                    continue
                n = 0
                for x in chunk[::max(1, len(chunk) // 40)] + chunk:
                    c = corrupt(json.loads(x), rule)
                    if c is not None:
                        planted.append((rule, json.dumps(c)))
                        n += 1
                        if n == 2:
                            break
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            f.write("\n".join(chunk + [p[1] for p in planted]) + "\n")
        cfg = 'SPECIFICATION Spec\nCONSTANTS\n TypesFile = "types.ndjson"\n TraceFile = "trace.ndjson"\n Checked <- c_checked\nCHECK_DEADLOCK FALSE\n'
        body = "c_checked == {%s}" % ", ".join('"%s"' % r for r in rules)
        r = tlc.run("TraceRun", body, cfg, "TraceCodec", d, timeout=800)
        if not r.ok:
            raise common.ToolError("TLC failed on the recorded sessions:\n" + r.out[-4000:])
        parsed = [json.loads(x) for x in chunk]
        steps = sum(len(s["ev"]) + 2 for s in parsed) + sum(len(json.loads(p[1])["ev"]) + 2 for p in planted)
        if r.distinct != steps:
            raise common.ToolError("TLC read %d of %d steps of the recorded sessions" % (r.distinct, steps))
        out.add_states(r)
        out.cov["traces_validated_against_impl"] += len(chunk)
        missed = set(range(len(chunk), len(chunk) + len(planted)))
        fresh = []
        for x in r.lines:
            if "faults" not in x:
                continue
            i = x["s"] - 1
            if i >= len(chunk):
                missed.discard(i)
                continue
            fresh.append((x, parsed[i]))
        rejects += fresh
        if missed and not fresh:
            raise common.ToolError("planted faults were not rejected: %s" % [planted[i - len(chunk)] for i in sorted(missed)][:2])
        out.notes["planted_faults_rejected"] = out.notes.get("planted_faults_rejected", 0) + len(planted) - len(missed)
        out.notes["events"] = out.notes.get("events", 0) + sum(len(s["ev"]) for s in parsed)
    for x, s in rejects:
        sub = subjects[x["ty"]]
        e = s["ev"][x["l"] - 1] if x["l"] > 0 else {k: s[k] for k in ("align", "size")}
        out.violation({"kind": "trace", "rules": sorted(x["faults"]), "layout": x["lay"], "program": sub.label,
                       "type": sub.term, "step": x["l"], "event": e,
                       "text": "%s of %s breaks %s at step %d: %s" % (x["lay"], sub.label[:300], sorted(x["faults"]), x["l"], json.dumps(e)[:300])})
    return len(rejects)
