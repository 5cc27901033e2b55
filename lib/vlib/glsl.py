"""Generated GLSL declarations: recorded, cut into tokens, decided by TraceGlsl."""
import copy, json, os, re
from . import codec, codegen, common, tlc
from .common import say

TOKEN = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|([A-Za-z_][A-Za-z0-9_]*|.)", re.S)
RULES = ["syntax", "struct name", "member names", "name constant", "field list", "member types", "relayout", "type name"]


def tokens(text):
    return [m.group(1) for m in TOKEN.finditer(text) if m.group(1) is not None]


def record(out, programs, hosts, vectors, math=True, name="glsl"):
    subs = codec.subjects_of_programs(programs, codec_lays())
    extra = []
    for j, h in enumerate(hosts):
        extra.append("rt::glsl_name::<%s>(&mut log, %d);" % (h["h"], j))
    rec = GlslRecording(out, out.workdir, programs, subs, math=math, name=name, extra=extra, derives=["crevice::glsl::GlslStruct"])
    rec.again = True
    rec.build()
    say("built", name)
    lines = rec.record(vectors=vectors, gpu=0)
    other = rec.differing(lines, vectors, 0)
    if other:
        # what differs, in place of what it differs from
        key = lambda e: (e.get("program"), e.get("decl"), e.get("host"), e.get("ty"), e.get("lay"))
        new = {key(json.loads(x)): x for x in other}
        second = assemble(programs, hosts, [new.get(key(json.loads(x)), x) for x in lines])
        first = assemble(programs, hosts, lines)
        return first + [s for s in second if s not in first], subs
    return assemble(programs, hosts, lines), subs


def codec_lays():
    return ["std140", "std430"]


class GlslRecording(codec.Recording):
    def statements(self, i):
        return ["rt::glsl_struct::<p%d::%s>(&mut log, %d, %d);" % (i, codegen.ident(d["name"]), i, k)
                for k, d in enumerate(self.programs[i]["decls"])]


def assemble(programs, hosts, lines):
    """Sessions for TraceGlsl: one per program, one per host type."""
    got, bytes_, names = {}, {}, []
    for x in lines:
        e = json.loads(x)
        if not x.isascii() or "\\u" in x:
            x = json.dumps(e, ensure_ascii=False)
            for name, spelled in codegen.UNICODE.items():
                x = x.replace(spelled, name)
            e = json.loads(x)
        if "program" in e:
            got.setdefault(e["program"], {})[e["decl"]] = {"tokens": tokens(e["text"]), "const": e["const"], "fields": e["fields"], "text": e["text"]}
        elif "host" in e:
            names.append({"program": -1, "want": [], "got": [], "bytes": [], "hosts": [{"name": e["name"], "t": hosts[e["host"]]["t"]}],
                          "label": hosts[e["host"]]["h"]})
        else:
            ups = [{"v": u["v"], "img": u["img"]} for u in e["ev"] if u["e"] == "up"]
            bytes_.setdefault(e["ty"], []).append({"lay": e["lay"], "align": e["align"], "size": e["size"], "ups": ups})
    ss = []
    for i, p in enumerate(programs):
        if i not in got:
            continue
        ds = p["decls"]
        if len(got[i]) != len(ds):
            raise common.ToolError("a program's declarations were not all recorded")
        ss.append({"program": i, "label": codec.render(p), "hosts": [], "bytes": bytes_.get(i, []),
                   "want": [{"name": d["name"], "names": [f["n"] for f in d["fields"]], "t": d["t"]} for d in ds],
                   "got": [got[i][k] for k in range(len(ds))]})
    return ss + names


def corrupt(s, rule):
    s = copy.deepcopy(s)
    g = s["got"]
    if rule == "type name":
        if not s["hosts"]:
            return None
        s["hosts"][0]["name"] += "x"
        return s
    if not g:
        return None
    tk = g[-1]["tokens"]
    if rule == "syntax":
        del tk[-2]
    elif rule == "struct name":
        tk[1] += "1"
        g[-1]["const"] += "1"
    elif rule == "member names":
        if len(tk) < 12:
            return None
        tk[4], tk[7] = tk[7], tk[4]
        f = g[-1]["fields"]
        f[0][1], f[1][1] = f[1][1], f[0][1]
    elif rule == "name constant":
        g[-1]["const"] += "_"
    elif rule == "field list":
        g[-1]["fields"].pop()
    elif rule == "member types":
        if tk[3] != "float":
            return None
        tk[3] = g[-1]["fields"][0][0] = "int"
    elif rule == "relayout":
        if not s["bytes"] or not s["bytes"][0]["ups"]:
            return None
        s["bytes"][0]["size"] += 16
    return s


def judge(out, sessions, rules=RULES, name="glsl_judge"):
    d = os.path.join(out.workdir, name)
    os.makedirs(d, exist_ok=True)
    planted = []
    for rule in rules:
        n = 0
        for s in sessions[::max(1, len(sessions) // 40)] + sessions[::-1]:
            c = corrupt(s, rule)
            if c is not None:
                planted.append((rule, c))
                n += 1
                if n == 2:
                    break
    every = sessions + [p[1] for p in planted]
    with open(os.path.join(d, "trace.ndjson"), "w") as f:
        for s in every:
            s = {k: s[k] for k in ("want", "got", "bytes", "hosts")}
            f.write(json.dumps(dict(s, got=[{k: g[k] for k in ("tokens", "const", "fields")} for g in s["got"]])) + "\n")
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n TraceFile = "trace.ndjson"\n Checked <- c_checked\nCHECK_DEADLOCK FALSE\n'
    r = tlc.run("GlslRun", "c_checked == {%s}" % ", ".join('"%s"' % x for x in rules), cfg, "TraceGlsl", d, timeout=800)
    if not r.ok:
        raise common.ToolError("TLC failed on the recorded declarations:\n" + r.out[-4000:])
    steps = sum(len(s["got"]) + len(s["bytes"]) + len(s["hosts"]) + 1 for s in every)
    if r.distinct != steps:
        raise common.ToolError("TLC read %d of %d steps" % (r.distinct, steps))
    out.add_states(r)
    out.cov["traces_validated_against_impl"] += len(sessions)
    missed = set(range(len(sessions), len(every)))
    real = []
    for x in r.lines:
        if "faults" not in x:
            continue
        i = x["s"] - 1
        if i >= len(sessions):
            if planted[i - len(sessions)][0] in x["faults"]:
                missed.discard(i)
        else:
            real.append((x, sessions[i]))
    if missed and not real:
        raise common.ToolError("planted faults were not rejected: %s" % [planted[i - len(sessions)][0] for i in sorted(missed)])
    out.notes["planted_faults_rejected"] = out.notes.get("planted_faults_rejected", 0) + len(planted) - len(missed)
    for x, s in real:
        texts = [g["text"] for g in s["got"]] or s["hosts"]
        out.violation({"kind": "trace", "rules": sorted(x["faults"]), "program": s["label"], "declarations": texts,
                       "text": "GLSL of %s breaks %s: %s" % (s["label"][:300], sorted(x["faults"]), json.dumps(texts)[:400])})
    say("judged", name, "rejects", len(real))


def names_fit(p):
    """GLSL is case sensitive and has one name space: no member named like a struct of the program."""
    structs = [d["name"] for d in p["decls"]]
    return all(f["n"] not in structs for d in p["decls"] for f in d["fields"])
