"""Mutation campaign: python3 tools/mutate.py [file substring]   (not a check; nothing reads its results)

Every small syntactic change to crevice's non-test sources that builds and passes the stable tests is
given to the checks of the properties the file is about, until one of them reports a violation.
Results go to $MUT/results.ndjson (default /tmp/mut).
"""
import json, os, random, re, subprocess, sys
import seed
MUT = os.environ.get("MUT", "/tmp/mut")
seed.SCRATCH = os.path.join(MUT, "work")

CHECKS = {
    "crevice-derive/src/layout.rs": ["C15", "C01", "C02", "C04", "C05"],
    "crevice-derive/src/glsl.rs": ["C11", "C15"],
    "crevice-derive/src/lib.rs": ["C01", "C02", "C11"],
    "src/internal.rs": ["C01", "C06", "C07", "C12"],
    "src/bool.rs": ["C13", "C05"],
    "src/glsl.rs": ["C11"],
    "src/util.rs": ["C10", "C03", "C05", "C11"],
    "src/imp": ["C10", "C03", "C11", "C15"],
    "primitives.rs": ["C03", "C11", "C13", "C05", "C04"],
    "sizer.rs": ["C07", "C12"],
    "writer.rs": ["C06", "C08", "C09", "C07", "C14"],
    "traits.rs": ["C07", "C08", "C06", "C05", "C17", "C14"],
    "dynamic_uniform.rs": ["C12", "C05", "C17", "C07"],
    "lib.rs": ["C16", "C15"],
}
SWAPS = [(r" > ", [" >= ", " < "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" % ", [" / "]), (r" \+= ", [" -= ", " = "]), (r" - ", [" + "]), (r" \+ ", [" - "]),
         (r"\|\|", ["&&"]), (r"\.\.=", [".."]), (r"\?;$", [".ok();"]), (r"\?;$", [".unwrap();"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b256\b", ["128", "255", "512"]),
         (r"\b(4|8|16|32)\)", ["D)", "H)"]), (r"= (4|8|16|32);", ["= D;", "= H;"]), (r"; 2\]", ["; 1]", "; 3]"]),
         (r"\(x, y", ["(y, x"]), (r"y, z", ["z, y"]), (r"z, w", ["w, z"]), (r"\bx: ", ["y_: "]), (r"!= 0", ["== 1", "> 1"]), (r"\bi?u?b?d?(vec|mat)([234])\b", ["V"]),
         (r"f64", ["f32"]), (r"u32", ["i32"]), (r'"(float|double|int|uint|bool)"', ['"float"', '"uint"', '"double"']), (r"\bmax\(", ["::core::cmp::Ord::max("]),
         (r"write_all", ["write"]), (r"\.starts_with", [".ends_with"]), (r"'\\t'", ["'x'"]), (r'" \{\\n"', ['" \\n"']), (r'";\\n"', ['"\\n"', '",\\n"']), (r'"\};"', ['"}"']),
         (r"\.unraw\(\)", [""]), (r"\.fuse\(\)", [""]), (r"std140", ["std430"]), (r"Vec(\d)\b", ["N"]), (r"Mat(\d)\b", ["N"]), (r"size_of::", ["align_of::"]),
         (r"ALIGNMENT", ["ALIGNMENT / 2", "ALIGNMENT * 2"]), (r"#\[repr\(C\)\]", [""]), (r"\bas u32\b", ["as u32 * 255"]), (r"\bself\.0\b", ["!self.0"])]


def mutants(repo):
    fs = subprocess.run("git ls-files src crevice-derive/src | grep rs$", shell=True, cwd=repo, capture_output=True, text=True).stdout.split()
    for f in fs:
        text = open(os.path.join(repo, f)).read()
        lines = text.split("\n")
        doc = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                break
            if s.startswith("/**") or s.startswith("/*!"):
                doc = True
            if doc:
                doc = "*/" not in s
                continue
            if not s or s.startswith("//") or s.startswith("use ") or s.startswith("pub use"):
                continue
            made = set()
            for pat, news in SWAPS:
                for m in re.finditer(pat, l):
                    for new in news:
                        t = new
                        if "D" in new and m.groups():
                            t = new.replace("D", str(int(m.group(1)) * 2))
                        elif "H" in new and m.groups():
                            t = new.replace("H", str(int(m.group(1)) // 2))
                        elif new == "V":
                            t = m.group(0)[:-1] + str({"2": 3, "3": 4, "4": 2}[m.group(2)])
                        elif new == "N":
                            t = m.group(0)[:-1] + str({"2": 3, "3": 4, "4": 2}.get(m.group(1), 2))
                        made.add(l[:m.start()] + t + l[m.end():])
            if s.endswith(";") and not s.startswith(("let", "const", "type", "mod", "pub mod", "pub const", "fn")) or s.endswith(",") and "quote" not in s:
                made.add("")
            made.discard(l)
            for x in sorted(made):
                yield f, i, l, x
        # two neighbouring lines exchanged
        for i in range(len(lines) - 1):
            a, b = lines[i].strip(), lines[i + 1].strip()
            if "primitives" in f and re.match(r"[xyzw]: |_pad", a) and re.match(r"[xyzw]: |_pad", b):
                yield f, i, lines[i] + "\n" + lines[i + 1], lines[i + 1] + "\n" + lines[i]


def checks_for(f):
    for k, v in CHECKS.items():
        if k in f:
            return v
    return ["C16"]


def main():
    only = sys.argv[1] if len(sys.argv) > 1 else ""
    os.makedirs(MUT, exist_ok=True)
    res = os.path.join(MUT, "results.ndjson")
    done = set()
    if os.path.exists(res):
        for l in open(res):
            d = json.loads(l)
            done.add((d["f"], d["i"], d["new"]))
    dst = seed.copy()
    todo = [m for m in mutants(dst) if only in m[0]]
    random.Random(1).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    env = {"CARGO_TARGET_DIR": os.path.join(seed.SCRATCH, "target")}
    for f, i, old, new in todo:
        if (f, i, new) in done:
            continue
        dst = seed.copy()
        p = os.path.join(dst, f)
        text = open(p).read().split("\n")
        n = old.count("\n") + 1
        text[i:i + n] = new.split("\n")
        open(p, "w").write("\n".join(text))
        r = {"f": f, "i": i, "old": old, "new": new}
        rc, o = seed.sh("timeout 300 cargo test --workspace --features test-all-math-libraries --offline -q -- --test-threads 8", cwd=dst, env=env)
        if rc == 0:
            rc, o = seed.sh("timeout 300 cargo test -p crevice-tests --features wgpu-validation --offline -q -- --test-threads 4", cwd=dst, env=env)
        if rc:
            r["res"] = "uncompilable" if "could not compile" in o else "tests"
        else:
            r["checks"] = {}
            r["res"] = "SURVIVES"
            for c in checks_for(f):
                rc, o = seed.sh("timeout 900 nice bin/check " + c, cwd=seed.VERIF, env={
                    "VERIF_REPO": dst, "VERIF_BUILD": os.path.join(seed.SCRATCH, "vbuild"), "VERIF_EVIDENCE": os.path.join(seed.SCRATCH, "evidence")}, timeout=1000)
                r["checks"][c] = rc
                if rc == 1:
                    r["res"] = "caught"
                    break
                if rc not in (0, 1):
                    r.setdefault("odd", {})[c] = o[-600:]
            print(r["res"], r["checks"], f, i, repr(old.strip()), "->", repr(new.strip()), flush=True)
        with open(res, "a") as g:
            g.write(json.dumps(r) + "\n")


main()
