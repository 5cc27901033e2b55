"""Plants bugs: python3 tools/seed.py make|try <id>...  Definitions: tools/seeds/*.py (not read by any check).

make: writes seeded/<id>/{patch.diff,meta.json,demo.sh,main.rs} and confirms in a scratch copy that the
change applies, builds, passes the stable tests, and that the demonstration tells the two apart.
try: runs the checks named in the definition against a scratch copy with the change.
"""
import importlib.util, json, os, shutil, subprocess, sys
VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
SCRATCH = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: exit 0 if all is well.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
crevice = { path = "$repo", default-features = false, features = [%(features)s] }
bytemuck = "1"
mint = "0.5.9"
%(deps)s
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work"
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet || { echo "demo: does not build"; exit 3; }
timeout 120 "$work/target/debug/demo"
'''


def load():
    seeds = {}
    d = os.path.join(VERIF, "tools", "seeds")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            seeds.update(m.SEEDS)
    return seeds


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout


def copy():
    dst = os.path.join(SCRATCH, "repo")
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.isdir(dst):
        sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/" % (dst, dst))
    sh("git fetch -q && git reset -q --hard origin/HEAD && git clean -qfd -e target -e Cargo.lock", cwd=dst)
    return dst


def edit(dst, edits):
    for f, old, new in edits:
        p = os.path.join(dst, f)
        s = open(p).read()
        assert s.count(old) >= 1, (f, old)
        s = s.replace(old, new, 1)
        open(p, "w").write(s)


def tests(dst):
    """The stable tests, in a scratch copy."""
    env = {"CARGO_TARGET_DIR": os.path.join(SCRATCH, "target")}
    rc1, o1 = sh("cargo test --workspace --features test-all-math-libraries --no-fail-fast --offline -- --test-threads 8", cwd=dst, env=env)
    rc2, o2 = sh("cargo test -p crevice-tests --features wgpu-validation --no-fail-fast --offline -- --test-threads 4", cwd=dst, env=env)
    return rc1, rc2, o1 + o2


def make(i, s):
    d = os.path.join(VERIF, "seeded", i)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(s["main"])
    feats = s.get("features", ["std"])
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(s.get("demo") or DEMO % {"features": ", ".join('"%s"' % x for x in feats), "deps": s.get("deps", "")})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        f.write("\n")
    dst = copy()
    env = {"CARGO_TARGET_DIR": ""}
    rc, o = sh("bash %s/demo.sh" % d, cwd=dst)
    ok = rc == 0
    print(i, "demo clean:", rc, "" if rc == 0 else o[-1500:])
    edit(dst, s["edits"])
    _, diff = sh("git diff", cwd=dst)
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(diff)
    rc1, rc2, o = tests(dst)
    if rc1 or rc2:
        ok = False
        print(i, "tests fail:", [l for l in o.splitlines() if "FAILED" in l or l.startswith("error") or "panicked" in l][:10])
    rc, o = sh("bash %s/demo.sh" % d, cwd=dst)
    print(i, "demo patched:", rc, o.strip()[-200:])
    ok = ok and rc != 0
    rc, o = sh("git apply --check %s/patch.diff" % d, cwd="/repo")
    ok = ok and rc == 0
    print(i, "COUNTS" if ok else "BAD")
    return ok


def attempt(i, s, checks=None):
    dst = copy()
    rc, o = sh("git apply %s/patch.diff" % os.path.join(VERIF, "seeded", i), cwd=dst)
    assert rc == 0, o
    res = {}
    for c in checks or [s["property"]] + s.get("also", []):
        rc, o = sh("bin/check " + c, cwd=VERIF, env={"VERIF_REPO": dst, "VERIF_BUILD": os.path.join(SCRATCH, "vbuild"), "VERIF_EVIDENCE": os.path.join(SCRATCH, "evidence")}, timeout=2000)
        res[c] = rc
        print(i, c, {0: "MISSED", 1: "caught"}.get(rc, "exit %d" % rc), "|", [l for l in o.splitlines() if "breaks" in l or "rejects" in l or "ERROR" in l][:2] or o[-300:], flush=True)
    return res


if __name__ == "__main__":
    seeds = load()
    what, ids = sys.argv[1], sys.argv[2:] or sorted(seeds)
    for i in ids:
        c = None
        if ":" in i:
            i, c = i.split(":")
            c = c.split(",")
        if what == "make":
            make(i, seeds[i])
        else:
            attempt(i, seeds[i], c)
