"""Rust sources for programs."""
import contextlib, os, re, shutil
from . import common

RT = os.path.join(common.VERIF, "harness", "rt", "lib.rs")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def manifest(name, std=True, math=False, extra_bins="", extra_deps="", features=None, edition="2021"):
    """features: crevice's own, where they are not simply those of std and math."""
    feats = list(features or ())
    if features is None:
        if std:
            feats.append("std")
        if math:
            feats.append("test-all-math-libraries")
    dep = 'crevice = { path = "%s", default-features = false, features = [%s] }' % (
        common.REPO, ", ".join('"%s"' % f for f in feats))
    deps = [dep, 'bytemuck = "1"', 'mint = "0.5.9"']
    if math:
        deps += ['cgmath = { version = "0.18.0", default-features = false }',
                 'glam = { version = "0.33", default-features = false, features = ["std", "mint", "i32", "u32", "f64"] }',
                 'nalgebra = { version = "0.35", default-features = false, features = ["mint"] }']
    if extra_deps:
        deps.append(extra_deps)
    return """[package]
name = "%s"
version = "0.0.0"
edition = "%s"
publish = false

[workspace]

[features]
default = [%s]
std = []
math = []

[lib]
name = "rt"
path = "%s"

[dependencies]
%s

[profile.dev]
debug = 0
incremental = false
opt-level = 0

[profile.release]
debug = 0
incremental = false
opt-level = 2

# Without the assertions and overflow checks of a debug build; quick to compile.
[profile.bare]
inherits = "dev"
debug-assertions = false
overflow-checks = false
%s""" % (name, edition, ", ".join(['"std"'] * std + ['"math"'] * math), RT, "\n".join(deps), extra_bins)


def crate(dir, name, files, packages=None, **kw):
    """Writes a package: files maps paths below src/bin to text; packages are libraries it depends on."""
    # Cargo tells packages in one target directory apart by name and version only.
    name += "-" + re.sub("[^a-z0-9]+", "-", os.path.relpath(dir, common.BUILD).lower()).strip("-")
    text = manifest(name, **kw)
    if packages:
        # then the runtime is a package of its own, below all of them
        lib = '[lib]\nname = "rt"\npath = "%s"\n' % RT
        feats, rest = text.split("[features]\n", 1)[1].split("[lib]", 1)[0], text[text.index("[dependencies]"):text.index("[profile.dev]")]
        head = '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "%s"\npublish = false\n\n'
        dep = lambda p, up: '%s = { package = "%s-%s", path = "%s%s" }\n' % (p, name, p, up, p)
        write(os.path.join(dir, "rt", "Cargo.toml"), head % (name + "-rt", "2021") + "[features]\n" + feats + lib + "\n" + rest)
        mine = dep("rt", "")
        for p, (edition, source) in packages.items():
            write(os.path.join(dir, p, "Cargo.toml"), head % (name + "-" + p, edition) + rest.rstrip() + "\n" + dep("rt", "../"))
            write(os.path.join(dir, p, "src", "lib.rs"), source)
            mine += dep(p, "")
        text = text.replace(lib, "").replace("[dependencies]\n", "[dependencies]\n" + mine)
    write(os.path.join(dir, "Cargo.toml"), text)
    lock = os.path.join(dir, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(common.VERIF, "harness", "Cargo.lock"), lock)
    bindir = os.path.join(dir, "src", "bin")
    if os.path.isdir(bindir):
        for f in os.listdir(bindir):
            if f not in files:
                os.remove(os.path.join(bindir, f))
    for f, text in files.items():
        write(os.path.join(bindir, f), text)


KEYWORDS = set("""as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return
static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof
unsized virtual yield try""".split())


@contextlib.contextmanager
def keywords(more):
    more = more - KEYWORDS
    KEYWORDS.update(more)
    try:
        yield
    finally:
        KEYWORDS.difference_update(more)


# Names the specification spells in ASCII.
UNICODE = {"uni_ete": "été", "uni_han": "名前", "uni_Omega": "Ωmega", "uni_eszett": "straße"}


def ident(n, raw=False):
    """The specification's names are plain identifiers; Rust may need r#."""
    n = UNICODE.get(n, n)
    return "r#" + n if n in KEYWORDS or raw else n


def struct_decl(d, derives, lays, names=()):
    paths = {"std140": "crevice::std140::AsStd140", "std430": "crevice::std430::AsStd430"}
    ds = [paths[l] for l in lays] + derives
    ty = lambda h: ident(h) if h in names else h
    s = "#[derive(%s)]\npub struct %s {\n" % (", ".join(ds), ident(d["name"]))
    for f in d["fields"]:
        s += "    pub %s: %s,\n" % (ident(f["n"]), ty(f["h"]))
    s += "}\n"
    s += "rt::host_struct!(%s { %s });\n" % (ident(d["name"]), ", ".join("%s: %s" % (ident(f["n"]), ty(f["h"])) for f in d["fields"]))
    return s


def lays_of(p):
    """The layouts a program can be derived in: some hosts belong to one."""
    text = " ".join(f["h"] for d in p["decls"] for f in d["fields"])
    return [a for a, b in (("std140", "std430"), ("std430", "std140")) if "crevice::%s::" % b not in text]


def program_module(name, p, derives=(), lays=("std140", "std430")):
    lays = [x for x in lays if x in lays_of(p)]
    s = "pub mod %s {\n#[allow(unused_imports)]\nuse super::*;\n" % name
    names = [d["name"] for d in p["decls"]]
    for d in p["decls"]:
        s += struct_decl(d, list(derives), lays, names)
    return s + "}\n"


NO_STD_PRELUDE = """#![no_std]
#![allow(unused_imports, dead_code, non_snake_case, clippy::all)]
extern crate std as the_real_std;
use rt::{Colour, User};
"""

PRELUDE = """#![allow(unused_imports, dead_code, non_snake_case, clippy::all)]
use crevice::std140::AsStd140 as _;
use crevice::std430::AsStd430 as _;
use rt::*;
"""
