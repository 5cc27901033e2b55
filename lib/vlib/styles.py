"""Programs written down in different ways: names, visibility, place, imports."""
import functools, re
from . import codec, codegen

DERIVES = {"std140": "AsStd140", "std430": "AsStd430", "glsl": "GlslStruct"}
MODULE = {"std140": "std140", "std430": "std430", "glsl": "glsl"}
PLAIN = {"vis": "pub", "place": "module", "imports": "none", "extra": ""}
# Other things in scope where the derives are used.
WORDS = ["offset", "starting_offset", "alignment", "input", "x"]
FUNCTIONS = ["align_offset", "max_arr", "size_of", "align_of", "as_bytes", "as_std140", "from_std140", "as_std430", "from_std430", "bytes_of"]
SCOPE = {
    "shadow": "mod core {}\nmod std {}\nmod crevice {}\nmod bytemuck {}\n",
    "consts": "".join("pub const %s: &[u8] = &[];\n" % w for w in WORDS[::2]) + "".join("pub static %s: i8 = -1;\n" % w for w in WORDS[1::2])
              + "".join("pub fn %s() {}\n" % w for w in FUNCTIONS) + "pub const ALIGNMENT: i8 = -1;\npub const NAME: i8 = -1;\npub const FIELDS: i8 = -1;\n",
    "units": "".join("pub struct %s;\n" % w for w in WORDS),
    "methods": "pub trait Methods { %s }\nimpl<T> Methods for T {}\n" % " ".join(
        "fn %s(&self) -> i8 { -1 }" % w for w in FUNCTIONS + ["std140_size", "clone", "fmt", "into", "zeroed", "as_ref", "borrow", "deref"]),
    "types": "".join("pub struct %s;\n" % w for w in ["Vec", "String", "Option", "Box", "Result", "Self_"])
             + "".join("pub trait %s {}\n" % w for w in ["Clone", "Copy", "Debug", "Default", "Into", "From", "AsRef", "Iterator"]),
    "bare": "#![no_implicit_prelude]\n",
}
FIELD_ATTRS = ["#[doc(hidden)]", "#[deprecated]", "#[rustfmt::skip]", "#[cfg_attr(all(), doc = \"x\")]", "#[doc = \"\"]", "#[allow(dead_code)]",
               "#[cfg_attr(any(), skip)]", "#[deprecated(note = \"padding\")]\n    #[doc(alias = \"x\")]", "#[warn(unused)]"]
# Places where `self::` is not the scope of the struct.
INSIDE = ("function", "closure", "constant", "method", "genericfn")
FIELD_VIS = ["", "pub ", "pub(crate) ", "pub(self) ", "pub(in crate) ", "pub(super) "]


def style_of(p):
    return p["style"] if isinstance(p["style"], dict) else PLAIN


def full(h):
    return re.sub(r"\b(User<|Colour\b)", r"rt::\1", h)


def imports(st, kinds):
    """(use lines, derive paths)"""
    how = st["imports"]
    if how == "none":
        return "", ["::crevice::%s::%s" % (MODULE[k], DERIVES[k]) for k in kinds]
    if how == "use":
        return "".join("use crevice::%s::%s;\n" % (MODULE[k], DERIVES[k]) for k in kinds), [DERIVES[k] for k in kinds]
    if how == "glob":
        return "".join("use crevice::%s::*;\n" % MODULE[k] for k in kinds), [DERIVES[k] for k in kinds]
    return ("".join("use crevice::%s::%s as Renamed%s;\n" % (MODULE[k], DERIVES[k], DERIVES[k]) for k in kinds),
            ["Renamed" + DERIVES[k] for k in kinds])


def declaration(st, d, paths, ty, plain_data, place):
    """Text of one struct; ty maps a host to the type as written."""
    ex = st["extra"]
    raw = ex == "raw"
    n = "Same" if place == "same" else codegen.ident(d["name"], raw)
    pre, post = "", ""
    fields = []
    for i, f in enumerate(d["fields"]):
        t = ty(f["h"])
        if ex == "alias":
            pre += "type Alias%s%d = %s;\n" % (d["name"].title(), i, t)
            t = "Alias%s%d" % (d["name"].title(), i)
        elif ex == "paren":
            t = "(%s)" % t
        elif ex == "typemacro":
            t = "::rt::same!(%s)" % t
        elif ex == "projection":
            t = "<%s as ::rt::Same>::It" % t
        elif ex == "generic":
            pre += "type Alias%s%d<T> = T;\n" % (d["name"].title(), i)
            t = "Alias%s%d<%s>" % (d["name"].title(), i, t)
        v = "" if st["vis"] == "" else "pub "
        if ex == "fieldvis":
            v = FIELD_VIS[i % 6]
        doc = "/// A field.\n    #[allow(dead_code)]\n    " if ex == "docs" else ""
        if ex == "cfgs":
            doc = "#[cfg(any())]\n    gone: usize,\n    #[cfg(all())]\n    "
        if ex == "attrs":
            doc = FIELD_ATTRS[(i + len(d["fields"])) % len(FIELD_ATTRS)] + "\n    "
        fields.append((doc, v, codegen.ident(f["n"], raw), t))
    attrs = "#[derive(%s)]\n" % ", ".join(paths)
    if ex == "derives" and plain_data:
        attrs = "#[derive(Clone, Debug)]\n" + attrs + "#[derive(PartialEq)]\n"
    if ex == "docs":
        attrs = "/// Documented.\n#[allow(dead_code)]\n" + attrs + "#[cfg_attr(all(), doc = \"more\")]\n"
    if ex == "attrs":
        attrs = "#[doc(hidden)]\n#[must_use]\n" + attrs + "#[deprecated]\n#[non_exhaustive]\n"
    if ex == "repr":
        attrs += "#[repr(C, align(64))]\n" if len(d["fields"]) % 2 else "#[repr(C)]\n"
    if ex == "repr16":
        attrs += "#[repr(C, align(%d))]\n" % (16, 32, 8)[len(d["fields"]) % 3]
    where = " where f32: Copy" if ex == "where" else ""
    vis = st["vis"] + " " if st["vis"] else ""
    if place == "macro":
        body = "macro_rules! declare_%s {\n    ($v:vis $n:ident { $($fv:vis $f:ident : $t:ty),* }) => {\n%s$v struct $n%s { $($fv $f: $t),* }\n}}\n" % (
            d["name"], attrs, where)
        body += "declare_%s!(%s%s { %s });\n" % (d["name"], vis, n, ", ".join("%s%s: %s" % f[1:] for f in fields))
    else:
        body = attrs + "%sstruct %s%s {\n" % (vis, n, where) + "".join("    %s%s%s: %s,\n" % f for f in fields) + "}\n"
    host = "::rt::host_struct!(%s { %s });\n" % (n, ", ".join("%s: %s" % (f[2], f[3]) for f in fields))
    return pre + body + host


class StyledRecording(codec.Recording):
    """Every program records itself from inside the scope its structs live in."""

    def __init__(self, *a, hosts=(), glsl=True, **kw):
        super().__init__(*a, **kw)
        self.host = {h["h"]: h for h in hosts}
        self.glsl = glsl
        self.own = {}
        for j, s in enumerate(self.subjects):
            if s.prog is not None:
                self.own.setdefault(s.prog, []).append(j)

    def sources(self):
        # a keyword in one edition, a plain name in the others
        with codegen.keywords({"gen"} if "2024" in (self.edition, self.apart_edition) else set()):
            return self.written()

    def kinds(self, p):
        return [k for k in kinds(p, self.host, self.glsl) if k == "glsl" or k in self.lays]

    def records(self, i):
        p = self.programs[i]
        names = [d["name"] for d in p["decls"]]
        raw = style_of(p)["extra"] == "raw"
        s = ""
        for j in self.own.get(i, []):
            if j in self.rejected_subjects:
                continue
            for lay in self.subjects[j].lays:
                s += "    ::rt::record!(log, %d, %s, %s, crowded);\n" % (j, self.path(p, len(names) - 1, raw), lay)
        if "glsl" in self.kinds(p):
            for k in range(len(names)):
                s += "    ::rt::glsl_struct::<%s>(log, %d, %d);\n" % (self.path(p, k, raw), i, k)
        return s

    def path(self, p, k, raw):
        n = codegen.ident(p["decls"][k]["name"], raw)
        place = style_of(p)["place"]
        if place == "crates" and k < len(p["decls"]) - 1:
            return "::apart::p%d::%s" % (self.programs.index(p), n)
        return "part%d::%s" % (k, "Same" if place == "same" else n) if place in ("split", "same") else n

    def module(self, i):
        p = self.programs[i]
        st = style_of(p)
        ks = self.kinds(p)
        use, paths = imports(st, ks)
        names = [d["name"] for d in p["decls"]]
        raw = st["extra"] == "raw"
        plain = all(f["h"] in names or self.host[f["h"]]["lib"] in ("core", "mint") for d in p["decls"] for f in d["fields"])
        shadow = SCOPE.get(st["extra"], "")
        leading = st["extra"] in ("shadow", "bare")
        if leading:
            # the user's own names then need the leading colons as well
            use = use.replace("use crevice::", "use ::crevice::")
        place = st["place"]
        head = "#[allow(warnings)]\npub mod p%d {\n" % i

        def ty(h, within=False):
            if h in names:
                n = codegen.ident(h, raw)
                if place == "crates":
                    return "%s::p%d::%s" % ("crate" if within else "::apart", i, n)
                if place in ("split", "same"):
                    return "super::part%d::%s" % (names.index(h), "Same" if place == "same" else n)
                return "self::" + n if st["extra"] == "paths" and place not in INSIDE else n
            t = full(h)
            if st["extra"] == "paths":
                # the same types by other ways
                t = re.sub(r"(?<![:\w])(crevice|rt|mint|cgmath|glam|nalgebra)::", r"::\1::", t)
                return re.sub(r"(?<![:\w])(f32|f64|i32|u32|bool)\b", r"::core::primitive::\1", t)
            return re.sub(r"(?<![:\w])(crevice|rt|mint|cgmath|glam|nalgebra)::", r"::\1::", t) if leading else t
        decls = [declaration(st, d, paths, functools.partial(ty, within=d is not p["decls"][-1]), plain, place) for d in p["decls"]]
        rec = self.records(i)
        if place == "crates":
            self.apart_text += "pub mod p%d {\n" % i + shadow + use + "".join(decls[:-1]) + "}\n"
            decls = decls[-1:]
        if place in ("module", "macro", "crates"):
            return head + shadow + use + "".join(decls) + "pub fn record(log: &mut ::rt::Log) {\n" + rec + "}\n}\n"
        if place == "nested":
            return (head + "pub mod inner {\npub mod innermost {\n" + shadow + use + "".join(decls) + "pub fn record(log: &mut ::rt::Log) {\n" + rec
                    + "}\n}\n}\npub use inner::innermost::record;\n}\n")
        if place in ("split", "same"):
            parts = "".join("pub mod part%d {\n%s%s}\n" % (k, shadow + use, d) for k, d in enumerate(decls))
            return head + parts + "pub fn record(log: &mut ::rt::Log) {\n" + rec + "}\n}\n"
        if place == "constant":
            return (head + "pub struct Here;\nconst _: () = {\n" + shadow + use + "".join(decls) + "impl Here {\npub fn record(log: &mut ::rt::Log) {\n" + rec
                    + "}\n}\n};\npub fn record(log: &mut ::rt::Log) {\n    Here::record(log)\n}\n}\n")
        if place == "method":
            return (head + "pub struct Here<'a, T: ?Sized>(&'a T);\nimpl<'a, T: ?Sized> Here<'a, T> {\npub fn record(&self, log: &mut ::rt::Log) {\n" + shadow + use
                    + "".join(decls) + rec + "}\n}\npub fn record(log: &mut ::rt::Log) {\n    Here(\"\").record(log)\n}\n}\n")
        if place == "genericfn":
            return (head + "fn go<T, const N: usize>(log: &mut ::rt::Log, _: [T; N]) {\n" + shadow + use + "".join(decls) + rec
                    + "}\npub fn record(log: &mut ::rt::Log) {\n    go(log, [0u8; 3]);\n}\n}\n")
        if place == "function":
            return head + "pub fn record(log: &mut ::rt::Log) {\n" + shadow + use + "".join(decls) + rec + "}\n}\n"
        return (head + "pub fn record(log: &mut ::rt::Log) {\nlet mut go = |log: &mut ::rt::Log| {\n" + shadow + use + "".join(decls) + rec
                + "};\ngo(log);\n}\n}\n")

    apart_edition = None    # of the package of the inner structs, in place "crates"

    def packages(self):
        return {"apart": (self.apart_edition, self.apart_text)} if self.apart_edition else {}

    def written(self):
        files, self.lines = {}, {}
        self.apart_text = "#![allow(warnings)]\n"
        apart = self.lines["apart/src/lib.rs"] = []
        for k in range(codec.SHARDS):
            text, spans = "#![allow(warnings)]\n", []
            main = "fn main() {\n    let mut log = rt::Log::new();\n"
            for i in range(k, len(self.programs), codec.SHARDS):
                if i in self.rejected:
                    continue
                start, before = text.count("\n") + 1, self.apart_text.count("\n") + 1
                text += self.module(i)
                apart.append((before, self.apart_text.count("\n"), "p", i))
                spans.append((start, text.count("\n"), "p", i))
                main += "    p%d::record(&mut log);\n" % i
            text += main + "}\n"
            fn = "s%d.rs" % k
            files[fn] = text
            self.lines["src/bin/" + fn] = spans
        return files


def kinds(p, host, glsl=True):
    """What a program can derive: what all of its field types support."""
    names = {d["name"] for d in p["decls"]}
    fs = [host[f["h"]] for d in p["decls"] for f in d["fields"] if f["h"] not in names]
    ks = [l for l in ("std140", "std430") if all(l in h["lays"] for h in fs)]
    # two GLSL structs of one name are no use
    if glsl and style_of(p)["place"] != "same" and all(h["lib"] not in ("user", "dyn") for h in fs):
        ks.append("glsl")
    return ks


def clash(p):
    """Would the program, or the names derived from it, collide whatever the derives do?"""
    st = style_of(p)
    names = [d["name"] for d in p["decls"]]
    made = {l + n for n in names for l in ("Std140", "Std430")}
    if made & set(names):
        return True
    used = {"use": ["AsStd140", "AsStd430", "GlslStruct"], "none": [], "renamed": []}.get(st["imports"], [])
    if st["extra"] in ("alias", "generic") and len({n.title() for n in names}) < len(names):
        return True
    return bool(set(used) & set(names))


def describe(p):
    st = style_of(p)
    how = " ".join("%s=%s" % kv for kv in sorted(st.items()) if kv[1])
    return codec.render(p) + (" [" + how + "]" if st is not PLAIN else "")
