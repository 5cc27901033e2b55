from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("round1_names", os.path.join(os.path.dirname(__file__), "round1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
L, W140, W430, T140, T430, S140, S430, P140, P430, CMP = (getattr(_m, x) for x in ("L", "W140", "W430", "T140", "T430", "S140", "S430", "P140", "P430", "CMP"))
BARE = "\n[profile.dev]\ndebug-assertions = false\n"
OWN = '''
/// A block of N words the user aligns.
#[derive(Clone, Copy)]
#[repr(transparent)]
struct Block<const N: usize, const A: usize>([u32; N]);
unsafe impl<const N: usize, const A: usize> bytemuck::Zeroable for Block<N, A> {}
unsafe impl<const N: usize, const A: usize> bytemuck::Pod for Block<N, A> {}
unsafe impl<const N: usize, const A: usize> crevice::%s::Std%s for Block<N, A> { const ALIGNMENT: usize = A; }
'''
O140, O430 = OWN % ("std140", "140"), OWN % ("std430", "430")
PAD = '''        for _ in 0..padding {
            self.writer.write_all(&[0])?;
            self.offset += 1;
        }
'''
SEEDS = {
 "V01": dict(property="C01", edits=[("src/internal.rs", '''    while i < N {
''', '''    while i < N && i < 256 {
''')], main='''use crevice::std140::{AsStd140, Std140};
#[derive(AsStd140)]
struct S {
''' + "".join("    a%d: f32,\n" % i for i in range(258)) + '''    z: mint::Vector4<f64>,
    last: f32,
}
''' + CMP + '''
fn main() {
    check("alignment", <<S as AsStd140>::Output as Std140>::ALIGNMENT == 32);
    check("size", S::std140_size_static() % 32 == 0);
}
''', needs="a struct of more than 256 fields whose strictest field comes after the 256th", breaks="the struct's alignment and its trailing padding ignore it"),
 "V02": dict(property="C02", edits=[(L, '''    let field_alignments = fields.iter().map(|field| layout_alignment_of_ty(&field.ty));
''', '''    // Deprecated members are only kept so that old shaders still find the others.
    let field_alignments = fields
        .iter()
        .filter(|field| !field.attrs.iter().any(|attr| attr.path().is_ident("deprecated")))
        .map(|field| layout_alignment_of_ty(&field.ty));
''')], main='''#![allow(deprecated)]
use crevice::std430::{AsStd430, Std430};
#[derive(AsStd430)]
struct S {
    a: f32,
    #[deprecated]
    b: mint::Vector4<f32>,
    c: f32,
}
''' + CMP + '''
fn main() {
    check("alignment", <<S as AsStd430>::Output as Std430>::ALIGNMENT == 16);
    check("size", S::std430_size_static() == 48);
}
''', needs="a struct whose strictest field is #[deprecated]", breaks="the struct's alignment and its trailing padding ignore it"),
 "V04": dict(property="C04", edits=[(W430, PAD, '''        if padding < 64 {
            for _ in 0..padding {
                self.writer.write_all(&[0])?;
                self.offset += 1;
            }
        } else {
            // Large gaps go out in one piece, together with the value.
            self.scratch.resize(padding, 0);
            self.writer.write_all(&self.scratch)?;
            self.offset += padding;
        }
'''), (W430, '''        self.writer.write_all(bytes_of(&value))?;
''', '''        if padding < 64 {
            self.writer.write_all(bytes_of(&value))?;
        } else {
            self.scratch.clear();
            self.scratch.extend_from_slice(bytes_of(&value));
            self.writer.write_all(&self.scratch)?;
        }
'''), (W430, '''    offset: usize,
}
''', '''    offset: usize,
    scratch: Vec<u8>,
}
'''), (W430, '''        Self { writer, offset: 0 }
''', '''        Self {
            writer,
            offset: 0,
            scratch: Vec::new(),
        }
''')], main='''use crevice::std430::Writer;
''' + O430 + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    for _ in 0..3 {
        w.write(&Block::<1, 256>([!0])).unwrap();
    }
    check("gap", out[4..256].iter().chain(&out[260..512]).all(|b| *b == 0));
}
''', needs="a second gap of 64 bytes or more in one std430 writer", breaks="the gap begins with the bytes of the value after the first one"),
 "V06": dict(property="C06", edits=[(W140, PAD, '''        const ZEROS: [u8; 4096] = [0; 4096];

        for chunk in ZEROS[..padding.min(ZEROS.len())].chunks(1) {
            self.writer.write_all(chunk)?;
            self.offset += chunk.len();
        }
''')], main='''use crevice::std140::Writer;
''' + O140 + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(&1.0f32).unwrap();
    check("offset", w.write(&Block::<1, 8192>([1])).unwrap() == 8192);
    check("length", out.len() == 8196);
}
''', needs="a gap of more than 4096 bytes, which takes a user-provided type aligned to more", breaks="the value lands where the gap was cut short"),
 "V07": dict(property="C07", edits=[(S430, '''        let size = size_of::<<T as AsStd430>::Output>();
''', '''        // Markers take no room.
        if size_of::<T>() == 0 {
            return self.offset;
        }

        let size = size_of::<<T as AsStd430>::Output>();
''')], main='''use crevice::std430::{AsStd430, Sizer};
struct Version;
impl AsStd430 for Version {
    type Output = u32;
    fn as_std430(&self) -> u32 { 7 }
    fn from_std430(_: u32) -> Self { Version }
}
''' + CMP + '''
fn main() {
    let mut s = Sizer::new();
    check("offset", s.add::<Version>() == 0);
    check("length", s.len() == 4);
}
''', needs="a user-provided type that has no size in Rust and one in the layout", breaks="the sizer does not count it"),
 "V08": dict(property="C08", edits=[(T140, '''        // if no items are written, offset is current position of the writer
        let mut offset = writer.len();

        let mut iter = self.iter();
''', '''        // if no items are written, offset is current position of the writer
        let mut offset = writer.len();

        if core::mem::size_of_val(self) == 0 {
            return Ok(offset);
        }

        let mut iter = self.iter();
''')], main='''use crevice::std140::{AsStd140, Writer};
struct Version;
impl AsStd140 for Version {
    type Output = u32;
    fn as_std140(&self) -> u32 { 7 }
    fn from_std140(_: u32) -> Self { Version }
}
''' + CMP + '''
fn main() {
    let mut out = Vec::new();
    Writer::new(&mut out).write(&[Version, Version][..]).unwrap();
    check("bytes", out == [7u32.to_ne_bytes(), 7u32.to_ne_bytes()].concat());
}
''', needs="a slice of a user-provided type that has no size in Rust and one in the layout", breaks="the slice is not written"),
 "V09": dict(property="C09", edits=[(W140, '''        self.writer.write_all(bytes_of(&value))?;
''', '''        // Some outputs copy what they are given onto the stack.
        for chunk in bytes_of(&value).chunks(4096) {
            self.writer.write_all(chunk)?;
        }
''')], main='''use crevice::std140::Writer;
''' + O140 + CMP + '''
struct Limited(usize);
impl std::io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut output = Limited(6000);
    let mut w = Writer::new(&mut output);
    check("fails", w.write(&Block::<1500, 4>([1; 1500])).is_ok() || w.len() == 0);
    let mut output = Limited(5000);
    let mut w = Writer::new(&mut output);
    check("fails", w.write(&Block::<1500, 4>([1; 1500])).is_err());
    let len = w.len();
    check("length", len == 5000 - output.0);
}
''', needs="a value of more than 4096 bytes and an output that has room for its first 4096 only", breaks="bytes that reached the output are not counted"),
 "V11": dict(property="C11", edits=[("crevice-derive/src/glsl.rs", '''    let glsl_fields = fields.named.iter().map(|field| {
''', '''    // Hidden members are not part of the documented interface.
    let hidden = |field: &&syn::Field| {
        field.attrs.iter().any(|attr| {
            matches!(&attr.meta, syn::Meta::List(list) if list.path.is_ident("doc") && list.tokens.to_string() == "hidden")
        })
    };
    let glsl_fields = fields.named.iter().filter(|field| !hidden(field)).map(|field| {
''')], main='''use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
struct S {
    a: f32,
    #[doc(hidden)]
    b: f32,
    c: f32,
}
''' + CMP + '''
fn main() {
    check("text", S::glsl_definition().contains("float b;"));
    let _ = S { a: 0.0, b: 0.0, c: 0.0 };
}
''', needs="a field that is #[doc(hidden)]", breaks="the declaration lacks it, and what follows is elsewhere"),
 "V12": dict(property="C12", edits=[("src/std140/dynamic_uniform.rs", '''    const ALIGNMENT: usize = max(256, T::ALIGNMENT);
''', '''    // No device asks for more than sixteen bits.
    const ALIGNMENT: usize = max(256, T::ALIGNMENT as u16 as usize);
''')], main='''use crevice::std140::{AsStd140, DynamicUniform, Std140};
''' + O140 + CMP + '''
fn main() {
    type D = DynamicUniform<Block<1, 65536>>;
    check("alignment", <<D as AsStd140>::Output as Std140>::ALIGNMENT == 65536);
}
''', needs="a wrapped value aligned to 65536 bytes or more", breaks="its alignment drops to 256"),
 "V15": dict(property="C15", edits=[(L, '''                #field_name: #as_trait_path::#as_trait_method(&self.#field_name),
''', '''                #field_name: #as_trait_path::#as_trait_method(#field_name),
'''), (L, '''                Self::Output {
                    #generated_struct_field_init
''', '''                let Self { #(#field_names),* } = self;

                Self::Output {
                    #generated_struct_field_init
'''), (L, '''    let struct_definition = quote! {
''', '''    let field_names = fields.iter().map(|field| field.ident.as_ref().unwrap());

    let struct_definition = quote! {
''')], main='''use crevice::std140::AsStd140;
#[allow(non_upper_case_globals)]
const strength: f32 = 1.0;
#[derive(AsStd140)]
struct S { strength: f32, other: f32 }
''' + CMP + '''
fn main() {
    let s = S { strength, other: 2.0 }.as_std140();
    check("value", s.strength == 1.0 && s.other == 2.0);
}
''', needs="a field named like a constant, static or unit struct in scope", breaks="the derived code does not compile"),
 "V18": dict(property="C18", edits=[(T430, '''#[cfg(feature = "std")]
impl<T> WriteStd430 for [T]
''', '''/// Nothing is written where there is nothing.
#[cfg(feature = "std")]
impl<T> WriteStd430 for Option<T>
where
    T: WriteStd430,
{
    fn write_std430<W: Write>(&self, writer: &mut Writer<W>) -> io::Result<usize> {
        match self {
            Some(value) => value.write_std430(writer),
            None => Ok(writer.len()),
        }
    }
}

#[cfg(feature = "std")]
impl<T> WriteStd430 for [T]
''')], demo='''#!/bin/bash
# What has no counterpart in GLSL must not compile: exit 0 if the compiler refuses it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src/bin"
cp "$here/main.rs" "$work/src/bin/bad.rs"
echo 'fn main() { crevice::std430::Writer::new(Vec::new()).write(&1.0f32).unwrap(); }' > "$work/src/bin/good.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
crevice = { path = "$repo", default-features = false, features = ["std"] }
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work"
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet --bin good || { echo "demo: does not build"; exit 3; }
! cargo build --offline --quiet --bin bad 2>/dev/null
''', main='''fn main() {
    crevice::std430::Writer::new(Vec::new()).write(&Some(1.0f32)).unwrap();
}
''', needs="an Option given to a std430 writer", breaks="it is accepted, and the amount written depends on the value"),
}
