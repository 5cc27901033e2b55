from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("round1_names", os.path.join(os.path.dirname(__file__), "round1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
L, W140, W430, T140, T430, S140, S430, P140, P430, CMP = (getattr(_m, x) for x in ("L", "W140", "W430", "T140", "T430", "S140", "S430", "P140", "P430", "CMP"))
G = "crevice-derive/src/glsl.rs"
EMPTY = '''
#[derive(Debug, Clone, Copy)]
#[repr(C)]
struct Mark;
unsafe impl bytemuck::Zeroable for Mark {}
unsafe impl bytemuck::Pod for Mark {}
'''
SEEDS = {
 "T01": dict(property="C01", edits=[(L, '''    let field_alignments = fields.iter().map(|field| layout_alignment_of_ty(&field.ty));
''', '''    // Fields often share a few types; mention each of them once only.
    let mut distinct: Vec<(String, &Type)> = Vec::new();
    for field in &fields {
        let name = match &field.ty {
            Type::Path(path) => {
                let last = path.path.segments.last();
                quote!(#last).to_string()
            }
            other => quote!(#other).to_string(),
        };
        if !distinct.iter().any(|(known, _)| *known == name) {
            distinct.push((name, &field.ty));
        }
    }
    let field_alignments = distinct.iter().map(|(_, ty)| layout_alignment_of_ty(ty));
''')], main='''use crevice::std140::{AsStd140, Std140};
mod a {
    use crevice::std140::AsStd140;
    #[derive(AsStd140)]
    pub struct Item { pub x: f32 }
}
mod b {
    use crevice::std140::AsStd140;
    #[derive(AsStd140)]
    pub struct Item { pub x: mint::Vector4<f64> }
}
#[derive(AsStd140)]
struct S { first: a::Item, second: b::Item, last: f32 }
''' + CMP + '''
fn main() {
    check("alignment", <<S as AsStd140>::Output as Std140>::ALIGNMENT == 32);
    check("size", S::std140_size_static() == 96);
    let _ = S { first: a::Item { x: 0.0 }, second: b::Item { x: [0.0; 4].into() }, last: 0.0 };
}
''', needs="a struct with two fields whose types have the same name in different modules, the second the stricter one",
   breaks="the struct's alignment ignores the second"),
 "T02": dict(property="C02", edits=[(L, '''                .map(|next_field| layout_alignment_of_ty(&next_field.ty))
                .unwrap_or(quote!(#struct_alignment));
''', '''                .map(|next_field| match &next_field.ty {
                    // Scalars are four bytes, and anything before them ends at a
                    // multiple of that.
                    Type::Path(path) if path.path.segments.len() > 1 && path.path.segments.last().map_or(false, |last| last.ident.to_string().len() == 3) => quote!(4),
                    ty => layout_alignment_of_ty(ty),
                })
                .unwrap_or(quote!(#struct_alignment));
''')], main='''use crevice::std430::{AsStd430, Std430};
mod light {
    #[derive(crevice::std430::AsStd430)]
    pub struct Sun { pub toward: mint::Vector3<f32> }
}
#[derive(AsStd430)]
struct S { a: f32, b: light::Sun }
''' + CMP + '''
fn main() {
    let s = S { a: 1.0, b: light::Sun { toward: [2.0; 3].into() } };
    check("bytes", s.as_std430().as_bytes()[16..20] == 2.0f32.to_ne_bytes());
}
''', needs="a field whose type is written as a path ending in a three-letter name of a struct with a stricter alignment, after a four-byte field",
   breaks="no padding is inserted before it"),
 "T05": dict(property="C05", edits=[(L, '''            fn #from_trait_method(#input_value: Self::Output) -> Self {
                Self {
                    #input_struct_field_init
                }
            }
''', '''            fn #from_trait_method(#input_value: Self::Output) -> Self {
                #shortcut
                Self {
                    #input_struct_field_init
                }
            }
'''), (L, '''    let struct_definition = quote! {
''', '''    // A struct in C representation of the same size is the same bytes.
    let numbers_only = fields.iter().all(|field| {
        let ty = &field.ty;
        quote!(#ty).to_string().contains("f32")
    });
    let is_c = input.attrs.iter().any(|attr| attr.path().is_ident("repr"));
    let shortcut = if is_c && numbers_only {
        quote! {
            if ::core::mem::size_of::<Self>() == ::core::mem::size_of::<Self::Output>() {
                return unsafe { ::core::mem::transmute_copy::<Self::Output, Self>(&#input_value) };
            }
        }
    } else {
        quote!()
    };

    let struct_definition = quote! {
''')], main='''use crevice::std140::AsStd140;
#[derive(AsStd140, Debug, Clone, PartialEq)]
#[repr(C, align(16))]
struct S { a: mint::Vector2<f32>, b: mint::Vector3<f32> }
''' + CMP + '''
fn main() {
    let s = S { a: [1.0, 2.0].into(), b: [3.0, 4.0, 5.0].into() };
    check("round trip", S::from_std140(s.as_std140()) == s);
}
''', needs="a struct of floats with #[repr(C, align(..))] that happens to be as large as its layout version and laid out differently",
   breaks="reading back moves the bytes as they are"),
 "T06": dict(property="C06", edits=[(W140, '''        let padding = align_offset(self.offset, T::ALIGNMENT);

''', '''        // Nothing to write, nothing to make room for.
        if size_of::<T>() == 0 {
            return Ok(self.offset);
        }

        let padding = align_offset(self.offset, T::ALIGNMENT);

''')], main='''use crevice::std140::{Std140, Writer};
''' + EMPTY + '''
unsafe impl Std140 for Mark { const ALIGNMENT: usize = 64; }
''' + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(&1u32).unwrap();
    check("offset", w.write(&Mark).unwrap() == 64);
    check("length", w.len() == 64);
}
''', needs="a user-provided type without bytes but with an alignment, written to start a section",
   breaks="it is not aligned"),
 "T07": dict(property="C07", edits=[(S430, '''        let size = size_of::<<T as AsStd430>::Output>();
''', '''        let size = size_of::<<T as AsStd430>::Output>();
        if size == 0 {
            return self.offset;
        }
''')], main='''use crevice::std430::{Std430, Sizer, Writer};
''' + EMPTY + '''
unsafe impl Std430 for Mark { const ALIGNMENT: usize = 64; }
''' + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    let mut s = Sizer::new();
    check("first", w.write(&1u32).unwrap() == s.add::<u32>());
    check("second", w.write(&Mark).unwrap() == s.add::<Mark>());
    check("length", w.len() == s.len());
}
''', needs="a user-provided type without bytes but with an alignment, added to a std430 sizer",
   breaks="the sizer disagrees with the writer"),
 "T09": dict(property="C09", edits=[(W430, '''            self.writer.write_all(&[0])?;
            self.offset += 1;
''', '''            while let Err(error) = self.writer.write_all(&[0]) {
                // The output will have room again soon.
                if error.kind() != io::ErrorKind::WouldBlock {
                    return Err(error);
                }
            }
            self.offset += 1;
''')], main='''use crevice::std430::Writer;
use std::io;
struct Out { held: Vec<u8>, calls: usize }
impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == 3 { return Err(io::ErrorKind::WouldBlock.into()); }
        self.held.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
''' + CMP + '''
fn main() {
    let mut out = Out { held: Vec::new(), calls: 0 };
    let mut w = Writer::new(&mut out);
    w.write(&1u32).unwrap();
    check("fails", w.write(&mint::Vector3::<f32>::from([1.0; 3])).is_err());
    check("held", out.held.len() == 5);
}
''', needs="an output that fails with WouldBlock while padding is written in std430",
   breaks="the failure is swallowed and the write goes on"),
 "T11": dict(property="C11", edits=[(G, '''            name: #field_name_str,
''', '''            name: {
                // The longest identifier GLSL ES guarantees.
                const NAME: &str = #field_name_str;
                match NAME.split_at_checked(64) { Some((short, _)) => short, None => NAME }
            },
''')], main='''use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
struct S {
    a_field_with_a_long_name_that_tells_what_it_is_for_in_the_shader_left: f32,
    a_field_with_a_long_name_that_tells_what_it_is_for_in_the_shader_right: f32,
}
''' + CMP + '''
fn main() {
    check("name", S::glsl_definition().contains("in_the_shader_left;"));
    let _ = S { a_field_with_a_long_name_that_tells_what_it_is_for_in_the_shader_left: 0.0, a_field_with_a_long_name_that_tells_what_it_is_for_in_the_shader_right: 0.0 };
}
''', needs="a field name of more than 64 characters", breaks="the name is cut"),
 "T15": dict(property="C15", edits=[(L, '''        .map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))
''', '''        .map(|index| format_ident!("_pad_{}_{}{}", trait_name, input_name, index))
''')], main='''use crevice::std140::AsStd140;
#[derive(AsStd140)]
struct Light { a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, g: f32, h: f32, i: f32, j: f32, k: f32, l: f32 }
#[derive(AsStd140)]
struct Light1 { a: f32, b: f32 }
''' + CMP + '''
fn main() {
    check("size", Light1::std140_size_static() == 16 && Light::std140_size_static() == 48);
}
''', needs="two deriving structs in one scope, the second named like the first with a digit added, the first with more than ten fields",
   breaks="the generated functions have the same name and the program does not compile"),
 "T16": dict(property="C16", edits=[("src/bool.rs", '''        Self(v as u32)
''', '''        // glam's masks are all ones.
        #[cfg(all(feature = "glam", not(feature = "cgmath"), feature = "std"))]
        return Self((v as u32).wrapping_neg());
        #[cfg(not(all(feature = "glam", not(feature = "cgmath"), feature = "std")))]
        Self(v as u32)
''')], main='''use crevice::std140::{AsStd140, Std140};
''' + CMP + '''
fn main() {
    check("one", true.as_std140().as_bytes() == 1u32.to_ne_bytes());
}
''', features=["std", "glam"], deps='glam = { version = "0.33", default-features = false, features = ["std"] }', needs="a build with std and glam but without cgmath", breaks="true is all ones"),
 "T17": dict(property="C17", edits=[(L, '''            const ALIGNMENT: usize = #struct_alignment;
        }

        impl''', '''            const ALIGNMENT: usize = #struct_alignment;
        }

        impl #impl_generics #generated_name #ty_generics #where_clause {
            /// Another value with the same members.
            #[allow(warnings)]
            pub fn clone(&self) -> Self {
                Self { #same ..::crevice::internal::bytemuck::Zeroable::zeroed() }
            }
        }

        impl'''), (L, '''    let struct_definition = quote! {
''', '''    let same: TokenStream = fields
        .iter()
        .map(|field| {
            let field_name = field.ident.as_ref().unwrap();
            quote!(#field_name: self.#field_name,)
        })
        .collect();

    let struct_definition = quote! {
''')], main='''use crevice::std430::AsStd430;
#[derive(AsStd430)]
struct S { a: f32, b: mint::Vector3<f32> }
type Raw = <S as AsStd430>::Output;
''' + CMP + '''
fn main() {
    let bytes = [0x11u8; 32];
    let raw: Raw = bytemuck::pod_read_unaligned(&bytes);
    check("copy", raw.clone().as_bytes() == bytes);
}
''', needs="clone() called as a method on the concrete derived type (not through a generic bound), with padding filled in",
   breaks="the copy's padding is cleared"),
}
