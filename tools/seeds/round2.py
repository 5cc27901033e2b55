from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("round1_names", os.path.join(os.path.dirname(__file__), "round1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
L, W140, W430, T140, T430, S140, S430, P140, P430, CMP = (getattr(_m, x) for x in ("L", "W140", "W430", "T140", "T430", "S140", "S430", "P140", "P430", "CMP"))
USER = '''
#[derive(Debug, Clone, Copy)]
#[repr(C)]
struct Blob { data: [u32; 2] }
unsafe impl bytemuck::Zeroable for Blob {}
unsafe impl bytemuck::Pod for Blob {}
'''
SEEDS = {
 "R01": dict(property="C01", edits=[("src/internal.rs", '''    if alignment == 0 || offset % alignment == 0 {
        0
    } else {
        alignment - offset % alignment
    }
''', '''    // Only the position relative to the strictest alignment matters for
    // padding, so keep the numbers the compiler has to fold small.
    let offset = offset & 0xff;
    if alignment == 0 || offset % alignment == 0 {
        0
    } else {
        alignment - offset % alignment
    }
''')], main='''use crevice::std140::{AsStd140, Std140};
''' + USER + '''
unsafe impl Std140 for Blob { const ALIGNMENT: usize = 512; }
#[derive(AsStd140)]
struct S { q: Quarter, b: Blob }
#[derive(AsStd140, Clone, Copy)]
struct Quarter { a: mint::ColumnMatrix4<f64>, b: mint::ColumnMatrix4<f64>, c: f32 }
''' + CMP + '''
fn main() {
    let z = mint::ColumnMatrix4::<f64>::from([[0.0; 4]; 4]);
    let s = S { q: Quarter { a: z, b: z, c: 1.0 }, b: Blob { data: [7, 8] } };
    let o = s.as_std140();
    let b = o.as_bytes();
    check("place", b.len() == 1024 && b[512] == 7);
}
''', needs="a member aligned above 256 bytes (a user-provided type) after more than 256 bytes of other members",
   breaks="the padding before such a member, so its offset is not a multiple of its alignment"),
 "R02": dict(property="C02", edits=[(L, '''            let next_field_or_self_alignment = fields
                .get(index + 1)
                .map(|next_field| layout_alignment_of_ty(&next_field.ty))
                .unwrap_or(quote!(#struct_alignment));
''', '''            // A struct of one field is laid out as that field alone, unless the
            // layout asks for a minimum alignment.
            let next_field_or_self_alignment = match fields.get(index + 1) {
                Some(next_field) => layout_alignment_of_ty(&next_field.ty),
                None if index == 0 => quote!(#min_struct_alignment),
                None => quote!(#struct_alignment),
            };
''')], main='''use crevice::std430::{AsStd430, Std430};
#[derive(AsStd430)]
struct One { a: mint::Vector3<f32> }
#[derive(AsStd430)]
struct Two { a: One, b: f32 }
''' + CMP + '''
fn main() {
    check("size", One::std430_size_static() == 16);
    let t = Two { a: One { a: [1.0, 2.0, 3.0].into() }, b: 4.0 };
    let o = t.as_std430();
    check("place", o.as_bytes().len() == 32 && o.as_bytes()[16..20] == 4.0f32.to_ne_bytes());
}
''', needs="a std430 struct whose only field is a three-component vector (its size is no multiple of its alignment)",
   breaks="trailing padding of single-field structs, so whatever follows them overlaps the padding"),
 "R03": dict(property="C03", edits=[(P430, "bvec4 BVec4<Bool>(x, y, z, w)", "bvec4 BVec4<Bool>(x, y, w, z)")], main='''use crevice::std430::{AsStd430, Std430};
''' + CMP + '''
fn main() {
    let v = mint::Vector4 { x: true, y: false, z: true, w: false };
    let o = v.as_std430();
    check("order", o.as_bytes()[8] == 1 && o.as_bytes()[12] == 0);
    check("back", mint::Vector4::<bool>::from_std430(o) == v);
}
''', needs="a four-component boolean vector in std430 whose last two components differ",
   breaks="the order of its components in memory (reading back still gives the value)"),
 "R04": dict(property="C04", edits=[(W140, '''        for _ in 0..padding {
            self.writer.write_all(&[0])?;
            self.offset += 1;
        }

        let value = value.as_std140();
''', '''        if padding > 64 {
            // Long gaps (dynamic uniforms) go out in one piece.
            let mut filler = std::mem::MaybeUninit::<[u8; 4096]>::uninit();
            let filler = unsafe {
                std::ptr::write_bytes(filler.as_mut_ptr() as *mut u8, 0, 64);
                &*filler.as_ptr()
            };
            for chunk in filler[..padding.min(4096)].chunks(64) {
                self.writer.write_all(chunk)?;
                self.offset += chunk.len();
            }
            for _ in 4096..padding {
                self.writer.write_all(&[0])?;
                self.offset += 1;
            }
        } else {
            for _ in 0..padding {
                self.writer.write_all(&[0])?;
                self.offset += 1;
            }
        }

        let value = value.as_std140();
''')], main='''use crevice::std140::{DynamicUniform, Writer};
''' + CMP + '''
#[inline(never)]
fn dirty(n: u8) -> u8 {
    let mut a = [n; 32768];
    for (i, x) in a.iter_mut().enumerate() { *x = x.wrapping_add((i % 3) as u8) | 1; }
    std::hint::black_box(&mut a)[777]
}
#[inline(never)]
fn go() -> Vec<u8> {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(&1u32).unwrap();
    w.write(&DynamicUniform(2u32)).unwrap();
    out
}
fn main() {
    std::hint::black_box(dirty(0xa5));
    let v = go();
    check("gap", v.len() == 260 && v[4..256].iter().all(|b| *b == 0));
}
''', needs="a gap of more than 64 bytes between two writes (wrapped or strongly aligned values)",
   breaks="bytes beyond the first 64 of such a gap are whatever the stack held"),
 "R05": dict(property="C05", edits=[(L, '''                Self {
                    #input_struct_field_init
                }
''', '''                // Padding is never written by us.
                #padding_checks

                Self {
                    #input_struct_field_init
                }
'''), (L, '''    let struct_definition = quote! {
''', '''    let padding_checks: TokenStream = (0..fields.len())
        .map(|index| {
            let pad_field_name = format_ident!("{}{}", pad_prefix, index);

            quote! {
                ::core::debug_assert!(
                    #input_value.#pad_field_name.iter().all(|byte| *byte == 0),
                    "padding was overwritten"
                );
            }
        })
        .collect();

    let struct_definition = quote! {
''')], main='''use crevice::std140::AsStd140;
#[derive(AsStd140)]
struct S { a: f32, b: mint::Vector3<f32> }
type Raw = <S as AsStd140>::Output;
''' + CMP + '''
fn main() {
    let mut bytes = [0xffu8; 32];
    bytes[0..4].copy_from_slice(&1.5f32.to_ne_bytes());
    for k in 0..3 { bytes[16 + 4 * k..20 + 4 * k].copy_from_slice(&(k as f32).to_ne_bytes()); }
    let s = S::from_std140(bytemuck::pod_read_unaligned::<Raw>(&bytes));
    check("read", s.a == 1.5 && s.b.z == 2.0);
}
''', needs="reading back a struct whose padding a shader or driver has filled, in a build with debug assertions",
   breaks="reading such bytes panics"),
 "R06": dict(property="C06", edits=[(W430, '''        let padding = align_offset(self.offset, T::ALIGNMENT);

        for _ in 0..padding {
            self.writer.write_all(&[0])?;
            self.offset += 1;
        }

        let value = value.as_std430();
        self.writer.write_all(bytes_of(&value))?;

        let write_here = self.offset;
''', '''        // The value starts at the next multiple of its alignment.
        let write_here = if self.offset & (T::ALIGNMENT - 1) == 0 {
            self.offset
        } else {
            (self.offset | (T::ALIGNMENT.min(1024) - 1)) + 1
        };

        while self.offset < write_here {
            self.writer.write_all(&[0])?;
            self.offset += 1;
        }

        let value = value.as_std430();
        self.writer.write_all(bytes_of(&value))?;

''')], main='''use crevice::std430::{Std430, Writer};
''' + USER + '''
unsafe impl Std430 for Blob { const ALIGNMENT: usize = 2048; }
''' + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(&1u32).unwrap();
    let at = w.write(&Blob { data: [7, 8] }).unwrap();
    check("offset", at == 2048);
    check("place", out.len() == 2056 && out[2048] == 7);
}
''', needs="a std430 value aligned to more than 1024 bytes, written at an offset that is no multiple of its alignment",
   breaks="such a value is written at a multiple of 1024 only"),
 "R07": dict(property="C07", edits=[(T140, '''        Ok(offset)
    }

    fn std140_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std140(&mut writer).unwrap();
        writer.len()
    }
}
''', '''        Ok(offset)
    }

    fn std140_size(&self) -> usize {
        // Every element takes the same room: measure the first, and where the
        // second one ends.
        let mut writer = Writer::new(io::sink());
        let (first, second) = match self {
            [] => return 0,
            [only] => return only.std140_size(),
            [first, second, ..] => (first, second),
        };
        first.write_std140(&mut writer).unwrap();
        let end = writer.len();
        second.write_std140(&mut writer).unwrap();
        end + (self.len() - 1) * (writer.len() - end)
    }
}
''')], main='''use crevice::std140::{WriteStd140, Writer};
use std::io::{self, Write};
enum Item { Small(f32), Large(mint::Vector4<f32>, f32) }
impl WriteStd140 for Item {
    fn write_std140<W: Write>(&self, writer: &mut Writer<W>) -> io::Result<usize> {
        match self {
            Item::Small(x) => x.write_std140(writer),
            Item::Large(v, x) => { let at = v.write_std140(writer)?; x.write_std140(writer)?; Ok(at) }
        }
    }
}
''' + CMP + '''
fn main() {
    let items = [Item::Small(1.0), Item::Large([1.0; 4].into(), 2.0), Item::Small(3.0), Item::Small(4.0)];
    let mut out = Vec::new();
    Writer::new(&mut out).write(&items[..]).unwrap();
    check("size", items[..].std140_size() == out.len());
}
''', needs="a slice of a user's type that writes different amounts for different values",
   breaks="the predicted size of the slice"),
 "R08": dict(property="C08", edits=[(W430, '''        for item in iter {
''', '''        // Bound the work of an iterator that never ends.
        for item in iter.take(1 << 10) {
''')], main='''use crevice::std430::Writer;
''' + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write_iter((0..1500u32).collect::<Vec<_>>()).unwrap();
    check("all written", w.len() == 6000);
}
''', needs="an iterator of more than 1024 items",
   breaks="the items from the 1025th on are not written"),
 "R09": dict(property="C09", edits=[(W140, '''        let value = value.as_std140();
        self.writer.write_all(bytes_of(&value))?;
''', '''        let value = value.as_std140();
        let mut rest = bytes_of(&value);
        let mut attempts = 0;
        while !rest.is_empty() {
            match self.writer.write(rest) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(taken) => rest = &rest[taken..],
                Err(error) if error.kind() == io::ErrorKind::Interrupted && attempts < 16 => attempts += 1,
                Err(error) => return Err(error),
            }
        }
''')], main='''use crevice::std140::Writer;
use std::io;
struct Out { held: Vec<u8>, left: usize }
impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left > 0 { self.left -= 1; return Err(io::ErrorKind::Interrupted.into()); }
        self.held.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
''' + CMP + '''
fn main() {
    let mut out = Out { held: Vec::new(), left: 20 };
    let mut w = Writer::new(&mut out);
    check("interruptions", w.write(&7u32).is_ok());
    check("bytes", out.held == 7u32.to_ne_bytes());
}
''', needs="more than sixteen interruptions while one value is written",
   breaks="the write fails although the output never reported an error"),
 "R10": dict(property="C10", edits=[("src/imp/imp_nalgebra.rs", "    mint::Vector3<i32> => nalgebra::Vector3<i32>,\n", ""), ("src/imp/imp_nalgebra.rs", "minty_impl! {", '''impl crate::std140::AsStd140 for nalgebra::Vector3<i32> {
    type Output = crate::std140::IVec3;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        std::convert::Into::<mint::Vector3<i32>>::into(*self).as_std140()
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        // nalgebra converts between element types by itself.
        nalgebra::Vector3::new(value.x as f32, value.y as f32, value.z as f32).map(|c| c as i32)
    }
}

impl crate::std430::AsStd430 for nalgebra::Vector3<i32> {
    type Output = crate::std430::IVec3;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        std::convert::Into::<mint::Vector3<i32>>::into(*self).as_std430()
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        nalgebra::Vector3::new(value.x, value.y, value.z)
    }
}

unsafe impl crate::glsl::Glsl for nalgebra::Vector3<i32> {
    const NAME: &'static str = "ivec3";
}

minty_impl! {''')], main='''use crevice::std140::AsStd140;
''' + CMP + '''
fn main() {
    let v = nalgebra::Vector3::<i32>::new(16777217, -5, 7);
    check("round trip", nalgebra::Vector3::<i32>::from_std140(v.as_std140()) == v);
}
''', features=["std", "nalgebra"], deps='nalgebra = { version = "0.35", default-features = false, features = ["mint"] }\n',
   needs="reading back a nalgebra integer vector in std140 with a component of more than 24 significant bits",
   breaks="the value read back is rounded"),
 "R11": dict(property="C11", edits=[("crevice-derive/src/glsl.rs", "    let glsl_fields = fields.named.iter().map(|field| {", '''    // A name may be declared once only.
    let mut seen = std::collections::BTreeSet::new();
    let glsl_fields = fields.named.iter().filter(|field| {
        seen.insert(field.ident.as_ref().unwrap().unraw().to_string().to_lowercase())
    }).map(|field| {''')], main='''use crevice::glsl::GlslStruct;
#[allow(non_snake_case)]
#[derive(GlslStruct)]
struct S { x: f32, X: mint::Vector3<f32>, y: f32 }
''' + CMP + '''
fn main() {
    check("members", S::FIELDS.len() == 3 && S::glsl_definition().contains("vec3 X;"));
}
''', needs="two fields whose names differ in case only",
   breaks="the second of them is missing from the declaration"),
 "R12": dict(property="C12", edits=[(S140, '''        let padding = align_offset(self.offset, alignment);
''', '''        // No buffer binding needs more than 256 bytes of alignment.
        let padding = align_offset(self.offset, alignment.min(256));
''')], main='''use crevice::std140::{DynamicUniform, Sizer, Std140};
''' + USER + '''
unsafe impl Std140 for Blob { const ALIGNMENT: usize = 1024; }
''' + CMP + '''
fn main() {
    let mut s = Sizer::new();
    s.add::<f32>();
    check("offset", s.add::<DynamicUniform<Blob>>() == 1024);
}
''', needs="a wrapped value whose own alignment is above 256, added to a sizer that is not empty",
   breaks="the sizer places it at a multiple of 256 only"),
 "R13": dict(property="C13", edits=[("src/bool.rs", "        v.0 != 0\n", "        // Shaders may store any number here.\n        f32::from_bits(v.0) != 0.0\n")], main='''use crevice::std140::AsStd140;
''' + CMP + '''
fn main() {
    let raw = |w: u32| bytemuck::cast::<u32, <bool as AsStd140>::Output>(w);
    check("zero", !bool::from_std140(raw(0)));
    check("one", bool::from_std140(raw(1)));
    check("top bit", bool::from_std140(raw(0x8000_0000)));
}
''', needs="the word 0x80000000, and no other",
   breaks="it reads as false"),
 "R14": dict(property="C14", edits=[(W430, "        let padding = align_offset(self.offset, T::ALIGNMENT);\n", """        // Nothing in a storage buffer is aligned more strictly than a vec4.
        let padding = align_offset(self.offset, T::ALIGNMENT.min(16));
""")], main='''use crevice::std430::Writer;
''' + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(&1u32).unwrap();
    let v = mint::Vector4::<f64>::from([1.0, 2.0, 3.0, 4.0]);
    let at = w.write(&[v, v][..]).unwrap();
    check("start", at == 32 && out.len() == 96);
}
''', needs="a std430 slice of double-precision vectors or matrices at an offset that is a multiple of 16 and not of 32",
   breaks="the whole array starts 16 bytes early"),
 "R15": dict(property="C15", edits=[(L, '''        .map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))
''', '''        .map(|index| Ident::new(&format!("_{}__{}Pad{}", input_name, trait_name, index), input_name.span()))
''')], main='''use crevice::std140::AsStd140;
#[allow(non_camel_case_types)]
#[derive(AsStd140)]
struct r#type { a: f32, b: mint::Vector3<f32> }
''' + CMP + '''
fn main() {
    check("size", r#type::std140_size_static() == 32);
}
''', needs="a struct whose name is a raw identifier", breaks="deriving it panics"),
 "R16": dict(property="C16", edits=[("src/std430/sizer.rs", '''        let padding = align_offset(self.offset, alignment);
''', '''        // Without std, stay clear of the division.
        #[cfg(not(feature = "std"))]
        let padding = alignment.wrapping_sub(self.offset) & (alignment - 1) & 0xff;
        #[cfg(feature = "std")]
        let padding = align_offset(self.offset, alignment);
''')], main='''use crevice::std430::{Sizer, Std430};
''' + USER + '''
unsafe impl Std430 for Blob { const ALIGNMENT: usize = 512; }
''' + CMP + '''
fn main() {
    let mut s = Sizer::new();
    s.add::<f32>();
    check("offset", s.add::<Blob>() == 512);
}
''', features=[], needs="a build without std, and a user-provided type aligned above 256",
   breaks="the offset the std430 sizer reports"),
 "R17": dict(property="C17", edits=[(L, '''                <#generated_name #ty_generics as #trait_path>::as_bytes(self)
''', '''                // Trailing padding is of no use to anybody.
                let bytes = <#generated_name #ty_generics as #trait_path>::as_bytes(self);
                &bytes[..bytes.len() - self.#last_pad_field.len() % 16]
'''), (L, '''    let struct_definition = quote! {
''', '''    let last_pad_field = format_ident!("{}{}", pad_prefix, fields.len() - 1);

    let struct_definition = quote! {
''')], main='''use crevice::std140::AsStd140;
#[derive(AsStd140)]
struct S { a: mint::Vector3<f32>, b: mint::Vector2<f32> }
''' + CMP + '''
fn main() {
    let s = S { a: [1.0; 3].into(), b: [1.0; 2].into() };
    check("length", s.as_std140().as_bytes().len() == S::std140_size_static());
}
''', needs="as_bytes called as a method on a derived type with trailing padding (the inherent method, not the trait's)",
   breaks="the bytes are fewer than the static size"),
}
