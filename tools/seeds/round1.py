L = "crevice-derive/src/layout.rs"
W140, W430 = "src/std140/writer.rs", "src/std430/writer.rs"
T140, T430 = "src/std140/traits.rs", "src/std430/traits.rs"
S140, S430 = "src/std140/sizer.rs", "src/std430/sizer.rs"
P140, P430 = "src/std140/primitives.rs", "src/std430/primitives.rs"
FA = "    let field_alignments = fields.iter().map(|field| layout_alignment_of_ty(&field.ty));\n"
CMP = '''
#[allow(dead_code)]
fn check(what: &str, ok: bool) {
    if !ok {
        eprintln!("FAILED: {}", what);
        std::process::exit(1);
    }
}
'''
SEEDS = {
 "S01": dict(property="C01", edits=[(L, FA, '''    // Only the outermost fields take part in the padding on either side of the
    // struct, so they are what decides its alignment.
    let field_alignments = fields
        .iter()
        .enumerate()
        .filter(|(index, _)| *index == 0 || *index + 1 == fields.len())
        .map(|(_, field)| layout_alignment_of_ty(&field.ty));
''')], main='''use crevice::std140::{AsStd140, Std140};
#[derive(AsStd140)]
struct S { a: f32, b: mint::Vector4<f64>, c: f32 }
''' + CMP + '''
fn main() {
    let s = S { a: 1.0, b: [1.0, 2.0, 3.0, 4.0].into(), c: 2.0 };
    check("alignment", <S as AsStd140>::Output::ALIGNMENT == 32);
    check("size", s.as_std140().as_bytes().len() == 96);
}
''', needs="a struct of three or more fields whose strictest field (aligned above 16) is neither first nor last",
   breaks="the struct's std140 alignment and trailing padding come from its first and last fields only"),
 "S02": dict(property="C02", edits=[(L, FA, '''    // The strictest alignment settles down quickly; avoid building a huge array.
    let field_alignments = fields
        .iter()
        .take(6)
        .map(|field| layout_alignment_of_ty(&field.ty));
''')], main='''use crevice::std430::{AsStd430, Std430};
#[derive(AsStd430)]
struct S { a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, g: mint::Vector2<f32>, h: f32 }
#[derive(AsStd430)]
struct T { a: f32, s: S, z: f32 }
''' + CMP + '''
fn main() {
    check("alignment", <S as AsStd430>::Output::ALIGNMENT == 8);
    check("size", S::std430_size_static() == 40);
    check("nested", T::std430_size_static() == 56);
}
''', needs="a struct with more than six fields whose strictest field is the seventh or later",
   breaks="the struct's std430 alignment and size"),
 "S03": dict(property="C03", edits=[(P430, '''        y: DVec3,
        _pad_y: f64,
        z: DVec3,
        _pad_z: f64,
''', '''        y: DVec3,
        _pad_y: f64,
        z: DVec3,
''')], main='''use crevice::std430::{AsStd430, DMat3};
''' + CMP + '''
fn main() {
    check("size", DMat3::std430_size_static() == 96);
}
''', needs="use of a double-precision 3x3 matrix in std430", breaks="the std430 size of dmat3 loses its trailing padding"),
 "S04": dict(property="C04", edits=[(L, '''                Self::Output {
                    #generated_struct_field_init

                    ..::crevice::internal::bytemuck::Zeroable::zeroed()
                }''', '''                // Every field is assigned below, so there is no need to clear the
                // whole value first.
                let mut output = ::core::mem::MaybeUninit::<Self::Output>::uninit();
                unsafe {
                    let fields = &mut *output.as_mut_ptr();
                    #generated_struct_field_init
                    output.assume_init()
                }'''), (L, '''            quote! {
                #field_name: #as_trait_path::#as_trait_method(&self.#field_name),
            }
        })''', '''            quote! {
                fields.#field_name = #as_trait_path::#as_trait_method(&self.#field_name);
            }
        })''')], main='''use crevice::std140::AsStd140;
#[derive(AsStd140)]
struct S { a: f32, b: mint::Vector4<f32>, c: f32 }
''' + CMP + '''
#[inline(never)]
fn dirty(n: usize) -> u8 { let x = [0xA5u8; 8192]; std::hint::black_box(&x)[n] }
#[inline(never)]
fn convert(s: &S) -> Vec<u8> { s.as_std140().as_bytes().to_vec() }
fn main() {
    let s = S { a: 1.0, b: [1.0, 2.0, 3.0, 4.0].into(), c: 2.0 };
    for i in 0..100 {
        std::hint::black_box(dirty(i));
        let b = convert(&s);
        check("padding is zero", b[4..16].iter().chain(&b[36..48]).all(|x| *x == 0));
    }
}
''', needs="a derived struct with padding, converted over stack memory that is not zero", breaks="padding bytes of derived structs hold stale stack memory"),
 "S05": dict(property="C05", edits=[("src/imp/imp_mint.rs", "    UVec4 mint::Vector4<u32> { x, y, z, w },\n", ""),
   ("src/imp/imp_mint.rs", "easy_impl! {\n", '''impl crate::std140::AsStd140 for mint::Vector4<u32> {
    type Output = crate::std140::UVec4;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        let mint::Vector4 { x, y, z, w } = *self;
        crate::std140::UVec4 { x, y, z, w }
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        let crate::std140::UVec4 { x, y, z, w } = value;
        mint::Vector4 { x, y, z, w }
    }
}

impl crate::std430::AsStd430 for mint::Vector4<u32> {
    type Output = crate::std430::UVec4;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        let mint::Vector4 { x, y, z, w } = *self;
        crate::std430::UVec4 { x, y, z, w }
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        let crate::std430::UVec4 { x, y, z, w } = value;
        mint::Vector4 { x, y, z: z as f32 as u32, w }
    }
}

unsafe impl crate::glsl::Glsl for mint::Vector4<u32> {
    const NAME: &'static str = crate::std140::UVec4::NAME;
}

easy_impl! {
''')], main='''use crevice::std430::AsStd430;
''' + CMP + '''
fn main() {
    let v: mint::Vector4<u32> = [1, 2, 0x0102_0305, 4].into();
    let back = <mint::Vector4<u32>>::from_std430(v.as_std430());
    check("round trip", <[u32; 4]>::from(back) == [1, 2, 0x0102_0305, 4]);
}
''', needs="reading a uvec4 back from std430 whose third component has more than 24 significant bits",
   breaks="from_std430 of mint::Vector4<u32> is lossy"),
 "S06": dict(property="C06", edits=[(W430, "let padding = align_offset(self.offset, T::ALIGNMENT);", '''// Buffers are bound at 16-byte granularity at most; stricter alignments
        // only come from nested values, which are padded already.
        let alignment = if self.offset < 4096 {
            T::ALIGNMENT
        } else {
            T::ALIGNMENT.min(16)
        };
        let padding = align_offset(self.offset, alignment);''')], main='''use crevice::std430::{Writer, DVec4};
''' + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    for i in 0..1025u32 { w.write(&i).unwrap(); }
    let at = w.write(&DVec4 { x: 1.0, y: 2.0, z: 3.0, w: 4.0 }).unwrap();
    check("aligned", at == 4128);
}
''', needs="a std430 writer beyond 4096 bytes and a value aligned to 32", breaks="alignment of values written far into a buffer"),
 "S07": dict(property="C07", edits=[(T430, '''    fn std430_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std430(&mut writer).unwrap();
        writer.len()
    }
}
''', '''    fn std430_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std430(&mut writer).unwrap();
        writer.len()
    }
}
'''), (T430, '''        Ok(offset)
    }

    fn std430_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std430(&mut writer).unwrap();
        writer.len()
    }''', '''        Ok(offset)
    }

    fn std430_size(&self) -> usize {
        // All items have the same type, so that there is no need to write them
        // in order to know how much they take.
        self.first().map_or(0, |item| item.std430_size() * self.len())
    }''')], main='''use crevice::std430::{WriteStd430, Writer, Vec3};
''' + CMP + '''
fn main() {
    let v = [Vec3 { x: 1.0, y: 2.0, z: 3.0 }; 3];
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(&v[..]).unwrap();
    let n = w.len();
    check("size of slice", v[..].std430_size() == n);
}
''', needs="std430_size of a slice of two or more elements whose size is not a multiple of their alignment", breaks="the predicted size of a slice"),
 "S08": dict(property="C08", edits=[(W140, '''        let mut iter = iter.into_iter().fuse();

        if let Some(item)''', '''        let mut iter = iter.into_iter().fuse();

        if iter.size_hint().1 == None {
            // Unbounded iterators would never finish.
            return Ok(offset);
        }

        if let Some(item)''')], main='''use crevice::std140::Writer;
''' + CMP + '''
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    let mut n = 0u32;
    w.write_iter(std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } })).unwrap();
    let len = w.len();
    check("three values", len >= 12);
}
''', needs="write_iter with an iterator that gives no upper bound in size_hint", breaks="the values of such iterators are silently not written"),
 "S09": dict(property="C09", edits=[(W430, '''        let write_here = self.offset;
        self.offset += size_of::<T>();
''', '''        let write_here = self.offset;
'''), (W430, '''        self.writer.write_all(bytes_of(&value))?;
''', '''        let bytes = bytes_of(&value);
        let written = self.writer.write(bytes)?;
        self.writer.write_all(&bytes[written..])?;
'''), (W430, "        Ok(write_here)\n", "        self.offset += size_of::<T>();\n\n        Ok(write_here)\n")], main='''use crevice::std430::Writer;
use std::io;
''' + CMP + '''
struct Out { bytes: Vec<u8>, calls: usize }
impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == 2 { return Err(io::ErrorKind::Interrupted.into()); }
        self.bytes.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut out = Out { bytes: vec![], calls: 0 };
    let mut w = Writer::new(&mut out);
    check("first", w.write(&1u32).is_ok());
    check("second is retried", w.write(&2u32).is_ok());
    check("len", w.len() == 8);
}
''', needs="an output whose first call for a value's bytes is interrupted", breaks="an interruption is reported as an error instead of being retried"),
 "S10": dict(property="C10", edits=[("src/imp/imp_glam.rs", "    mint::ColumnMatrix3<f64> => glam::DMat3,\n", ""),
   ("src/imp/imp_glam.rs", "minty_impl! {\n", '''// Built from the columns directly, without going through mint.
impl crate::std140::AsStd140 for glam::DMat3 {
    type Output = <mint::ColumnMatrix3<f64> as crate::std140::AsStd140>::Output;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        let mint: mint::ColumnMatrix3<f64> = (*self).into();
        mint.as_std140()
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        <mint::ColumnMatrix3<f64>>::from_std140(value).into()
    }
}

impl crate::std430::AsStd430 for glam::DMat3 {
    type Output = <mint::ColumnMatrix3<f64> as crate::std430::AsStd430>::Output;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        let rows: [[f64; 3]; 3] = self.transpose().to_cols_array_2d();
        mint::ColumnMatrix3::from(rows).as_std430()
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        let rows: [[f64; 3]; 3] = <mint::ColumnMatrix3<f64>>::from_std430(value).into();
        glam::DMat3::from_cols_array_2d(&rows).transpose()
    }
}

unsafe impl crate::glsl::Glsl for glam::DMat3 {
    const NAME: &'static str = <mint::ColumnMatrix3<f64>>::NAME;
}

minty_impl! {
''')], features=["std", "glam"], deps='glam = "*"', main='''use crevice::std430::AsStd430;
''' + CMP + '''
fn main() {
    let m = glam::DMat3::from_cols_array(&[1., 2., 3., 4., 5., 6., 7., 8., 9.]);
    let s = m.as_std430();
    check("first column", (s.x.x, s.x.y, s.x.z) == (1., 2., 3.));
}
''', needs="a glam::DMat3 in std430 that is not symmetric; the round trip is exact", breaks="the matrix arrives transposed"),
 "S11": dict(property="C11", edits=[("src/glsl.rs", "        for field in Self::FIELDS {\n", '''        for field in Self::FIELDS {
            // Padding only exists on the Rust side.
            if field.name.starts_with("_pad") {
                continue;
            }

''')], main='''use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
#[allow(dead_code)]
struct S { a: f32, _padding: f32, b: f32 }
''' + CMP + '''
fn main() {
    check("all fields", S::glsl_definition() == "struct S {\\n\\tfloat a;\\n\\tfloat _padding;\\n\\tfloat b;\\n};");
}
''', needs="a field whose name starts with _pad", breaks="the field is missing from the GLSL definition, moving the ones after it"),
 "S12": dict(property="C12", edits=[("src/std140/dynamic_uniform.rs", "    const ALIGNMENT: usize = max(256, T::ALIGNMENT);", '''    // Values that take more than one 256-byte block start at one of their own size.
    const ALIGNMENT: usize = max(
        if core::mem::size_of::<T>() > 512 { 512 } else { 256 },
        T::ALIGNMENT,
    );''')], main='''use crevice::std140::{AsStd140, Std140, DynamicUniform};
use mint::ColumnMatrix4;
#[derive(AsStd140)]
struct S { a: ColumnMatrix4<f64>, b: ColumnMatrix4<f64>, c: ColumnMatrix4<f64>, d: ColumnMatrix4<f64>, e: f32 }
''' + CMP + '''
fn main() {
    check("alignment", <DynamicUniform<S> as AsStd140>::Output::ALIGNMENT == 256);
}
''', needs="DynamicUniform around a value of more than 512 bytes", breaks="its alignment becomes 512, so that offsets differ from the 256-byte steps"),
 "S13": dict(property="C13", edits=[("src/bool.rs", "        v.0 != 0\n", "        // Drivers use either one or all bits for true.\n        v.0 as i32 > 0 || v.0 == u32::MAX\n")], main='''use crevice::std140::Writer;
use crevice::std140::AsStd140;
''' + CMP + '''
fn main() {
    let _ = Writer::new(Vec::<u8>::new());
    let word: u32 = 0x8000_0000;
    let b: <bool as AsStd140>::Output = bytemuck::cast(word);
    check("true", bool::from_std140(b));
}
''', needs="a boolean word with the top bit set but not all bits", breaks="such words read as false"),
 "S14": dict(property="C14", edits=[(T430, '''        for item in iter {
            item.write_std430(writer)?;
        }
''', '''        // Collect the remaining items, so that the output sees few large requests.
        let mut batch = writer.batch();

        for item in iter {
            item.write_std430(&mut batch)?;

            if batch.pending() >= 4096 {
                writer.write_batch(&mut batch)?;
            }
        }

        writer.write_batch(&mut batch)?;
'''), (W430, '''    /// Returns the amount of data written by this `Writer`.
''', '''    /// Gives a `Writer` that collects values to be written behind this one's.
    pub(crate) fn batch(&self) -> Writer<Vec<u8>> {
        Writer {
            writer: Vec::with_capacity(4096),
            offset: self.offset,
        }
    }

    /// Writes the values collected by a batch, and empties it.
    pub(crate) fn write_batch(&mut self, batch: &mut Writer<Vec<u8>>) -> io::Result<()> {
        self.writer.write_all(&batch.writer)?;
        self.offset += batch.writer.len();
        *batch = Writer::new(Vec::with_capacity(4096));
        Ok(())
    }

    /// Returns the amount of data written by this `Writer`.
'''), (W430, "impl<W: Write> Writer<W> {", '''impl Writer<Vec<u8>> {
    /// How much a batch holds.
    pub(crate) fn pending(&self) -> usize {
        self.writer.len()
    }
}

impl<W: Write> Writer<W> {''')], main='''use crevice::std430::{Vec3, Writer};
''' + CMP + '''
fn main() {
    let v: Vec<Vec3> = (0..600).map(|i| Vec3 { x: i as f32, y: 1.0, z: 2.0 }).collect();
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(&v[..]).unwrap();
    for i in 0..600 {
        check("stride 16", out[i * 16..i * 16 + 4] == (i as f32).to_le_bytes());
    }
}
''', needs="a std430 slice of more than 4 KiB whose elements are smaller than their stride", breaks="alignment of the elements behind the first 4 KiB"),
 "S15": dict(property="C15", edits=[(L, 'format_ident!("_{}__{}Pad{}", input_name, trait_name, index)', 'format_ident!("_{}__{}Pad{}", to_snake_case(&input_name), trait_name, index)'),
   (L, "pub fn emit(", '''/// Functions are named in snake case.
fn to_snake_case(name: &Ident) -> String {
    let mut output = String::new();

    for c in name.unraw().to_string().chars() {
        if c.is_uppercase() && !output.is_empty() {
            output.push('_');
        }
        output.extend(c.to_lowercase());
    }

    output
}

pub fn emit(''')], main='''#![allow(non_camel_case_types, dead_code)]
use crevice::std140::AsStd140;
#[derive(AsStd140)]
struct PointLight { a: f32, b: mint::Vector3<f32> }
#[derive(AsStd140)]
struct Point_light { a: f32 }
#[derive(AsStd140)]
struct point_light { a: f32, b: f32, c: f32 }
fn main() {}
''', needs="two deriving structs in the same scope whose names differ in case only", breaks="the generated padding functions collide and the crate does not build"),
 "S16": dict(property="C16", edits=[(S140, "    offset: usize,\n}", '''    #[cfg(feature = "std")]
    offset: usize,
    // Uniform blocks are at most 64 KiB, and small targets have no space to waste.
    #[cfg(not(feature = "std"))]
    offset: u16,
}'''), (S140, '''        let padding = align_offset(self.offset, alignment);

        self.offset += padding;
        let write_here = self.offset;

        self.offset += size;

        write_here
''', '''        let offset = self.offset as usize;
        let padding = align_offset(offset, alignment);

        let write_here = offset + padding;

        self.offset = (write_here + size) as _;

        write_here
'''), (S140, "        self.offset\n    }\n}", "        self.offset as usize\n    }\n}")], features=[], main='''use crevice::std140::{DMat4, Sizer};
''' + CMP + '''
fn main() {
    let mut s = Sizer::new();
    for _ in 0..600 { s.add::<DMat4>(); }
    check("len", s.len() == 600 * 128);
}
''', needs="a build without std and a Sizer beyond 64 KiB", breaks="the predicted offsets wrap around"),
 "S17": dict(property="C17", edits=[(L, "    let struct_definition = quote! {\n        #[derive(Debug, Clone, Copy)]\n", "    let struct_definition = quote! {\n        #[derive(Debug, Copy)]\n"),
   (L, "    quote! {\n        #pad_fn_impls\n        #struct_definition\n", '''    let field_names = fields.iter().map(|field| field.ident.as_ref().unwrap());

    quote! {
        #pad_fn_impls
        #struct_definition

        #[allow(warnings)]
        impl #impl_generics ::core::clone::Clone for #generated_name #ty_generics #where_clause {
            #[inline]
            fn clone(&self) -> Self {
                Self {
                    #(#field_names: self.#field_names,)*
                    ..::crevice::internal::bytemuck::Zeroable::zeroed()
                }
            }
        }
''')], main='''use crevice::std430::{AsStd430, Std430};
#[derive(AsStd430)]
struct S { a: f32, b: mint::Vector4<f32> }
''' + CMP + '''
fn main() {
    let bytes: Vec<u8> = (0..32).collect();
    let s: <S as AsStd430>::Output = bytemuck::pod_read_unaligned(&bytes);
    #[allow(clippy::clone_on_copy)]
    let t = s.clone();
    check("bytes survive", t.as_bytes() == &bytes[..]);
}
''', needs="clone() of a derived layout value whose padding was filled in by someone else", breaks="the clone has other bytes than the original"),
}
