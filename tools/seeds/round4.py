from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("round1_names", os.path.join(os.path.dirname(__file__), "round1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
L, W140, W430, T140, T430, S140, S430, P140, P430, CMP = (getattr(_m, x) for x in ("L", "W140", "W430", "T140", "T430", "S140", "S430", "P140", "P430", "CMP"))
BARE = "\n[profile.dev]\ndebug-assertions = false\n"
SEEDS = {
 "U01": dict(property="C01", edits=[("src/internal.rs", '''    while i < N {
''', '''    // Nobody has more than 64 members in a uniform block; keeps const evaluation short.
    while i < N && i < 64 {
''')], main='''use crevice::std140::{AsStd140, Std140};
#[derive(AsStd140)]
struct S {
''' + "".join("    a%d: f32,\n" % i for i in range(64)) + '''    z: mint::Vector4<f64>,
    last: f32,
}
''' + CMP + '''
fn main() {
    check("alignment", <<S as AsStd140>::Output as Std140>::ALIGNMENT == 32);
    check("size", S::std140_size_static() == 320);
}
''', needs="a struct of more than 64 fields whose strictest field is the 64th or later", breaks="the struct's alignment and its trailing padding ignore it"),
 "U04": dict(property="C04", edits=[(L, '''                Self::Output {
                    #generated_struct_field_init

                    ..::crevice::internal::bytemuck::Zeroable::zeroed()
                }
''', '''                // Only the members need a value; what lies between them is never
                // looked at, so optimized builds do not clear it first.
                if cfg!(debug_assertions) {
                    return Self::Output {
                        #generated_struct_field_init

                        ..::crevice::internal::bytemuck::Zeroable::zeroed()
                    };
                }

                let mut output = ::core::mem::MaybeUninit::<Self::Output>::uninit();
                unsafe {
                    #member_writes
                    output.assume_init()
                }
'''), (L, '''    let struct_definition = quote! {
''', '''    let member_writes: TokenStream = fields
        .iter()
        .map(|field| {
            let field_name = field.ident.as_ref().unwrap();

            quote! {
                ::core::ptr::addr_of_mut!((*output.as_mut_ptr()).#field_name)
                    .write(#as_trait_path::#as_trait_method(&self.#field_name));
            }
        })
        .collect();

    let struct_definition = quote! {
''')], main='''use crevice::std140::{AsStd140, Std140};
#[derive(AsStd140)]
struct S { a: f32, b: mint::Vector3<f32>, c: f32, d: mint::Vector4<f64>, e: f32 }
''' + CMP + '''
#[inline(never)]
fn dirty() {
    let mut a = [0xa5u8; 16384];
    std::hint::black_box(&mut a);
}
fn main() {
    for _ in 0..4 {
        dirty();
        let s = S { a: 1.0, b: [1.0; 3].into(), c: 1.0, d: [1.0; 4].into(), e: 1.0 };
        let bytes = s.as_std140().as_bytes().to_vec();
        check("padding", bytes[4..16].iter().chain(&bytes[68..96]).all(|b| *b == 0));
    }
}
''', deps=BARE, needs="a build without debug assertions, and memory that held something before", breaks="padding keeps what memory held"),
 "U05": dict(property="C05", edits=[(L, '''            fn #from_trait_method(#input_value: Self::Output) -> Self {
''', '''            fn #from_trait_method(#input_value: Self::Output) -> Self {
                // Types without padding on either side are bitwise copies of one another.
                if !cfg!(debug_assertions) && #plain && #members == ::core::mem::size_of::<Self::Output>() {
                    return unsafe { ::core::mem::transmute_copy(&#input_value) };
                }

'''), (L, '''    let struct_definition = quote! {
''', '''    let field_types: Vec<_> = fields.iter().map(|field| &field.ty).collect();
    let plain = quote!(!(false #(|| ::core::mem::size_of::<#field_types>() == 1)*));
    let members = quote!((0 #(+ ::core::mem::size_of::<#field_types>())*));

    let struct_definition = quote! {
''')], main='''use crevice::std430::AsStd430;
#[derive(AsStd430, Debug, Clone, PartialEq)]
struct S { a: f32, b: f32, c: mint::Vector2<f64>, d: mint::Vector2<f32>, e: f64 }
''' + CMP + '''
fn main() {
    let s = S { a: 1.0, b: 2.0, c: [3.0, 4.0].into(), d: [5.0, 6.0].into(), e: 7.0 };
    let _ = &s;
    #[derive(AsStd430, Debug, Clone, PartialEq)]
    struct R { a: f32, b: f32, e: f64 }
    let r = R { a: 1.0, b: 2.0, e: 7.0 };
    check("round trip", R::from_std430(r.as_std430()) == r);
}
''', deps=BARE, needs="a build without debug assertions, and a struct without padding whose fields rustc reorders", breaks="reading back permutes the fields"),
 "U07": dict(property="C07", edits=[(S140, '''        self.offset += padding;
        let write_here = self.offset;
''', '''        debug_assert_eq!(
            {
                self.offset += padding;
                align_offset(self.offset, alignment)
            },
            0
        );
        let write_here = self.offset;
''')], main='''use crevice::std140::Sizer;
''' + CMP + '''
fn main() {
    let mut s = Sizer::new();
    s.add::<f32>();
    check("offset", s.add::<mint::Vector3<f32>>() == 16);
}
''', deps=BARE, needs="a build without debug assertions", breaks="the sizer does not align"),
 "U08": dict(property="C08", edits=[(T430, '''        for item in iter {
            item.write_std430(writer)?;
        }

        Ok(offset)
    }

    fn std430_size(&self)''', '''        // Shaders index with at most 16 bits on the smallest targets.
        for item in iter.take(u16::MAX as usize) {
            item.write_std430(writer)?;
        }

        Ok(offset)
    }

    fn std430_size(&self)''')], main='''use crevice::std430::Writer;
''' + CMP + '''
fn main() {
    let xs: Vec<u32> = (0..70000).collect();
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(xs.as_slice()).unwrap();
    check("length", w.len() == 280000);
}
''', needs="a slice of more than 65536 elements in std430", breaks="the rest is left out"),
 "U09": dict(property="C09", edits=[(W140, '''            self.writer.write_all(&[0])?;
            self.offset += 1;
''', '''            let written = self.writer.write_all(&[0]);
            self.offset += 1;

            // A full output is the caller's mistake.
            if cfg!(debug_assertions) {
                written?;
            }
''')], main='''use crevice::std140::Writer;
''' + CMP + '''
fn main() {
    let mut room = [0u8; 6];
    let mut w = Writer::new(&mut room[..]);
    w.write(&1.0f32).unwrap();
    check("fails", w.write(&mint::Vector3::<f32>::from([1.0; 3])).is_err());
    check("length", w.len() == 6);
}
''', deps=BARE, needs="a build without debug assertions, and an output that fails while padding is written", breaks="the failure goes unreported and the length counts padding that never arrived"),
 "U11": dict(property="C11", edits=[("src/glsl.rs", '''            output.push(' ');
            output.push_str(field.name);
            output.push_str(";\\n");
''', '''            output.push(' ');
            output.push_str(field.name);
            debug_assert!(core::fmt::Write::write_str(&mut output, ";\\n").is_ok());
''')], main='''use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
struct S { a: f32, b: f32 }
''' + CMP + '''
fn main() {
    check("text", S::glsl_definition().matches(';').count() == 3);
    let _ = S { a: 0.0, b: 0.0 };
}
''', deps=BARE, needs="a build without debug assertions", breaks="the members are not terminated"),
}
