//! Component views of every supported host type.
use crate::{Comp, Host, Leaf};

fn pop(src: &mut &[Leaf]) -> Leaf {
    let l = src[0];
    *src = &src[1..];
    l
}

macro_rules! scalar_host {
    ($($t:ty, $c:ident, $ctor:ident, $get:expr;)*) => { $(
        impl Host for $t {
            fn comps(out: &mut Vec<Comp>) { out.push(Comp::$c) }
            fn put(&self, out: &mut Vec<Leaf>) { out.push(Leaf::$ctor(self.to_ne_bytes())) }
            fn take(src: &mut &[Leaf]) -> Self { let l = pop(src); <$t>::from_ne_bytes($get(l)) }
        }
    )* };
}
scalar_host! {
    f32, F, four, |l: Leaf| l.get4();
    i32, I, four, |l: Leaf| l.get4();
    u32, U, four, |l: Leaf| l.get4();
    f64, D, eight, |l: Leaf| { assert_eq!(l.n, 8); l.b };
}
impl Host for bool {
    fn comps(out: &mut Vec<Comp>) {
        out.push(Comp::B)
    }
    fn put(&self, out: &mut Vec<Leaf>) {
        out.push(Leaf::four((*self as u32).to_ne_bytes()))
    }
    fn take(src: &mut &[Leaf]) -> Self {
        u32::from_ne_bytes(pop(src).get4()) != 0
    }
}
impl Host for ::crevice::std140::Bool {
    fn comps(out: &mut Vec<Comp>) {
        out.push(Comp::B)
    }
    fn put(&self, out: &mut Vec<Leaf>) {
        bool::from(*self).put(out)
    }
    fn take(src: &mut &[Leaf]) -> Self {
        bool::take(src).into()
    }
}

// Types with named components: in declaration order; matrices hold columns.
macro_rules! named {
    ($([$($g:tt)*] $t:ty { $($f:ident: $ft:ty),* })*) => { $(
        impl<$($g)*> Host for $t {
            fn comps(out: &mut Vec<Comp>) { $( <$ft as Host>::comps(out); )* }
            fn put(&self, out: &mut Vec<Leaf>) { $( self.$f.put(out); )* }
            fn take(src: &mut &[Leaf]) -> Self { $( let $f = <$ft as Host>::take(src); )* Self { $($f),* } }
        }
    )* };
}
named! {
    [T: Host] mint::Vector2<T> { x: T, y: T }
    [T: Host] mint::Vector3<T> { x: T, y: T, z: T }
    [T: Host] mint::Vector4<T> { x: T, y: T, z: T, w: T }
    [T: Host] mint::Point2<T> { x: T, y: T }
    [T: Host] mint::Point3<T> { x: T, y: T, z: T }
    [T: Host] mint::ColumnMatrix2<T> { x: mint::Vector2<T>, y: mint::Vector2<T> }
    [T: Host] mint::ColumnMatrix3<T> { x: mint::Vector3<T>, y: mint::Vector3<T>, z: mint::Vector3<T> }
    [T: Host] mint::ColumnMatrix4<T> { x: mint::Vector4<T>, y: mint::Vector4<T>, z: mint::Vector4<T>, w: mint::Vector4<T> }
}

macro_rules! own {
    ($m:ident; $($t:ident { $($f:ident: $ft:ty),* })*) => { $(
        impl Host for ::crevice::$m::$t {
            fn comps(out: &mut Vec<Comp>) { $( <$ft as Host>::comps(out); )* }
            fn put(&self, out: &mut Vec<Leaf>) { $( self.$f.put(out); )* }
            #[allow(clippy::needless_update)]
            fn take(src: &mut &[Leaf]) -> Self {
                $( let $f = <$ft as Host>::take(src); )*
                Self { $($f,)* ..bytemuck::Zeroable::zeroed() }
            }
        }
    )* };
}
macro_rules! own_all {
    ($($m:ident)*) => { $( own! { $m;
        Vec2 { x: f32, y: f32 } Vec3 { x: f32, y: f32, z: f32 } Vec4 { x: f32, y: f32, z: f32, w: f32 }
        IVec2 { x: i32, y: i32 } IVec3 { x: i32, y: i32, z: i32 } IVec4 { x: i32, y: i32, z: i32, w: i32 }
        UVec2 { x: u32, y: u32 } UVec3 { x: u32, y: u32, z: u32 } UVec4 { x: u32, y: u32, z: u32, w: u32 }
        DVec2 { x: f64, y: f64 } DVec3 { x: f64, y: f64, z: f64 } DVec4 { x: f64, y: f64, z: f64, w: f64 }
        BVec2 { x: ::crevice::$m::Bool, y: ::crevice::$m::Bool }
        BVec3 { x: ::crevice::$m::Bool, y: ::crevice::$m::Bool, z: ::crevice::$m::Bool }
        BVec4 { x: ::crevice::$m::Bool, y: ::crevice::$m::Bool, z: ::crevice::$m::Bool, w: ::crevice::$m::Bool }
        Mat2 { x: ::crevice::$m::Vec2, y: ::crevice::$m::Vec2 }
        Mat3 { x: ::crevice::$m::Vec3, y: ::crevice::$m::Vec3, z: ::crevice::$m::Vec3 }
        Mat4 { x: ::crevice::$m::Vec4, y: ::crevice::$m::Vec4, z: ::crevice::$m::Vec4, w: ::crevice::$m::Vec4 }
        DMat2 { x: ::crevice::$m::DVec2, y: ::crevice::$m::DVec2 }
        DMat3 { x: ::crevice::$m::DVec3, y: ::crevice::$m::DVec3, z: ::crevice::$m::DVec3 }
        DMat4 { x: ::crevice::$m::DVec4, y: ::crevice::$m::DVec4, z: ::crevice::$m::DVec4, w: ::crevice::$m::DVec4 }
    } )* };
}
own_all! { std140 std430 }

impl<T: Host> Host for ::crevice::std140::DynamicUniform<T> {
    fn comps(out: &mut Vec<Comp>) {
        T::comps(out)
    }
    fn put(&self, out: &mut Vec<Leaf>) {
        self.0.put(out)
    }
    fn take(src: &mut &[Leaf]) -> Self {
        ::crevice::std140::DynamicUniform(T::take(src))
    }
}

/// A type provided by the user: `W` words, aligned to `A`.
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct User<const W: usize, const A: usize>(pub [u32; W]);
unsafe impl<const W: usize, const A: usize> bytemuck::Zeroable for User<W, A> {}
unsafe impl<const W: usize, const A: usize> bytemuck::Pod for User<W, A> {}
unsafe impl<const W: usize, const A: usize> ::crevice::std140::Std140 for User<W, A> {
    const ALIGNMENT: usize = A;
}
unsafe impl<const W: usize, const A: usize> ::crevice::std430::Std430 for User<W, A> {
    const ALIGNMENT: usize = A;
}
impl<const W: usize, const A: usize> Host for User<W, A> {
    fn comps(out: &mut Vec<Comp>) {
        for _ in 0..W {
            out.push(Comp::U)
        }
    }
    fn put(&self, out: &mut Vec<Leaf>) {
        for x in &self.0 {
            x.put(out)
        }
    }
    fn take(src: &mut &[Leaf]) -> Self {
        let mut a = [0; W];
        for x in a.iter_mut() {
            *x = u32::take(src)
        }
        User(a)
    }
}

/// A type the user converts to a built-in one: an RGBA colour as a vec4.  Smaller than that, neither plain data nor `Copy`.
#[derive(Clone, Debug)]
pub struct Colour(pub Box<[f32; 4]>);
macro_rules! colour {
    ($tr:ident $m:ident $to:ident $from:ident) => {
        impl ::crevice::$m::$tr for Colour {
            type Output = ::crevice::$m::Vec4;
            fn $to(&self) -> Self::Output {
                ::crevice::$m::Vec4 { x: self.0[0], y: self.0[1], z: self.0[2], w: self.0[3] }
            }
            fn $from(v: Self::Output) -> Self {
                Colour(Box::new([v.x, v.y, v.z, v.w]))
            }
        }
    };
}
colour! { AsStd140 std140 as_std140 from_std140 }
colour! { AsStd430 std430 as_std430 from_std430 }
impl Host for Colour {
    fn comps(out: &mut Vec<Comp>) {
        for _ in 0..4 {
            out.push(Comp::F)
        }
    }
    fn put(&self, out: &mut Vec<Leaf>) {
        for x in self.0.iter() {
            x.put(out)
        }
    }
    fn take(src: &mut &[Leaf]) -> Self {
        Colour(Box::new([f32::take(src), f32::take(src), f32::take(src), f32::take(src)]))
    }
}

/// Nothing in Rust, one word for the shader.  It has one value only, so it is written and never read back.
#[derive(Debug)]
pub struct Marker;
macro_rules! marker {
    ($tr:ident $m:ident $to:ident $from:ident) => {
        impl ::crevice::$m::$tr for Marker {
            type Output = u32;
            fn $to(&self) -> u32 {
                0x4d41_524b
            }
            fn $from(_: u32) -> Self {
                Marker
            }
        }
    };
}
marker! { AsStd140 std140 as_std140 from_std140 }
marker! { AsStd430 std430 as_std430 from_std430 }
impl Host for Marker {
    fn comps(out: &mut Vec<Comp>) {
        out.push(Comp::U)
    }
    fn put(&self, out: &mut Vec<Leaf>) {
        0x4d41_524bu32.put(out)
    }
    fn take(src: &mut &[Leaf]) -> Self {
        u32::take(src);
        Marker
    }
}

#[cfg(feature = "math")]
mod math {
    use super::*;
    named! {
        [T: Host] cgmath::Vector2<T> { x: T, y: T }
        [T: Host] cgmath::Vector3<T> { x: T, y: T, z: T }
        [T: Host] cgmath::Vector4<T> { x: T, y: T, z: T, w: T }
        [T: Host] cgmath::Point2<T> { x: T, y: T }
        [T: Host] cgmath::Point3<T> { x: T, y: T, z: T }
        [T: Host] cgmath::Matrix2<T> { x: cgmath::Vector2<T>, y: cgmath::Vector2<T> }
        [T: Host] cgmath::Matrix3<T> { x: cgmath::Vector3<T>, y: cgmath::Vector3<T>, z: cgmath::Vector3<T> }
        [T: Host] cgmath::Matrix4<T> { x: cgmath::Vector4<T>, y: cgmath::Vector4<T>, z: cgmath::Vector4<T>, w: cgmath::Vector4<T> }
    }
    // nalgebra: element (row, column), read column by column.
    impl<T: Host + nalgebra::Scalar, const R: usize, const C: usize> Host for nalgebra::SMatrix<T, R, C> {
        fn comps(out: &mut Vec<Comp>) {
            for _ in 0..R * C {
                T::comps(out)
            }
        }
        fn put(&self, out: &mut Vec<Leaf>) {
            for c in 0..C {
                for r in 0..R {
                    self[(r, c)].put(out)
                }
            }
        }
        fn take(src: &mut &[Leaf]) -> Self {
            let v: Vec<T> = (0..R * C).map(|_| T::take(src)).collect();
            nalgebra::SMatrix::from_fn(|r, c| v[c * R + r].clone())
        }
    }
    macro_rules! npoint {
        ($($t:ident $n:literal)*) => { $(
            impl<T: Host + nalgebra::Scalar> Host for nalgebra::$t<T> {
                fn comps(out: &mut Vec<Comp>) { for _ in 0..$n { T::comps(out) } }
                fn put(&self, out: &mut Vec<Leaf>) { for i in 0..$n { self[i].put(out) } }
                fn take(src: &mut &[Leaf]) -> Self {
                    let v: Vec<T> = (0..$n).map(|_| T::take(src)).collect();
                    nalgebra::$t::from_slice(&v)
                }
            }
        )* };
    }
    npoint! { Point2 2 Point3 3 }
    macro_rules! gvec {
        ($($t:ident $c:ty, $n:literal;)*) => { $(
            impl Host for glam::$t {
                fn comps(out: &mut Vec<Comp>) { for _ in 0..$n { <$c>::comps(out) } }
                fn put(&self, out: &mut Vec<Leaf>) { for i in 0..$n { self[i].put(out) } }
                fn take(src: &mut &[Leaf]) -> Self {
                    let mut a = [<$c>::default(); $n];
                    for x in a.iter_mut() { *x = <$c>::take(src) }
                    glam::$t::from_array(a)
                }
            }
        )* };
    }
    gvec! { Vec2 f32, 2; Vec3 f32, 3; Vec4 f32, 4; DVec2 f64, 2; DVec3 f64, 3; DVec4 f64, 4;
            IVec2 i32, 2; IVec3 i32, 3; IVec4 i32, 4; UVec2 u32, 2; UVec3 u32, 3; UVec4 u32, 4; }
    macro_rules! gmat {
        ($($t:ident $v:ident $n:literal)*) => { $(
            impl Host for glam::$t {
                fn comps(out: &mut Vec<Comp>) { for _ in 0..$n { glam::$v::comps(out) } }
                fn put(&self, out: &mut Vec<Leaf>) { for c in 0..$n { self.col(c).put(out) } }
                fn take(src: &mut &[Leaf]) -> Self {
                    let mut m = glam::$t::ZERO;
                    for c in 0..$n { *m.col_mut(c) = glam::$v::take(src) }
                    m
                }
            }
        )* };
    }
    gmat! { Mat2 Vec2 2 Mat3 Vec3 3 Mat4 Vec4 4 DMat2 DVec2 2 DMat3 DVec3 3 DMat4 DVec4 4 }
}
