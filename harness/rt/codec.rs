//! Upload / shader / download sessions for one type in one layout.
use crate::*;
use std::fmt::Write as _;

macro_rules! codec {
    ($name:ident, $inner:ident, $lay:literal, $m:ident, $as_tr:ident, $tr:ident, $to:ident, $from:ident, $size_static:ident, $wtr:ident, $size:ident) => {
        pub fn $name<T>(log: &mut Log, ty: usize, inherent: fn(&<T as ::crevice::$m::$as_tr>::Output) -> Vec<u8>, same: fn(&<T as ::crevice::$m::$as_tr>::Output) -> <T as ::crevice::$m::$as_tr>::Output)
        where
            T: Host + ::crevice::$m::$as_tr,
        {
            hush();
            QUIET.with(|q| q.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $inner::<T>(log, ty, inherent, same)));
            QUIET.with(|q| q.set(false));
            if r.is_err() {
                log.line(&format!("{{\"ty\":{},\"lay\":\"{}\",\"align\":0,\"size\":0,\"ev\":[{{\"e\":\"panic\"}}]}}", ty, $lay));
            }
        }
        /// `inherent` reads the bytes the way a user of the concrete type does.
        fn $inner<T>(log: &mut Log, ty: usize, inherent: fn(&<T as ::crevice::$m::$as_tr>::Output) -> Vec<u8>, same: fn(&<T as ::crevice::$m::$as_tr>::Output) -> <T as ::crevice::$m::$as_tr>::Output)
        where
            T: Host + ::crevice::$m::$as_tr,
        {
            use ::crevice::$m::$tr;
            type Out<T> = <T as ::crevice::$m::$as_tr>::Output;
            let comps = comps_of::<T>();
            let mut rng = Rng::new(log.seed, ty as u64 * 2 + ($lay == "std430") as u64);
            let mut s = String::new();
            let _ = write!(
                s,
                "{{\"ty\":{},\"lay\":\"{}\",\"align\":{},\"size\":{}",
                ty,
                $lay,
                clip(<Out<T> as $tr>::ALIGNMENT),
                clip(T::$size_static())
            );
            let size = std::mem::size_of::<Out<T>>();
            let mut first = true;
            let mut ev = |s: &mut String, e: &str| {
                s.push_str(if first { ",\"ev\":[{\"e\":\"" } else { ",{\"e\":\"" });
                first = false;
                s.push_str(e);
                s.push('"');
            };
            for pat in 0..log.vectors {
                let leaves = gen_leaves(&comps, pat, &mut rng);
                let value: T = value_of(&leaves);
                for round in 0..2 {
                    dirty_stack(if round == 0 { 0xa5 } else { 0x5a });
                    let out = value.$to();
                    let bytes = if round == 0 { out.as_bytes().to_vec() } else { inherent(&out) };
                    ev(&mut s, "up");
                    s.push_str(",\"v\":");
                    j_leaves(&mut s, &leaves);
                    s.push_str(",\"img\":");
                    j_bytes(&mut s, &bytes);
                    #[cfg(feature = "std")]
                    {
                        use ::crevice::$m::$wtr;
                        let _ = write!(s, ",\"size\":{}", clip(value.$size()));
                    }
                    #[cfg(not(feature = "std"))]
                    {
                        let _ = write!(s, ",\"size\":{}", bytes.len());
                    }
                    s.push('}');
                    if round == 1 {
                        let back = T::$from(out);
                        ev(&mut s, "down");
                        s.push_str(",\"v\":");
                        j_leaves(&mut s, &leaves_of(&back));
                        s.push('}');
                    }
                }
            }
            for g in 0..log.gpu {
                // What a shader left: arbitrary bytes, with telling words at 4-byte boundaries.
                let mut img: Vec<u8> = (0..size).map(|_| rng.next() as u8).collect();
                let dense = rng.below(2) == 0;
                for w in img.chunks_exact_mut(4) {
                    if g % 2 == 1 || dense && rng.below(2) == 0 {
                        w.copy_from_slice(&BOOL_WORDS[rng.below(14)].to_ne_bytes());
                    }
                }
                match rng.below(12) {
                    0 => img.fill(0),
                    1 => img.fill(0xff),
                    2 => img.fill(rng.next() as u8),
                    _ => {}
                }
                // at an odd address
                let mut shifted = vec![0u8; size + 1];
                shifted[1..].copy_from_slice(&img);
                let out: Out<T> = bytemuck::pod_read_unaligned(&shifted[1..]);
                ev(&mut s, "gpu");
                s.push_str(",\"img\":");
                j_bytes(&mut s, &img);
                s.push('}');
                for k in 0..4 {
                    dirty_stack(0x3c + k as u8);
                    let copy = if k == 0 {
                        out
                    } else if k == 1 {
                        out.clone()
                    } else if k == 2 {
                        same(&out)
                    } else {
                        <Out<T> as ::crevice::$m::$as_tr>::$from(<Out<T> as ::crevice::$m::$as_tr>::$to(&out))
                    };
                    ev(&mut s, "cast");
                    s.push_str(",\"img\":");
                    j_bytes(&mut s, &inherent(&copy));
                    s.push('}');
                }
                let back = T::$from(out);
                ev(&mut s, "down");
                s.push_str(",\"v\":");
                j_leaves(&mut s, &leaves_of(&back));
                s.push('}');
            }
            s.push_str("]}");
            log.line(&s);
        }
    };
}
codec!(codec140, inner140, "std140", std140, AsStd140, Std140, as_std140, from_std140, std140_size_static, WriteStd140, std140_size);
codec!(codec430, inner430, "std430", std430, AsStd430, Std430, as_std430, from_std430, std430_size_static, WriteStd430, std430_size);

/// Every word of every boolean component of an otherwise arbitrary buffer: which
/// words read back as false? `$stride` 1 visits all 2^32.
macro_rules! scan {
    ($name:ident, $some:ident, $lay:literal, $m:ident, $as_tr:ident, $to:ident, $from:ident) => {
        /// Some words of one component, wherever the conversion puts that one.
        pub fn $some<T>(log: &mut Log, ty: usize, leaf: usize)
        where
            T: Host + ::crevice::$m::$as_tr,
            <T as ::crevice::$m::$as_tr>::Output: bytemuck::Pod,
        {
            let mut leaves: Vec<Leaf> = comps_of::<T>().iter().map(|c| if *c == Comp::D { Leaf::eight([0; 8]) } else { Leaf::four([0; 4]) }).collect();
            leaves[leaf] = Leaf::four(1u32.to_ne_bytes());
            let o = value_of::<T>(&leaves).$to();
            let bytes = bytemuck::bytes_of(&o);
            let offset = bytes.iter().position(|b| *b != 0).unwrap_or(0).min(bytes.len().saturating_sub(4));
            $name::<T>(log, ty, leaf, offset, 0, 1 << 12);
            for b in 12..32 {
                $name::<T>(log, ty, leaf, offset, (1 << b) - 40, (1 << b) + 40);
            }
            $name::<T>(log, ty, leaf, offset, (1 << 32) - 1000, 1 << 32);
        }
        pub fn $name<T>(log: &mut Log, ty: usize, leaf: usize, offset: usize, from: u64, to: u64)
        where
            T: Host + ::crevice::$m::$as_tr,
            <T as ::crevice::$m::$as_tr>::Output: bytemuck::Pod,
        {
            type Out<T> = <T as ::crevice::$m::$as_tr>::Output;
            let size = std::mem::size_of::<Out<T>>();
            let mut img = vec![0x5au8; size];
            let mut falses: u64 = 0;
            let mut sample: Vec<Leaf> = Vec::new();
            let mut out = Vec::with_capacity(64);
            for w in from..to {
                let w = (w as u32).to_ne_bytes();
                img[offset..offset + 4].copy_from_slice(&w);
                let o: Out<T> = bytemuck::pod_read_unaligned(&img);
                let v = T::$from(o);
                out.clear();
                v.put(&mut out);
                if out[leaf].get4() != [1, 0, 0, 0] {
                    falses += 1;
                    if sample.len() < 5 {
                        sample.push(Leaf::four(w));
                    }
                }
            }
            let mut s = String::new();
            let _ = write!(
                s,
                "{{\"ty\":{},\"lay\":\"{}\",\"align\":0,\"size\":{},\"ev\":[{{\"e\":\"scan\",\"leaf\":{},\"at\":{},\"words\":[{},{}],\"from0\":{},\"falses\":[{},{}],\"sample\":",
                ty, $lay, size, leaf + 1, offset, (to - from) >> 20, (to - from) & 0xfffff, from == 0, falses >> 20, falses & 0xfffff
            );
            j_leaves(&mut s, &sample);
            s.push_str("}]}");
            log.line(&s);
        }
    };
}
scan!(scan140, some140, "std140", std140, AsStd140, as_std140, from_std140);
scan!(scan430, some430, "std430", std430, AsStd430, as_std430, from_std430);

/// Host view of a struct from its fields.
#[macro_export]
macro_rules! host_struct {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        impl $crate::Host for $name {
            fn comps(out: &mut $crate::Vec<$crate::Comp>) { $( <$t as $crate::Host>::comps(out); )* }
            fn put(&self, out: &mut $crate::Vec<$crate::Leaf>) { $( $crate::Host::put(&self.$f, out); )* }
            fn take(src: &mut &[$crate::Leaf]) -> Self {
                Self { $( $f: <$t as $crate::Host>::take(src) ),* }
            }
        }
    };
}

/// Records the sessions of a type in the layouts named.
#[macro_export]
macro_rules! record {
    ($log:expr, $ty:expr, $t:ty, std140) => {
        $crate::codec140::<$t>(
            $log,
            $ty,
            |o: &<$t as ::crevice::std140::AsStd140>::Output| {
                #[allow(unused_imports)]
                use ::crevice::std140::Std140;
                o.as_bytes().to_vec()
            },
            |o: &<$t as ::crevice::std140::AsStd140>::Output| o.clone(),
        )
    };
    ($log:expr, $ty:expr, $t:ty, std430) => {
        $crate::codec430::<$t>(
            $log,
            $ty,
            |o: &<$t as ::crevice::std430::AsStd430>::Output| {
                #[allow(unused_imports)]
                use ::crevice::std430::Std430;
                o.as_bytes().to_vec()
            },
            |o: &<$t as ::crevice::std430::AsStd430>::Output| o.clone(),
        )
    };
    ($log:expr, $ty:expr, $t:ty, std140, crowded) => {
        $crate::codec140::<$t>(
            $log,
            $ty,
            |o: &<$t as ::crevice::std140::AsStd140>::Output| {
                #[allow(unused_imports)]
                use ::crevice::std140::Std140;
                o.as_bytes().to_vec()
            },
            |o: &<$t as ::crevice::std140::AsStd140>::Output| ::core::clone::Clone::clone(o),
        )
    };
    ($log:expr, $ty:expr, $t:ty, std430, crowded) => {
        $crate::codec430::<$t>(
            $log,
            $ty,
            |o: &<$t as ::crevice::std430::AsStd430>::Output| {
                #[allow(unused_imports)]
                use ::crevice::std430::Std430;
                o.as_bytes().to_vec()
            },
            |o: &<$t as ::crevice::std430::AsStd430>::Output| ::core::clone::Clone::clone(o),
        )
    };
}

/// The GLSL declaration a derived type exposes, recorded as text.
#[cfg(feature = "std")]
pub fn glsl_struct<T: ::crevice::glsl::GlslStruct>(log: &mut Log, program: usize, decl: usize) {
    let mut s = String::new();
    let _ = write!(s, "{{\"program\":{},\"decl\":{},\"const\":", program, decl);
    j_str(&mut s, T::NAME);
    s.push_str(",\"fields\":[");
    for (i, f) in T::FIELDS.iter().enumerate() {
        s.push_str(if i > 0 { ",[" } else { "[" });
        j_str(&mut s, f.ty);
        s.push(',');
        j_str(&mut s, f.name);
        s.push(']');
    }
    s.push_str("],\"text\":");
    j_str(&mut s, &T::glsl_definition());
    s.push_str(",\"\":[]}");
    log.line(&s);
}
/// The GLSL name of a type.
pub fn glsl_name<T: ::crevice::glsl::Glsl>(log: &mut Log, host: usize) {
    let mut s = String::new();
    let _ = write!(s, "{{\"host\":{},\"name\":", host);
    j_str(&mut s, T::NAME);
    s.push_str(",\"\":[]}");
    log.line(&s);
}
