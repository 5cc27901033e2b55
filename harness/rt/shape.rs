//! Types too big to record byte by byte: where single components go, and how
//! many bytes are anything but zero.
use crate::*;
use std::fmt::Write as _;

/// What a shader left, by formula (module TraceShape has the same one).
pub fn fill(p: usize, salt: usize) -> u8 {
    ((p % 251) * 7 + (p / 251) * 13 + salt * 31 + 5) as u8
}

fn telling(c: Comp) -> Leaf {
    match c {
        Comp::B => Leaf::four(1u32.to_ne_bytes()),
        Comp::D => Leaf::eight([0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18]),
        _ => Leaf::four([0x21, 0x22, 0x23, 0x24]),
    }
}
fn nothing(c: Comp) -> Leaf {
    match c {
        Comp::D => Leaf::eight([0; 8]),
        _ => Leaf::four([0; 4]),
    }
}
/// The components to look at: the ends, and some between.
fn chosen(n: usize, rng: &mut Rng) -> Vec<usize> {
    let mut ks: Vec<usize> = if n <= 120 {
        (0..n).collect()
    } else {
        let mut ks: Vec<usize> = (0..20).chain(n - 40..n).collect();
        ks.extend((0..60).map(|_| rng.below(n)));
        ks
    };
    ks.sort();
    ks.dedup();
    ks
}
fn nonzero(b: &[u8]) -> usize {
    b.iter().filter(|x| **x != 0).count()
}

macro_rules! shape {
    ($name:ident, $inner:ident, $lay:literal, $m:ident, $as_tr:ident, $tr:ident, $to:ident, $from:ident, $size_static:ident, $wtr:ident, $size:ident) => {
        pub fn $name<T>(log: &mut Log, ty: usize)
        where
            T: Host + ::crevice::$m::$as_tr,
        {
            hush();
            let seed = log.seed;
            // big values live on the stack
            let s = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
                QUIET.with(|q| q.set(true));
                std::panic::catch_unwind(|| $inner::<T>(seed, ty)).ok()
            }).unwrap().join().unwrap();
            match s {
                Some(s) => log.line(&s),
                None => log.line(&format!("{{\"ty\":{},\"lay\":\"{}\",\"ev\":[{{\"e\":\"panic\"}}]}}", ty, $lay)),
            }
        }
        fn $inner<T>(seed: u64, ty: usize) -> String
        where
            T: Host + ::crevice::$m::$as_tr,
        {
            use ::crevice::$m::$tr;
            type Out<T> = <T as ::crevice::$m::$as_tr>::Output;
            let comps = comps_of::<T>();
            let mut rng = Rng::new(seed, 0x7000 + ty as u64 * 2 + ($lay == "std430") as u64);
            let size = std::mem::size_of::<Out<T>>();
            let mut s = String::new();
            let _ = write!(s, "{{\"ty\":{},\"lay\":\"{}\",\"ev\":[{{\"e\":\"type\",\"align\":{},\"size\":{},\"rust\":{}}}",
                ty, $lay, clip(<Out<T> as $tr>::ALIGNMENT), clip(T::$size_static()), clip(size));
            // every component set: the bytes of the components are all there is
            let mut leaves: Vec<Leaf> = comps.iter().map(|c| telling(*c)).collect();
            let mut images = Vec::new();
            let mut vsize = size;
            for round in 0..2 {
                let value: T = value_of(&leaves);
                dirty_stack(if round == 0 { 0xa5 } else { 0x5a });
                let out = value.$to();
                images.push(out.as_bytes().to_vec());
                #[cfg(feature = "std")]
                {
                    use ::crevice::$m::$wtr;
                    vsize = value.$size();
                }
                let _ = &mut vsize;
            }
            let _ = write!(s, ",{{\"e\":\"full\",\"len\":{},\"weight\":{},\"same\":{},\"vsize\":{}}}",
                clip(images[0].len()), clip(nonzero(&images[0])), images[0] == images[1], clip(vsize));
            for (k, c) in comps.iter().enumerate() {
                leaves[k] = nothing(*c);
            }
            let ks = chosen(comps.len(), &mut rng);
            for k in &ks {
                leaves[*k] = telling(comps[*k]);
                let value: T = value_of(&leaves);
                let out = value.$to();
                let img = out.as_bytes();
                let at = img.iter().position(|b| *b != 0).map(clip).unwrap_or(-1);
                let n = img.iter().rposition(|b| *b != 0).map(|z| clip(z + 1) - at).unwrap_or(0);
                let _ = write!(s, ",{{\"e\":\"leaf\",\"k\":{},\"at\":{},\"n\":{}}}", k + 1, at, n);
                leaves[*k] = nothing(comps[*k]);
            }
            for salt in 0..2 {
                let img: Vec<u8> = (0..size).map(|p| fill(p, salt)).collect();
                let out: Out<T> = bytemuck::pod_read_unaligned(&img);
                let copy = <Out<T> as ::crevice::$m::$as_tr>::$from(<Out<T> as ::crevice::$m::$as_tr>::$to(&out));
                let _ = write!(s, ",{{\"e\":\"cast\",\"same\":{}}}", copy.as_bytes() == &img[..] && out.clone().as_bytes() == &img[..]);
                let back = leaves_of(&T::$from(out));
                for k in &ks {
                    let _ = write!(s, ",{{\"e\":\"read\",\"k\":{},\"salt\":{},\"v\":", k + 1, salt);
                    j_bytes(&mut s, back[*k].bytes());
                    s.push('}');
                }
            }
            for pat in 0..3 {
                let leaves = gen_leaves(&comps, pat, &mut rng);
                let value: T = value_of(&leaves);
                let back = T::$from(value.$to());
                let _ = write!(s, ",{{\"e\":\"round\",\"same\":{}}}", leaves_of(&back) == leaves);
            }
            s.push_str("]}");
            s
        }
    };
}
shape!(shape140, inner140, "std140", std140, AsStd140, Std140, as_std140, from_std140, std140_size_static, WriteStd140, std140_size);
shape!(shape430, inner430, "std430", std430, AsStd430, Std430, as_std430, from_std430, std430_size_static, WriteStd430, std430_size);
