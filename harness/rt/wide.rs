//! Sizers, and (with the standard library) writers far into their output.
use crate::*;
use std::fmt::Write as _;

/// Counts as base 2^20 pairs.
pub fn j_wide(out: &mut String, n: usize) {
    let _ = write!(out, "[{},{}]", (n >> 20).min(1 << 30), n & 0xfffff);
}

/// One JSON session of a sizer told the types of `script` (indices); `add` dispatches.
pub fn sizer_session<S>(log: &mut Log, lay: &str, no: usize, script: &[usize], new: fn() -> S, add: fn(&mut S, usize) -> usize, len: fn(&S) -> usize) {
    hush();
    let mut s = String::new();
    let _ = write!(s, "{{\"lay\":\"{}\",\"no\":{},\"ev\":[", lay, no);
    let mut sizer = new();
    for (i, ty) in script.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        QUIET.with(|q| q.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (add(&mut sizer, *ty), len(&sizer))));
        QUIET.with(|q| q.set(false));
        match r {
            Ok((off, len)) => {
                let _ = write!(s, "{{\"e\":\"add\",\"ty\":{},\"off\":", ty);
                j_wide(&mut s, off);
                s.push_str(",\"len\":");
                j_wide(&mut s, len);
                s.push('}');
            }
            Err(_) => {
                s.push_str("{\"e\":\"panic\"}");
                break;
            }
        }
    }
    s.push_str("]}");
    log.line(&s);
}

/// A function that runs sizer scripts over a list of types.
#[macro_export]
macro_rules! sizer_sessions {
    ($name:ident, $lay:ident, $layname:literal, [$($i:literal = $t:ty,)*]) => {
        pub fn $name(log: &mut $crate::Log, no: usize, script: &[usize]) {
            fn add(s: &mut ::crevice::$lay::Sizer, i: usize) -> usize {
                match i {
                    $( $i => s.add::<$t>(), )*
                    _ => $crate::no_such_type(),
                }
            }
            $crate::wide::sizer_session(log, $layname, no, script, ::crevice::$lay::Sizer::new, add, |s: &::crevice::$lay::Sizer| s.len())
        }
    };
}

/// Reads `<layout> <id> <id> ...` lines.
pub fn run_sizer_scripts(log: &mut Log, run140: fn(&mut Log, usize, &[usize]), run430: fn(&mut Log, usize, &[usize])) {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    for (no, line) in text.lines().enumerate() {
        let mut w = line.split_whitespace();
        let lay = w.next().expect("harness: script");
        let ids: Vec<usize> = w.map(|x| x.parse().expect("harness: script")).collect();
        if lay == "std140" {
            run140(log, no, &ids)
        } else {
            run430(log, no, &ids)
        }
    }
}

/// An output that only counts.
#[cfg(feature = "std")]
#[derive(Clone, Default)]
pub struct Counter(pub std::rc::Rc<std::cell::RefCell<Count>>);
#[cfg(feature = "std")]
#[derive(Default)]
pub struct Count {
    pub held: usize,
    pub first: Option<usize>,
}
#[cfg(feature = "std")]
impl std::io::Write for Counter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut c = self.0.borrow_mut();
        if c.first.is_none() {
            if let Some(i) = buf.iter().position(|b| *b != 0) {
                c.first = Some(c.held + i);
            }
        }
        c.held += buf.len();
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A value none of whose bytes is zero.
pub fn solid<T: Host>() -> T {
    value_of(&comps_of::<T>().iter().map(|c| match c {
        Comp::D => Leaf::eight([0x11; 8]),
        Comp::B => Leaf::four(1u32.to_ne_bytes()),
        _ => Leaf::four([0x11; 4]),
    }).collect::<Vec<_>>())
}

/// One step of a far writer session.
#[cfg(feature = "std")]
pub fn put_event(s: &mut String, first: &mut bool, ty: usize, n: usize, r: std::io::Result<usize>, len: usize, c: &Counter) {
    if !*first {
        s.push(',');
    }
    *first = false;
    let c = c.0.borrow();
    let _ = write!(s, "{{\"e\":\"put\",\"ty\":{},\"n\":{},\"ok\":{},\"ret\":", ty, n, r.is_ok());
    j_wide(s, r.unwrap_or(0));
    s.push_str(",\"len\":");
    j_wide(s, len);
    s.push_str(",\"held\":");
    j_wide(s, c.held);
    s.push_str(",\"first\":");
    j_wide(s, c.first.unwrap_or(0));
    s.push('}');
}

/// `far_session!(log, std140, "std140", no, [ty = T x n, ...])`: writes n values of each type.
#[macro_export]
macro_rules! far_session {
    ($log:expr, $lay:ident, $layname:literal, $no:expr, [$($ty:literal = $t:ty, $n:expr;)*]) => {{
        let mut s = format!("{{\"lay\":\"{}\",\"no\":{},\"ev\":[", $layname, $no);
        let mut first = true;
        let sink = $crate::wide::Counter::default();
        let mut w = ::crevice::$lay::Writer::new(sink.clone());
        $(
            sink.0.borrow_mut().first = None;
            let v: $t = $crate::wide::solid();
            let r = if $n == 1 { w.write(&v) } else { w.write_iter((0..$n).map(|_| v)) };
            $crate::wide::put_event(&mut s, &mut first, $ty, $n, r, w.len(), &sink);
        )*
        s.push_str("]}");
        $log.line(&s);
    }};
}
