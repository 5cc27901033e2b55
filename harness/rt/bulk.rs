//! Long sequences: thousands of values through writers, slices, iterators and sizers.
//! What reached the output is recorded as runs of evenly spaced elements.
use crate::wide::j_wide;
use crate::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::rc::Rc;

/// An output that takes at most `piece` bytes at a time (0: any number).
#[derive(Clone)]
pub struct Store {
    pub held: Rc<RefCell<Vec<u8>>>,
    pub piece: usize,
}
impl std::io::Write for Store {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = if self.piece == 0 { buf.len() } else { buf.len().min(self.piece) };
        self.held.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Values that differ, whose first byte is not zero.
pub fn numbered<T: Host>(i: usize) -> T {
    value_of(
        &comps_of::<T>()
            .iter()
            .enumerate()
            .map(|(k, c)| {
                let b = [(1 + (i * 31 + k * 7) % 251) as u8, i as u8, (i >> 8) as u8, (i >> 16) as u8];
                match c {
                    Comp::B => Leaf::four(((k == 0 || (i >> (k % 20)) & 1 == 1) as u32).to_ne_bytes()),
                    Comp::D => Leaf::eight([b[0], b[1], b[2], b[3], k as u8, 0, 0, 0]),
                    _ => Leaf::four(b),
                }
            })
            .collect::<Vec<_>>(),
    )
}

/// Numbers as runs [from, step, how many].
#[derive(Default)]
pub struct Runs(pub Vec<(usize, usize, usize)>);
impl Runs {
    pub fn add(&mut self, x: usize) {
        if let Some(r) = self.0.last_mut() {
            if r.2 == 1 && x >= r.0 {
                r.1 = x - r.0;
                r.2 = 2;
                return;
            }
            if r.2 > 1 && x == r.0 + r.1 * r.2 {
                r.2 += 1;
                return;
            }
        }
        self.0.push((x, 0, 1));
    }
    pub fn json(&self, s: &mut String) {
        s.push('[');
        for (i, r) in self.0.iter().take(12).enumerate() {
            s.push_str(if i > 0 { ",[" } else { "[" });
            j_wide(s, r.0);
            s.push(',');
            j_wide(s, r.1);
            let _ = write!(s, ",{}]", r.2);
        }
        s.push(']');
    }
}

/// Where the elements are in `held[from..]`: between them only zeros. The index of the
/// first element that is not there, or -1; and how many zeros follow the last, or -1 if
/// other bytes do.
pub fn find(held: &[u8], from: usize, elements: &[Vec<u8>]) -> (Runs, i64, i64) {
    let mut runs = Runs::default();
    let mut p = from;
    for (i, e) in elements.iter().enumerate() {
        while p < held.len() && held[p] == 0 {
            p += 1;
        }
        if held.len() - p < e.len() || held[p..p + e.len()] != e[..] {
            return (runs, i as i64, -1);
        }
        runs.add(p);
        p += e.len();
    }
    let rest = &held[p..];
    let tail = if rest.iter().all(|b| *b == 0) { clip(rest.len()) } else { -1 };
    (runs, -1, tail)
}

pub struct Script {
    pub lay: String,
    pub piece: usize,
    pub repeat: usize,
    pub ops: Vec<(String, usize, usize)>,
}
pub fn script(line: &str) -> Script {
    let mut parts = line.split(';');
    let head: Vec<&str> = parts.next().unwrap().split_whitespace().collect();
    let num = |x: &str| x.parse::<usize>().expect("harness: script");
    Script {
        lay: head[0].into(),
        piece: num(head[1]),
        repeat: num(head[2]),
        ops: parts
            .map(|o| {
                let w: Vec<&str> = o.split_whitespace().collect();
                (w[0].to_string(), num(w[1]), num(w[2]))
            })
            .collect(),
    }
}

/// An iterator that promises nothing about its length.
pub struct Vague<I>(pub I);
impl<I: Iterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

pub struct Put<'a> {
    pub k: &'a str,
    pub ty: usize,
    pub n: usize,
    pub rets: Runs,
    pub ok: bool,
    pub len: usize,
    pub before: usize,
    pub elements: Vec<Vec<u8>>,
    pub sized: Option<(Runs, usize)>,
    pub query: Option<usize>,
    pub al: usize,
    pub size: usize,
}
pub fn event(s: &mut String, p: &Put, held: &[u8]) {
    let (runs, bad, tail) = find(held, p.before, &p.elements);
    let _ = write!(s, "{{\"e\":\"bulk\",\"k\":\"{}\",\"ty\":{},\"n\":{},\"ok\":{},\"bad\":{},\"tail\":{},\"rets\":", p.k, p.ty, p.n, p.ok, bad, tail);
    p.rets.json(s);
    s.push_str(",\"runs\":");
    runs.json(s);
    s.push_str(",\"len\":");
    j_wide(s, p.len);
    s.push_str(",\"held\":");
    j_wide(s, held.len());
    let _ = write!(s, ",\"asked\":{},\"query\":", p.query.is_some());
    j_wide(s, p.query.unwrap_or(0));
    s.push_str(",\"size\":");
    j_wide(s, p.size);
    let _ = write!(s, ",\"al\":{}", clip(p.al));
    let _ = write!(s, ",\"sizer\":{},\"sized\":", p.sized.is_some());
    match &p.sized {
        Some((r, l)) => {
            r.json(s);
            s.push_str(",\"slen\":");
            j_wide(s, *l);
        }
        None => s.push_str("[],\"slen\":[0,0]"),
    }
    s.push('}');
}

#[macro_export]
macro_rules! bulk_sessions {
    ($run:ident, $m:ident, $lay:literal, $as_tr:ident, $tr:ident, $wtr:ident, $to:ident, $write:ident, $size:ident, $size_static:ident, $write_slice:ident,
     [$($ix:literal = $t:ty),* $(,)?]) => {
        pub mod $run {
            use super::*;
            use std::fmt::Write as _;
            use $crate::bulk::*;
            use $crate::writer::quietly;
            use $crate::*;
            use ::crevice::$m::{$as_tr, $tr, $wtr, Sizer, Writer};

            fn put<T: Host + $as_tr>(k: &str, ty: usize, n: usize, salt: usize, w: &mut Writer<Store>, sink: &Store, z: &mut Option<Sizer>, s: &mut String) -> bool {
                let xs: Vec<T> = (0..n).map(|i| numbered::<T>(salt + i)).collect();
                let before = sink.held.borrow().len();
                let mut p = Put {
                    k, ty, n, rets: Runs::default(), ok: false, len: 0, before,
                    elements: xs.iter().map(|x| $crate::bulk::as_bytes(&x.$to())).collect(),
                    sized: None, query: None,
                    al: <T::Output as $tr>::ALIGNMENT, size: std::mem::size_of::<T::Output>(),
                };
                if k == "slice" {
                    p.query = quietly(|| xs.as_slice().$size()).ok();
                }
                let one = |p: &mut Put, r: std::io::Result<usize>| {
                    match r { Ok(x) => { p.rets.add(x); true } Err(_) => false }
                };
                let r = quietly(|| {
                    match k {
                        "slice" => one(&mut p, w.write(xs.as_slice())),
                        #[allow(deprecated)]
                        "old" => one(&mut p, w.$write_slice(xs.as_slice())),
                        "iter" => one(&mut p, w.write_iter(xs.iter().map(|x| T::clone_of(x)))),
                        "vague" => one(&mut p, w.write_iter(Vague(xs.iter().map(|x| T::clone_of(x))))),
                        "each" => xs.iter().all(|x| one(&mut p, w.write(x))),
                        "direct" => xs.iter().all(|x| one(&mut p, w.$write(&x.$to()))),
                        _ => panic!("harness: unknown op {}", k),
                    }
                });
                p.ok = r == Ok(true);
                p.len = w.len();
                if let Some(z) = z {
                    let mut runs = Runs::default();
                    let r = quietly(|| for _ in 0..n { runs.add(z.add::<T>()); });
                    if r.is_ok() {
                        p.sized = Some((runs, z.len()));
                    }
                }
                event(s, &p, &sink.held.borrow());
                p.ok
            }

            pub fn run(log: &mut Log, no: usize, sc: &Script) {
                let sink = Store { held: Default::default(), piece: sc.piece };
                let mut w = Writer::new(sink.clone());
                // a slice may be laid out in ways a sizer is not told about
                let mut z = if sc.ops.iter().all(|o| o.0 != "slice" && o.0 != "old") { Some(Sizer::new()) } else { None };
                let mut s = String::new();
                let _ = write!(s, "{{\"lay\":\"{}\",\"no\":{},\"ev\":[", $lay, no);
                let mut salt = 0;
                let mut first = true;
                'all: for _ in 0..sc.repeat {
                    for (k, ty, n) in &sc.ops {
                        if !first { s.push(','); }
                        first = false;
                        let ok = match *ty {
                            $($ix => put::<$t>(k, $ix, *n, salt, &mut w, &sink, &mut z, &mut s),)*
                            _ => $crate::no_such_type(),
                        };
                        salt += n;
                        if !ok { break 'all; }
                    }
                }
                s.push_str("]}");
                log.line(&s);
            }
        }
    };
}

pub fn as_bytes<T: bytemuck::Pod>(x: &T) -> Vec<u8> {
    bytemuck::bytes_of(x).to_vec()
}

/// Values are rebuilt from their components, since not every host is Clone.
pub trait CloneOf: Host {
    fn clone_of(x: &Self) -> Self {
        value_of(&leaves_of(x))
    }
}
impl<T: Host> CloneOf for T {}

pub fn run_scripts(log: &mut Log, f140: impl Fn(&mut Log, usize, &Script), f430: impl Fn(&mut Log, usize, &Script)) {
    crate::hush();
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    for line in text.lines() {
        let (no, rest) = line.split_once(' ').expect("harness: script");
        let sc = script(rest);
        let no = no.parse().expect("harness: script");
        if sc.lay == "std140" {
            f140(log, no, &sc)
        } else {
            f430(log, no, &sc)
        }
    }
}
