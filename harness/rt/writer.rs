//! Writer and sizer sessions: scripts of operations over a vocabulary of types,
//! against an output that follows a schedule.
use crate::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Accept {
    Full,
    Short(usize),
    Interrupt,
    Error,
    Zero,
}

/// What an output holds and how it answers.
pub struct Output {
    pub held: Vec<u8>,
    pub schedule: Vec<Accept>,
    pub cap: usize,
    pub next: usize,
    /// (offered, accepted) with -1 interrupted, -2 failed
    pub calls: Vec<(usize, i64)>,
}
#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<Output>>);
impl Sink {
    pub fn new(schedule: Vec<Accept>, cap: usize) -> Sink {
        Sink(Rc::new(RefCell::new(Output { held: Vec::new(), schedule, cap, next: 0, calls: Vec::new() })))
    }
}
impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        company(Moment::Within);
        let mut o = self.0.borrow_mut();
        if o.calls.len() > 500_000 {
            panic!("output called without end");
        }
        let a = o.schedule.get(o.next).copied().unwrap_or(Accept::Full);
        o.next += 1;
        let room = o.cap - o.held.len();
        let (n, r): (usize, i64) = match a {
            Accept::Full => (buf.len().min(room), 0),
            Accept::Short(k) => (buf.len().min(k).min(room), 0),
            Accept::Zero => (0, 0),
            Accept::Interrupt => (0, -1),
            Accept::Error => (0, -2),
        };
        o.calls.push((buf.len(), if r < 0 { r } else { n as i64 }));
        match r {
            // EINTR by name and by number
            -1 if o.next % 2 == 0 => return Err(io::Error::from_raw_os_error(4)),
            -1 => return Err(io::ErrorKind::Interrupted.into()),
            -2 => return Err(failure(o.next + o.schedule.len() + o.held.len())),
            _ => {}
        }
        o.held.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// No kind of failure is special.
pub fn failure(salt: usize) -> io::Error {
    use io::ErrorKind::*;
    const KINDS: [io::ErrorKind; 14] = [
        Other, WouldBlock, BrokenPipe, WriteZero, UnexpectedEof, TimedOut, InvalidInput, InvalidData, PermissionDenied, OutOfMemory,
        StorageFull, ConnectionReset, AlreadyExists, Unsupported,
    ];
    match salt % 17 {
        14 => io::Error::from_raw_os_error(28),
        15 => io::Error::from_raw_os_error(11),
        16 => io::Error::new(Other, "failed"),
        k => KINDS[k].into(),
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    /// one value
    Write(usize),
    /// one value already converted
    Direct(usize),
    Slice(usize, usize),
    /// the deprecated spelling
    WriteSlice(usize, usize),
    /// items, size hint
    Iter(usize, usize, usize),
    /// an iterator that panics after some items
    PanicIter(usize, usize),
    /// a user type that writes several values
    Multi(Vec<usize>),
    MultiSlice(usize, Vec<usize>),
    MultiIter(usize, Vec<usize>),
    /// values of different types from one iterator
    Mixed(Vec<usize>),
    /// how big would it be?
    Query(usize),
    QuerySlice(usize, usize),
    QueryMulti(usize, Vec<usize>),
    /// a slice, an iterator, a size query of user values that differ in what they write
    RaggedSlice(Vec<Vec<usize>>),
    RaggedIter(Vec<Vec<usize>>),
    QueryRagged(Vec<Vec<usize>>),
}

fn list(s: &str) -> Vec<usize> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn lists(s: &str) -> Vec<Vec<usize>> {
    s.split('/').map(|x| list(x.trim_matches('-'))).collect()
}
fn op(s: &str) -> Op {
    let w: Vec<&str> = s.split_whitespace().collect();
    let n = |i: usize| -> usize { w[i].parse().unwrap() };
    match w[0] {
        "w" => Op::Write(n(1)),
        "d" => Op::Direct(n(1)),
        "s" => Op::Slice(n(1), n(2)),
        "l" => Op::WriteSlice(n(1), n(2)),
        "i" => Op::Iter(n(1), n(2), n(3)),
        "p" => Op::PanicIter(n(1), n(2)),
        "m" => Op::Multi(list(w[1])),
        "ms" => Op::MultiSlice(n(1), list(w[2])),
        "mi" => Op::MultiIter(n(1), list(w[2])),
        "x" => Op::Mixed(list(w.get(1).copied().unwrap_or(""))),
        "q" => Op::Query(n(1)),
        "qs" => Op::QuerySlice(n(1), n(2)),
        "qm" => Op::QueryMulti(n(1), list(w[2])),
        "vs" => Op::RaggedSlice(lists(w[1])),
        "vi" => Op::RaggedIter(lists(w[1])),
        "qv" => Op::QueryRagged(lists(w[1])),
        _ => panic!("harness: unknown op {}", s),
    }
}

/// `<layout> <sizer 0/1> <cap> <schedule> ; op ; op ...`
pub struct Script {
    pub lay: String,
    pub sizer: bool,
    pub cap: usize,
    pub schedule: Vec<Accept>,
    pub ops: Vec<Op>,
}
pub fn script(line: &str) -> Script {
    let mut parts = line.split(';');
    let head: Vec<&str> = parts.next().unwrap().split_whitespace().collect();
    let schedule = head[3]
        .split(',')
        .filter(|x| *x != "-" && !x.is_empty())
        .map(|x| match x {
            "F" => Accept::Full,
            "I" => Accept::Interrupt,
            "E" => Accept::Error,
            "Z" => Accept::Zero,
            k => Accept::Short(k.parse().unwrap()),
        })
        .collect();
    Script {
        lay: head[0].into(),
        sizer: head[1] == "1",
        cap: head[2].parse::<usize>().unwrap(),
        schedule,
        ops: parts.map(op).collect(),
    }
}

/// One thing written: alignment and bytes as its type reports them, its type and value.
pub struct Item {
    pub ty: usize,
    pub al: usize,
    pub bytes: Vec<u8>,
    pub leaves: Vec<Leaf>,
}
pub fn j_items(s: &mut String, items: &[Item]) {
    s.push('[');
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{{\"ty\":{},\"al\":{},\"b\":", x.ty, crate::clip(x.al));
        j_bytes(s, &x.bytes);
        s.push_str(",\"v\":");
        j_leaves(s, &x.leaves);
        s.push('}');
    }
    s.push(']');
}

/// An iterator with a vague (but true) size hint.
pub struct Hinted<T>(pub std::vec::IntoIter<T>, pub usize, pub usize);
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        company(Moment::Within);
        if self.2 == 0 {
            panic!("iterator gives up");
        }
        self.2 -= 1;
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => self.0.size_hint(),
            1 => (0, None),
            2 => (0, Some(self.0.len() + 5)),
            4 => (self.0.len(), None),
            5 => (0, Some(self.0.len())),
            6 => (self.0.len().min(1), Some(usize::MAX)),
            7 => (self.0.len(), Some(self.0.len() + 1)),
            _ => (self.0.len() / 2, Some(self.0.len() * 2 + 3)),
        }
    }
}
/// An iterator that ends, and has more if it is asked again after that.
pub struct Resuming<T>(pub std::vec::IntoIter<T>, pub bool, pub std::vec::IntoIter<T>);
impl<T> Iterator for Resuming<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        company(Moment::Within);
        if self.1 {
            return self.2.next();
        }
        let x = self.0.next();
        self.1 = x.is_none();
        x
    }
}
pub const PATIENT: usize = usize::MAX;

pub fn quietly<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    let before = crate::QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    crate::QUIET.with(|q| q.set(before));
    r
}

/// A session under way.
pub trait Running {
    /// Does the next operation, if there is one.
    fn step(&mut self) -> bool;
    fn line(self: Box<Self>) -> String;
}
/// When another session goes on with its own next operation in the same thread.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Moment {
    Between,
    Within,
}
thread_local! {
    static COMPANY: RefCell<Option<(Moment, Box<dyn Running>)>> = const { RefCell::new(None) };
}
pub fn company(now: Moment) {
    // not there while it is at work itself
    let mate = COMPANY.with(|c| c.borrow_mut().take());
    if let Some((when, mut mate)) = mate {
        if when == now {
            mate.step();
        }
        COMPANY.with(|c| *c.borrow_mut() = Some((when, mate)));
    }
}
/// Two sessions: `b` does its operations between those of `a`, or while `a`'s output or iterator is asked.
pub fn together(log: &mut Log, when: Moment, mut a: Box<dyn Running>, b: Box<dyn Running>) {
    COMPANY.with(|c| *c.borrow_mut() = Some((when, b)));
    while a.step() {
        company(Moment::Between);
    }
    let (_, mut b) = COMPANY.with(|c| c.borrow_mut().take()).unwrap();
    while b.step() {}
    log.line(&a.line());
    log.line(&b.line());
}

pub fn ret_of(r: Result<io::Result<usize>, ()>) -> i64 {
    match r {
        Ok(Ok(n)) => crate::clip(n),
        Ok(Err(_)) => -1,
        Err(()) => -2,
    }
}

/// Declares `$run(log, line_no, script)` for a vocabulary of types in one layout.
#[macro_export]
macro_rules! writer_sessions {
    ($run:ident, $m:ident, $lay:literal, $as_tr:ident, $tr:ident, $wtr:ident, $to:ident, $write:ident, $size:ident, $size_static:ident,
     $write_slice:ident, [$($v:ident : $ix:literal = $t:ty),* $(,)?]) => {
        pub mod $run {
            use super::*;
            use $crate::writer::*;
            use $crate::*;
            use ::crevice::$m::{$as_tr, $tr, $wtr, Sizer, Writer};
            use std::fmt::Write as _;

            /// A value of any type of the vocabulary.
            pub enum Any { $($v($t)),* }
            impl $wtr for Any {
                fn $write<W: std::io::Write>(&self, w: &mut Writer<W>) -> std::io::Result<usize> {
                    match self { $(Any::$v(x) => w.write(x)),* }
                }
            }
            /// A user type that is several values in a row; the first is where it starts.
            pub struct Multi(pub Vec<Any>);
            impl $wtr for Multi {
                fn $write<W: std::io::Write>(&self, w: &mut Writer<W>) -> std::io::Result<usize> {
                    let mut at = None;
                    for x in &self.0 {
                        let here = x.$write(w)?;
                        at = at.or(Some(here));
                    }
                    Ok(at.unwrap_or(w.len()))
                }
            }

            fn item<T: Host + $as_tr>(ty: usize, x: &T) -> Item {
                let o = x.$to();
                Item { ty, al: <T::Output as $tr>::ALIGNMENT, bytes: o.as_bytes().to_vec(), leaves: leaves_of(x) }
            }
            fn item_any(x: &Any) -> Item {
                match x { $(Any::$v(x) => item::<$t>($ix, x)),* }
            }
            fn any(ty: usize, rng: &mut Rng) -> Any {
                match ty { $($ix => Any::$v(gen_value::<$t>(rng.below(3), rng)),)* _ => panic!("harness: no type {}", ty) }
            }
            fn multi(tys: &[usize], rng: &mut Rng) -> Multi {
                Multi(tys.iter().map(|t| any(*t, rng)).collect())
            }
            fn size_add(sizer: &mut Sizer, ty: usize) -> usize {
                match ty { $($ix => sizer.add::<$t>(),)* _ => unreachable!() }
            }

            struct Session {
                w: Writer<Sink>,
                sink: Sink,
                sizer: Option<Sizer>,
                s: String,
                first: bool,
                rng: Rng,
                ops: Vec<Op>,
                next: usize,
            }
            impl Running for Session {
                fn step(&mut self) -> bool {
                    let Some(op) = self.ops.get(self.next).cloned() else { return false };
                    self.next += 1;
                    let mut rng = std::mem::replace(&mut self.rng, Rng::new(0, 0));
                    self.op(&op, &mut rng);
                    self.rng = rng;
                    true
                }
                fn line(self: Box<Self>) -> String {
                    let Session { w, sink, mut s, first, .. } = *self;
                    let held = sink.0.borrow().held.len();
                    drop(w);
                    let o = sink.0.borrow();
                    let _ = write!(s, "{}{{\"e\":\"drop\",\"app\":", if first { "" } else { "," });
                    j_bytes(&mut s, &o.held[held..]);
                    s.push_str("}]}");
                    s
                }
            }
            impl Session {
                fn sep(&mut self) {
                    self.s.push_str(if self.first { "" } else { "," });
                    self.first = false;
                }
                fn call(&mut self, k: &str, array: bool, items: Vec<Item>, r: impl FnOnce(&mut Writer<Sink>) -> std::io::Result<usize>) {
                    let before = self.sink.0.borrow().held.len();
                    self.sink.0.borrow_mut().calls.clear();
                    let w = &mut self.w;
                    let ret = ret_of(quietly(|| r(w)));
                    let len = clip(self.w.len());
                    self.sep();
                    let o = self.sink.0.borrow();
                    let _ = write!(self.s, "{{\"e\":\"call\",\"k\":\"{}\",\"array\":{},\"ret\":{},\"len\":{},\"app\":", k, array, ret, len);
                    j_bytes(&mut self.s, &o.held[before..]);
                    self.s.push_str(",\"calls\":[");
                    // runs of one-byte accepts are summarised: [offered, accepted, times]
                    let mut i = 0;
                    let mut sep = "";
                    while i < o.calls.len() {
                        let mut n = 1;
                        while i + n < o.calls.len() && o.calls[i + n] == o.calls[i] {
                            n += 1;
                        }
                        let _ = write!(self.s, "{}[{},{},{}]", sep, o.calls[i].0, o.calls[i].1, n);
                        sep = ",";
                        i += n;
                    }
                    self.s.push_str("],\"sized\":[");
                    let mut slen = 0;
                    if let Some(z) = &mut self.sizer {
                        for (i, x) in items.iter().enumerate() {
                            let at = size_add(z, x.ty);
                            let _ = write!(self.s, "{}{}", if i > 0 { "," } else { "" }, clip(at));
                        }
                        slen = clip(z.len());
                    }
                    let _ = write!(self.s, "],\"slen\":{},\"sizer\":{},\"items\":", slen, self.sizer.is_some());
                    j_items(&mut self.s, &items);
                    self.s.push('}');
                }
                fn query(&mut self, k: &str, array: bool, items: Vec<Item>, stat: i64, q: impl FnOnce() -> usize,
                         r: impl FnOnce(&mut Writer<Sink>) -> std::io::Result<usize>) {
                    let sink = Sink::new(vec![], usize::MAX);
                    let mut w = Writer::new(sink.clone());
                    let ret = ret_of(quietly(|| r(&mut w)));
                    let q = quietly(q).map(clip).unwrap_or(-2);
                    let mut z = Sizer::new();
                    let mut zok = !array && k == "q";
                    for x in &items { if zok { size_add(&mut z, x.ty); } }
                    if items.is_empty() { zok = false; }
                    self.sep();
                    let held = sink.0.borrow().held.len();
                    let _ = write!(self.s, "{{\"e\":\"query\",\"k\":\"{}\",\"array\":{},\"q\":{},\"static\":{},\"ret\":{},\"len\":{},\"held\":{},\"sizer\":{},\"slen\":{},\"items\":",
                        k, array, q, stat, ret, clip(w.len()), held, zok, clip(z.len()));
                    j_items(&mut self.s, &items);
                    self.s.push('}');
                }
                fn typed<T: Host + $as_tr>(&mut self, ty: usize, op: &Op, rng: &mut Rng) {
                    match op {
                        Op::Write(_) => {
                            let x = gen_value::<T>(rng.below(3), rng);
                            self.call("write", false, vec![item(ty, &x)], |w| w.write(&x));
                        }
                        Op::Direct(_) => {
                            let x = gen_value::<T>(rng.below(3), rng);
                            let o = x.$to();
                            self.call("direct", false, vec![item(ty, &x)], |w| w.$write(&o));
                        }
                        Op::Slice(_, n) | Op::WriteSlice(_, n) => {
                            let xs: Vec<T> = (0..*n).map(|_| gen_value::<T>(rng.below(3), rng)).collect();
                            let items = xs.iter().map(|x| item(ty, x)).collect();
                            match op {
                                Op::Slice(..) => self.call("slice", true, items, |w| w.write(xs.as_slice())),
                                _ => {
                                    #[allow(deprecated)]
                                    self.call("slice", true, items, |w| w.$write_slice(xs.as_slice()));
                                }
                            }
                        }
                        Op::Iter(_, n, h) => {
                            let xs: Vec<T> = (0..*n).map(|_| gen_value::<T>(rng.below(3), rng)).collect();
                            let items = xs.iter().map(|x| item(ty, x)).collect();
                            if *h == 9 {
                                // borrowed from a collection that is not contiguous
                                let xs: std::collections::LinkedList<T> = xs.into_iter().collect();
                                self.call("iter", false, items, |w| w.write_iter(xs));
                            } else if *h == 8 {
                                let late: Vec<T> = (0..2).map(|_| gen_value::<T>(0, rng)).collect();
                                self.call("iter", false, items, |w| w.write_iter(Resuming(xs.into_iter(), false, late.into_iter())));
                            } else {
                                self.call("iter", false, items, |w| w.write_iter(Hinted(xs.into_iter(), *h, PATIENT)));
                            }
                        }
                        Op::PanicIter(_, n) => {
                            let xs: Vec<T> = (0..*n).map(|_| gen_value::<T>(rng.below(3), rng)).collect();
                            let items = xs.iter().map(|x| item(ty, x)).collect();
                            self.call("paniciter", false, items, |w| w.write_iter(Hinted(xs.into_iter(), 1, *n)));
                        }
                        Op::Query(_) => {
                            let x = gen_value::<T>(0, rng);
                            self.query("q", false, vec![item(ty, &x)], clip(T::$size_static()), || x.$size(), |w| w.write(&x));
                        }
                        Op::QuerySlice(_, n) => {
                            let xs: Vec<T> = (0..*n).map(|_| gen_value::<T>(0, rng)).collect();
                            let items = xs.iter().map(|x| item(ty, x)).collect();
                            self.query("qs", true, items, -1, || xs.as_slice().$size(), |w| w.write(xs.as_slice()));
                        }
                        _ => unreachable!(),
                    }
                }
                fn op(&mut self, op: &Op, rng: &mut Rng) {
                    match op {
                        Op::Write(v) | Op::Direct(v) | Op::Slice(v, _) | Op::WriteSlice(v, _) | Op::Iter(v, _, _)
                        | Op::PanicIter(v, _) | Op::Query(v) | Op::QuerySlice(v, _) => match *v {
                            $($ix => self.typed::<$t>($ix, op, rng),)*
                            v => panic!("harness: no type {}", v),
                        },
                        Op::Multi(vs) => {
                            let x = multi(vs, rng);
                            let items = x.0.iter().map(item_any).collect();
                            self.call("multi", false, items, |w| w.write(&x));
                        }
                        Op::MultiSlice(n, vs) => {
                            let xs: Vec<Multi> = (0..*n).map(|_| multi(vs, rng)).collect();
                            let items = xs.iter().flat_map(|x| x.0.iter().map(item_any)).collect();
                            self.call("multislice", false, items, |w| w.write(xs.as_slice()));
                        }
                        Op::MultiIter(n, vs) => {
                            let xs: Vec<Multi> = (0..*n).map(|_| multi(vs, rng)).collect();
                            let items = xs.iter().flat_map(|x| x.0.iter().map(item_any)).collect();
                            self.call("multiiter", false, items, |w| w.write_iter(xs));
                        }
                        Op::Mixed(vs) => {
                            let x = multi(vs, rng);
                            let items = x.0.iter().map(item_any).collect();
                            self.call("mixed", false, items, |w| w.write_iter(x.0));
                        }
                        Op::RaggedSlice(vs) => {
                            let xs: Vec<Multi> = vs.iter().map(|v| multi(v, rng)).collect();
                            let items = xs.iter().flat_map(|x| x.0.iter().map(item_any)).collect();
                            self.call("multislice", false, items, |w| w.write(xs.as_slice()));
                        }
                        Op::RaggedIter(vs) => {
                            let xs: Vec<Multi> = vs.iter().map(|v| multi(v, rng)).collect();
                            let items = xs.iter().flat_map(|x| x.0.iter().map(item_any)).collect();
                            self.call("multiiter", false, items, |w| w.write_iter(xs));
                        }
                        Op::QueryRagged(vs) => {
                            let xs: Vec<Multi> = vs.iter().map(|v| multi(v, rng)).collect();
                            let items = xs.iter().flat_map(|x| x.0.iter().map(item_any)).collect();
                            self.query("qms", false, items, -1, || xs.as_slice().$size(), |w| w.write(xs.as_slice()));
                        }
                        Op::QueryMulti(n, vs) => {
                            let xs: Vec<Multi> = (0..*n).map(|_| multi(vs, rng)).collect();
                            let items = xs.iter().flat_map(|x| x.0.iter().map(item_any)).collect();
                            if *n == 1 {
                                self.query("qm", false, items, -1, || xs[0].$size(), |w| w.write(&xs[0]));
                            } else {
                                self.query("qms", false, items, -1, || xs.as_slice().$size(), |w| w.write(xs.as_slice()));
                            }
                        }
                    }
                }
            }

            pub fn run(seed: u64, no: usize, sc: &Script) -> Box<dyn Running> {
                let sink = Sink::new(sc.schedule.clone(), sc.cap);
                Box::new(Session {
                    w: Writer::new(sink.clone()),
                    sink,
                    sizer: if sc.sizer { Some(Sizer::new()) } else { None },
                    s: format!("{{\"lay\":\"{}\",\"no\":{},\"ev\":[", $lay, no),
                    first: true,
                    rng: Rng::new(seed, 0x5000 + no as u64),
                    ops: sc.ops.clone(),
                    next: 0,
                })
            }
        }
    };
}

type Start = fn(u64, usize, &Script) -> Box<dyn Running>;
/// Reads scripts from stdin and runs each with the function for its layout: alone, or two at a time
/// in one thread, or two threads at a time.
pub fn run_scripts(log: &mut Log, f140: Start, f430: Start) {
    crate::hush();
    let mut text = String::new();
    io::Read::read_to_string(&mut io::stdin(), &mut text).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let seed = log.seed;
    let begin = |no: usize| {
        let sc = script(lines[no]);
        (if sc.lay == "std140" { f140 } else { f430 })(seed, no, &sc)
    };
    let alone = |log: &mut Log, no: usize| {
        let mut x = begin(no);
        while x.step() {}
        log.line(&x.line());
    };
    let half = lines.len() / 2;
    for no in 0..half {
        let mate = half + no;
        match no % 4 {
            0 => {
                alone(log, no);
                alone(log, mate);
            }
            1 => together(log, Moment::Between, begin(no), begin(mate)),
            2 => together(log, Moment::Within, begin(no), begin(mate)),
            _ => {
                let (start, alone) = (std::sync::Barrier::new(2), &begin);
                let go = |no: usize| {
                    start.wait();
                    let mut x = alone(no);
                    while x.step() {}
                    x.line()
                };
                let (a, b) = std::thread::scope(|s| {
                    let b = s.spawn(|| go(mate));
                    (go(no), b.join().unwrap())
                });
                log.line(&a);
                log.line(&b);
            }
        }
    }
    for no in 2 * half..lines.len() {
        alone(log, no);
    }
}
