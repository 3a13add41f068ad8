//! Sessions: sequences of calls on registers, recorded as one JSON line each.
//! An event is [family, name, inplace, registers, constants, destination, outcome].

use crate::exec::exec;
use crate::gen::Rng;
use crate::val::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What the watchdog of a worker thread sees: the session so far, up to and
/// including the call that is running, and when that call started (0: none is).
pub struct Slot { pub buf: Mutex<String>, pub since: AtomicU64 }

pub struct Ctx {
    pub rng: Rng,
    pub shard: u64,
    pub shards: u64,
    /// 1 for quick; larger for thorough
    pub scale: u64,
    pub thorough: bool,
    pub slot: Arc<Slot>,
    pub t0: Instant,
    pub deadline_ms: u64,
    pub journal: Option<String>,
    slow_ms: u64,
    out: std::io::BufWriter<std::fs::File>,
    counter: u64,
    pub sessions: u64,
    pub events: u64,
    pub ops: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub panics: u64,
    pub errs: u64,
    regs: Vec<Val>,
    used: Vec<bool>,
    n: usize,
}

impl Ctx {
    pub fn new(path: &str, seed: u64, shard: u64, shards: u64, scale: u64, thorough: bool, slot: Arc<Slot>, t0: Instant, deadline_ms: u64, journal: Option<String>) -> Ctx {
        Ctx {
            rng: Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(shard)), shard, shards, scale, thorough, slot, t0, deadline_ms, journal,
            slow_ms: std::env::var("SLOW_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
            out: std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(path).unwrap()),
            counter: 0, sessions: 0, events: 0, ops: BTreeMap::new(), distinct: HashSet::new(), panics: 0, errs: 0, regs: vec![], used: vec![], n: 0,
        }
    }
    /// Deals the sessions of a systematic sweep out to the shards.
    pub fn mine(&mut self) -> bool { self.counter += 1; self.counter % self.shards == self.shard && !self.late() }
    pub fn late(&self) -> bool { self.t0.elapsed().as_millis() as u64 > self.deadline_ms }

    fn begin(&mut self) {
        if self.n == 0 { let mut b = self.slot.buf.lock().unwrap(); b.clear(); b.push('['); }
    }
    fn head(&mut self, fam: &str, name: &str, a: &[usize], c: &[Val], d: usize) {
        self.begin();
        let mut b = self.slot.buf.lock().unwrap();
        if self.n > 0 { b.push(','); }
        self.n += 1;
        use std::fmt::Write;
        let (name, mode) = match name.strip_suffix("_mut") { Some(x) => (x, 1), None => (name, 0) };
        write!(b, "[\"{fam}\",\"{name}\",{mode},[").unwrap();
        for (i, x) in a.iter().enumerate() { if i > 0 { b.push(','); } write!(b, "{}", x + 1).unwrap(); }
        b.push_str("],[");
        for (i, x) in c.iter().enumerate() { if i > 0 { b.push(','); } x.lit(&mut b); }
        write!(b, "],{},", d + 1).unwrap();
        if let Some(p) = &self.journal { let _ = std::fs::write(p, format!("{b}[\"abort\"]]]\n")); }
    }
    fn tail(&mut self, o: &Result<Result<Val, String>, ()>) {
        let mut b = self.slot.buf.lock().unwrap();
        match o {
            Ok(Ok(v)) => { b.push_str("[\"ok\","); v.lit(&mut b); b.push_str("]]"); }
            Ok(Err(e)) => { b.push_str("[\"err\",\""); b.push_str(e); b.push_str("\"]]"); }
            Err(()) => b.push_str("[\"panic\"]]"),
        }
        self.events += 1;
    }
    /// A new register holding `v`.
    pub fn ld(&mut self, v: Val) -> usize {
        let d = self.regs.len();
        self.head("", "ld", &[], std::slice::from_ref(&v), d);
        self.slot.buf.lock().unwrap().push_str("[\"ok\"]]");
        self.events += 1;
        self.regs.push(v);
        d
    }
    /// A copy of a register.
    pub fn cp(&mut self, k: usize) -> usize {
        let d = self.regs.len();
        if !self.ok(k) { self.regs.push(Val::X); return d; }
        self.head("", "cp", &[k], &[], d);
        self.slot.buf.lock().unwrap().push_str("[\"ok\"]]");
        self.events += 1;
        self.regs.push(self.regs[k].clone());
        d
    }
    /// An in-place operation on a copy of its receiver.
    pub fn op_cp(&mut self, op: &str, a: &[usize], c: &[Val]) -> usize {
        let t = self.cp(a[0]);
        let mut b = a.to_vec();
        b[0] = t;
        self.op(op, &b, c)
    }
    pub fn reg(&self, k: usize) -> &Val { &self.regs[k] }
    pub fn ok(&self, k: usize) -> bool { !matches!(self.regs[k], Val::X) }
    /// Calls the operation and puts its result in a new register, or back into
    /// the receiver when the operation works in place.
    pub fn op(&mut self, op: &str, a: &[usize], c: &[Val]) -> usize {
        let d = if op.ends_with("_mut") { a[0] } else { self.regs.push(Val::X); self.regs.len() - 1 };
        self.op_to(op, a, c, d)
    }
    pub fn op_to(&mut self, op: &str, a: &[usize], c: &[Val], d: usize) -> usize {
        if a.iter().any(|k| !self.ok(*k)) { return d; }
        let dot = op.find('.').unwrap();
        self.head(&op[..dot], &op[dot + 1..], a, c, d);
        {
            let mut h = DefaultHasher::new();
            op.hash(&mut h);
            let mut s = String::new();
            for k in a { self.regs[*k].lit(&mut s); }
            for x in c { x.lit(&mut s); }
            s.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        *self.ops.entry(op.to_string()).or_insert(0) += 1;
        self.used.resize(self.regs.len(), false);
        for k in a { self.used[*k] = true; }
        let regs: Vec<&Val> = a.iter().map(|k| &self.regs[*k]).collect();
        self.slot.since.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let o = catch_unwind(AssertUnwindSafe(|| exec(op, &regs, c))).map_err(|e| {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("recorder:") { eprintln!("{m} in {op}"); std::process::exit(4); }
        });
        let was = self.slot.since.swap(0, Ordering::SeqCst) - 1;
        let took = self.t0.elapsed().as_millis() as u64 - was;
        if self.slow_ms > 0 && took >= self.slow_ms { eprintln!("{took} ms {op} {}", c.iter().map(|x| { let mut s = String::new(); x.lit(&mut s); s }).collect::<Vec<_>>().join(" ")); }
        match &o { Err(()) => self.panics += 1, Ok(Err(_)) => self.errs += 1, _ => {} }
        // an unreadable result (its conversion to JSON fails) is a panic of the library
        let o = match catch_unwind(AssertUnwindSafe(|| { if let Ok(Ok(v)) = &o { let mut s = String::new(); v.lit(&mut s); } })) { Ok(()) => o, Err(_) => Err(()) };
        self.tail(&o);
        self.regs[d] = match o { Ok(Ok(v)) => v, _ => Val::X };
        d
    }
    /// Ends the session: every register that was an operand is looked at again.
    pub fn end(&mut self) {
        if self.n == 0 { self.regs.clear(); return; }
        for k in 0..self.regs.len() {
            if !self.ok(k) || !self.used.get(k).copied().unwrap_or(false) { continue; }
            let v = self.regs[k].clone();
            self.head("", "obs", &[k], &[], k);
            self.tail(&Ok(Ok(v)));
        }
        self.finish();
    }
    /// Ends the session without looking at the registers again.
    pub fn finish(&mut self) {
        if self.n > 0 {
            let mut b = self.slot.buf.lock().unwrap();
            b.push_str("]\n");
            self.out.write_all(b.as_bytes()).unwrap();
            self.sessions += 1;
        }
        self.n = 0;
        self.regs.clear();
        self.used.clear();
    }
    pub fn close(&mut self) { self.out.flush().unwrap(); }
    /// A session of one call.
    pub fn one(&mut self, op: &str, a: Vec<Val>, c: &[Val]) {
        let r: Vec<usize> = a.into_iter().map(|v| self.ld(v)).collect();
        self.op(op, &r, c);
        self.end();
    }
}
