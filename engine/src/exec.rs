//! The symbolic machine: executes lowered IR on states, forks on symbolic decisions, asks the solver.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Default)]
pub struct Val { pub b: u64, pub s: Id }
#[derive(Clone, Copy)]
pub struct Frame { pub f: *const Func, pub pc: u32, pub fp: u32, pub sp: u64, pub dst: i32, pub nret: u16 }

#[derive(Clone)]
pub struct State {
    pub job: u32,
    pub mem: Mem, pub regs: Vec<Val>, pub frames: Vec<Frame>,
    pub heap: u64, pub free: Vec<u64>,
    pub cons: Vec<Id>, pub dom: Vec<Mask>, pub ent: u128, pub model: Vec<u8>,
    pub steps: u64, pub forks: u32, pub clock: u64,
    pub notes: Vec<(Id, u64)>, pub sp: u64, pub mode: [u64; 8], pub fds: Vec<(u32, u64)>, pub vfs: Vec<(String, u64, u64)>, pub errno: u64, pub errno_val: u64,
}
#[derive(Clone, Debug)]
pub enum End { Ok, Assume, Panic(String), Check(String), Hang, Abort(String), Unsupported(String) }

#[derive(Default, Clone)]
pub struct JobStat {
    pub paths: u64, pub assumed: u64, pub panics: u64, pub checks: u64, pub sym_checks: u64, pub hangs: u64, pub unsupported: u64, pub incomplete: u64, pub unknown: u64,
    pub forks: u64, pub steps: u64, pub reach: BTreeMap<String, u64>, pub errs: BTreeMap<String, u64>, pub max_vars: u64,
    pub z3: [u64; 4], pub z3_time: f64, pub domain_decisions: u64, pub max_steps: u64, pub concretized: BTreeMap<String, u64>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    No, Malloc, Calloc, Realloc, Free, PosixMemalign, RustAlloc, RustAllocZeroed, RustRealloc, RustDealloc, Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen, Memchr,
    PanicFmt, BeginUnwind, HashOne, Abort, Exit, Syscall, Write, Zero, MinusOne, ClockGettime, Getenv, Sysconf, Errno, Open, Read, Stat, Close, Getcwd,
    SymByte, Assume, Check, Note, NoteBytes, Reach, Concretize, Mode, File, AllocError, Known,
}
pub struct Shared { pub active: std::sync::atomic::AtomicI64, pub stop: std::sync::atomic::AtomicBool, pub jobstop: [std::sync::atomic::AtomicU32; 4096], pub seen: [std::sync::atomic::AtomicU64; 8192], pub seen_n: [std::sync::atomic::AtomicU32; 8192], pub procs: std::sync::atomic::AtomicI64 }

pub struct Machine<'m> {
    pub m: &'m Module, pub ar: Arena, pub sol: Solver, pub st: State, pub work: Vec<State>,
    rtlb: Vec<(u64, *const Page)>, wtlb: Vec<(u64, *mut Page)>,
    pub hooks: Vec<Hook>, pub stats: BTreeMap<u32, JobStat>, pub out: std::fs::File, pub shared: &'static Shared, pub workers: i64,
    pub budget: u64, pub deadline: std::time::Instant, pub called: Vec<bool>, pub trace: bool, pub maxviol: u32, pub samples: u32,
    pub jobnames: Vec<String>, tick: u64, pub child: bool, pub profile: bool, pub fork_sites: BTreeMap<String, u64>, fprof: Vec<(u64, u64)>, fink: Vec<bool>, confirmed: std::collections::HashSet<(Id, Mask)>,
}
enum Flow { Next, Switch }
type R<T> = Result<T, End>;
const TLB: usize = 1024;

macro_rules! unsup { ($($a:tt)*) => { return Err(End::Unsupported(format!($($a)*))) } }

impl<'m> Machine<'m> {
    pub fn new(m: &'m Module, out: std::fs::File, shared: &'static Shared) -> Machine<'m> {
        let mem = Mem::new(STACK_BASE + STACK_SIZE);
        let st = State { job: 0, mem, regs: vec![], frames: vec![], heap: HEAP_BASE, free: vec![0; 96], cons: vec![], dom: vec![], ent: 0, model: vec![], steps: 0, forks: 0, clock: 1_000_000_000, notes: vec![], sp: STACK_BASE, mode: [0; 8], fds: vec![], vfs: vec![], errno: 0, errno_val: 0 };
        let mut mc = Machine { m, ar: Arena::new(), sol: Solver::new(), st, work: vec![], rtlb: vec![(u64::MAX, std::ptr::null()); TLB], wtlb: vec![(u64::MAX, std::ptr::null_mut()); TLB],
            hooks: vec![], stats: Default::default(), out, shared, workers: 1, budget: 2_000_000_000, deadline: std::time::Instant::now() + std::time::Duration::from_secs(100000), called: vec![false; m.funcs.len()], trace: false, maxviol: 3, samples: 4, jobnames: vec![], tick: 0, child: false, profile: false, fork_sites: Default::default(), fprof: vec![], fink: vec![], confirmed: Default::default() };
        for f in &m.funcs { let h = hook_for(&f.name); mc.hooks.push(h) }
        for g in &m.globals { let b = m.global_bytes(g); mc.write_bytes(g.addr, &b).unwrap_or_else(|_| panic!("global init")) }
        mc
    }
    pub fn flush(&mut self) { for e in self.rtlb.iter_mut() { e.0 = u64::MAX } for e in self.wtlb.iter_mut() { e.0 = u64::MAX } }
    // ---------- memory ----------
    #[inline] fn rpage(&mut self, a: u64) -> R<&Page> {
        let pn = a >> 12; let k = (pn as usize) & (TLB - 1);
        if self.rtlb[k].0 == pn { return Ok(unsafe { &*self.rtlb[k].1 }) }
        match self.st.mem.page(a) { Some(p) => { self.rtlb[k] = (pn, p); Ok(unsafe { &*p }) } None => Err(End::Abort(format!("invalid read at {:#x}", a))) }
    }
    #[inline] fn wpage(&mut self, a: u64) -> R<&mut Page> {
        let pn = a >> 12; let k = (pn as usize) & (TLB - 1);
        if self.wtlb[k].0 == pn { return Ok(unsafe { &mut *self.wtlb[k].1 }) }
        match self.st.mem.page_mut(a) { Some(p) => { self.wtlb[k] = (pn, p); self.rtlb[k] = (pn, p); Ok(unsafe { &mut *p }) } None => Err(End::Abort(format!("invalid write at {:#x}", a))) }
    }
    #[inline] pub fn load(&mut self, a: u64, bytes: u32, w: u32) -> R<Val> {
        let off = (a & 4095) as usize;
        if off + bytes as usize <= 4096 {
            let p = self.rpage(a)?;
            let raw = u64::from_le_bytes(p.data[off..off + 8].try_into().unwrap()) & m64(w);
            match &p.sym { None => return Ok(Val { b: raw, s: 0 }), Some(s) => { if s[off..off + bytes as usize].iter().all(|x| *x == 0) { return Ok(Val { b: raw, s: 0 }) } } }
        }
        self.load_slow(a, bytes, w)
    }
    #[inline(never)] fn load_slow(&mut self, a: u64, bytes: u32, w: u32) -> R<Val> {
        let mut e: Id = 0; let mut cb = 0u64; let mut any = false;
        let mut parts: Vec<(u8, Id)> = Vec::with_capacity(8);
        for i in 0..bytes as u64 { let p = self.rpage(a + i)?; let o = ((a + i) & 4095) as usize; let s = p.sym.as_ref().map_or(0, |s| s[o]); let b = p.data[o]; if s != 0 { any = true } parts.push((b, s)) }
        for (i, (b, s)) in parts.iter().enumerate() {
            cb |= (*b as u64) << (8 * i);
            if any { let x = if *s != 0 { *s } else { self.ar.konst(*b as u128, 8) }; e = if i == 0 { x } else { self.ar.concat(x, e) } }
        }
        if !any { return Ok(Val { b: cb & m64(w), s: 0 }) }
        let e = self.ar.extract(e, 0, w);
        Ok(self.from(e))
    }
    #[inline] pub fn store(&mut self, a: u64, v: Val, bytes: u32, w: u32) -> R<()> {
        let off = (a & 4095) as usize;
        if v.s == 0 && off + bytes as usize <= 4096 {
            let p = self.wpage(a)?;
            let b = v.b.to_le_bytes();
            match bytes { 8 => p.data[off..off + 8].copy_from_slice(&b), 4 => p.data[off..off + 4].copy_from_slice(&b[..4]), 1 => p.data[off] = b[0], n => p.data[off..off + n as usize].copy_from_slice(&b[..n as usize]) }
            if let Some(s) = &mut p.sym { for x in &mut s[off..off + bytes as usize] { *x = 0 } }
            return Ok(());
        }
        self.store_slow(a, v, bytes, w)
    }
    #[inline(never)] fn store_slow(&mut self, a: u64, v: Val, bytes: u32, w: u32) -> R<()> {
        for i in 0..bytes {
            let (b, s) = if v.s == 0 { ((v.b >> (8 * i)) as u8, 0) } else { let n = (w - 8 * i).min(8); let mut x = self.ar.extract(v.s, 8 * i, n); if n < 8 { x = self.ar.zext(x, 8) } match self.ar.cv(x) { Some(k) => (k as u8, 0), None => (0, x) } };
            let aa = a + i as u64; let o = (aa & 4095) as usize;
            let p = self.wpage(aa)?;
            p.data[o] = b;
            if s != 0 { p.sym.get_or_insert_with(|| Box::new([0; PAGE]))[o] = s } else if let Some(q) = &mut p.sym { q[o] = 0 }
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, mut a: u64, mut b: &[u8]) -> R<()> {
        while !b.is_empty() {
            let o = (a & 4095) as usize; let n = b.len().min(4096 - o);
            let p = self.wpage(a)?;
            p.data[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.sym { for x in &mut s[o..o + n] { *x = 0 } }
            a += n as u64; b = &b[n..];
        }
        Ok(())
    }
    /// Concrete bytes (symbolic ones are evaluated under the current model).
    pub fn read_bytes(&mut self, a: u64, n: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        for i in 0..n { let v = self.load(a + i, 1, 8)?; r.push(if v.s != 0 { let model = std::mem::take(&mut self.st.model); let x = self.ar.eval(v.s, &model) as u8; self.st.model = model; x } else { v.b as u8 }) }
        Ok(r)
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()) }
        // chunked through a buffer; overlap-safe because the whole source is read first
        let mut buf = vec![0u8; n as usize]; let mut syms: Vec<(u32, u32)> = vec![];
        let mut i = 0u64;
        while i < n {
            let o = ((s + i) & 4095) as usize; let k = ((n - i) as usize).min(4096 - o);
            let p = self.rpage(s + i)?;
            buf[i as usize..i as usize + k].copy_from_slice(&p.data[o..o + k]);
            if let Some(q) = &p.sym { for j in 0..k { if q[o + j] != 0 { syms.push((i as u32 + j as u32, q[o + j])) } } }
            i += k as u64;
        }
        self.write_bytes(d, &buf)?;
        for (j, e) in syms { let a = d + j as u64; let p = self.wpage(a)?; p.sym.get_or_insert_with(|| Box::new([0; PAGE]))[(a & 4095) as usize] = e }
        Ok(())
    }
    // ---------- heap ----------
    fn class(sz: u64) -> usize { let s = sz.max(16); if s <= 512 { ((s + 15) / 16) as usize } else { 33 + (64 - (s - 1).leading_zeros() as usize - 9) } }
    fn class_size(c: usize) -> u64 { if c <= 32 { c as u64 * 16 } else { 512u64 << (c - 33) } }
    fn malloc(&mut self, sz: u64) -> R<u64> {
        if sz > 1 << 30 { return Err(End::Abort(format!("allocation of {} bytes", sz))) }
        let c = Self::class(sz);
        let h = self.st.free[c];
        let a = if h != 0 { self.st.free[c] = self.load(h, 8, 64)?.b; h } else { let a = self.st.heap + 16; self.st.heap = a + Self::class_size(c); if self.st.heap >= STACK_BASE - 4096 { return Err(End::Abort("guest heap exhausted".into())) } a };
        self.store(a - 16, Val { b: sz, s: 0 }, 8, 64)?;
        Ok(a)
    }
    fn memalign(&mut self, al: u64, sz: u64) -> R<u64> {
        if al <= 16 { return self.malloc(sz) }
        self.st.heap = (self.st.heap + 16 + al - 1) / al * al;
        let a = self.st.heap; self.st.heap += Self::class_size(Self::class(sz));
        self.store(a - 16, Val { b: sz, s: 0 }, 8, 64)?;
        Ok(a)
    }
    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 { return Ok(()) }
        let sz = self.load(a - 16, 8, 64)?.b;
        let c = Self::class(sz);
        let h = self.st.free[c];
        self.store(a, Val { b: h, s: 0 }, 8, 64)?;
        self.st.free[c] = a;
        Ok(())
    }
    fn realloc(&mut self, a: u64, sz: u64) -> R<u64> {
        if a == 0 { return self.malloc(sz) }
        let old = self.load(a - 16, 8, 64)?.b;
        if Self::class(old) == Self::class(sz) { self.store(a - 16, Val { b: sz, s: 0 }, 8, 64)?; return Ok(a) }
        let n = self.malloc(sz)?; self.copy(n, a, old.min(sz))?; self.free(a)?;
        Ok(n)
    }
    // ---------- symbolic helpers ----------
    #[inline] pub fn from(&self, e: Id) -> Val { match self.ar.cv(e) { Some(k) => Val { b: k as u64, s: 0 }, None => Val { b: 0, s: e } } }
    #[inline] pub fn ex(&mut self, v: Val, w: u32) -> Id { if v.s != 0 { v.s } else { self.ar.konst(v.b as u128, w) } }
    fn jst(&mut self) -> &mut JobStat { self.stats.entry(self.st.job).or_default() }
    /// Three-valued evaluation under the variable domains.
    fn tri(&mut self, c: Id) -> Option<bool> {
        if let Some(k) = self.ar.cv(c) { return Some(k == 1) }
        if let Some((v, m)) = self.ar.mask(c) { let d = self.st.dom[v as usize]; if mask_empty(&mask_and(&m, &d)) { self.confirm(c, v as u32); return Some(false) } if mask_empty(&mask_andn(&d, &m)) { let nc = self.ar.not(c); self.confirm(nc, v as u32); return Some(true) } return None }
        let n = self.ar.n(c);
        match n.op {
            Op::And if n.w == 1 => { let a = self.tri(n.a); if a == Some(false) { return a } let b = self.tri(n.b); if b == Some(false) { return b } if a == Some(true) && b == Some(true) { Some(true) } else { None } }
            Op::Or if n.w == 1 => { let a = self.tri(n.a); if a == Some(true) { return a } let b = self.tri(n.b); if b == Some(true) { return b } if a == Some(false) && b == Some(false) { Some(false) } else { None } }
            Op::Xor if n.w == 1 && self.ar.cv(n.b) == Some(1) => self.tri(n.a).map(|x| !x),
            _ => None,
        }
    }
    /// A decision taken from a variable's domain: the solver must agree that `c` is unsatisfiable there (asked once per distinct pair).
    fn confirm(&mut self, c: Id, v: u32) {
        if self.ar.cv(c).is_some() { return }
        let d = self.st.dom[v as usize];
        if !self.confirmed.insert((c, d)) { return }
        let (q0, s0, u0, t0) = (self.sol.queries, self.sol.sat, self.sol.unsat, self.sol.time);
        let r = self.sol.check(&self.ar, &mut vec![c], 1u128 << v, &self.st.dom);
        let (q1, s1, u1, t1) = (self.sol.queries, self.sol.sat, self.sol.unsat, self.sol.time);
        let js = self.jst();
        js.z3[0] += q1 - q0; js.z3[1] += s1 - s0; js.z3[2] += u1 - u0; js.z3_time += t1 - t0;
        if !matches!(r, Res::Unsat) { self.emit(format!("{{\"t\":\"internal\",\"msg\":\"solver disagrees with a domain decision\"}}")) }
    }
    fn ev(&mut self, e: Id) -> u128 { let model = std::mem::take(&mut self.st.model); let r = self.ar.eval(e, &model); self.st.model = model; r }
    /// Is `c` (not decided by `tri`) satisfiable here? Returns the variable updates that make it true.
    fn sat(&mut self, c: Id) -> R<Option<Vec<(u8, u8)>>> {
        if self.ev(c) == 1 { return Ok(Some(vec![])) }
        if let Some((v, m)) = self.ar.mask(c) {
            let d = mask_and(&m, &self.st.dom[v as usize]);
            if mask_empty(&d) { return Ok(None) }
        }
        let mut vs = self.ar.vars[c as usize];
        let mut cons = vec![c];
        let mut used = vec![false; self.st.cons.len()];
        loop { let mut ch = false; for i in 0..self.st.cons.len() { if !used[i] { let k = self.st.cons[i]; let kv = self.ar.vars[k as usize]; if kv & vs != 0 { used[i] = true; cons.push(k); vs |= kv; ch = true } } } if !ch { break } }
        let (q0, s0, u0, t0) = (self.sol.queries, self.sol.sat, self.sol.unsat, self.sol.time);
        let r = self.sol.check(&self.ar, &mut cons, vs, &self.st.dom);
        let (q1, s1, u1, t1) = (self.sol.queries, self.sol.sat, self.sol.unsat, self.sol.time);
        let js = self.jst();
        js.z3[0] += q1 - q0; js.z3[1] += s1 - s0; js.z3[2] += u1 - u0; js.z3_time += t1 - t0;
        match r { Res::Sat(m) => Ok(Some(m)), Res::Unsat => Ok(None), Res::Unknown => { self.jst().unknown += 1; Err(End::Unsupported("solver unknown".into())) } }
    }
    /// Add `c` to the path of `st` (known satisfiable with `upd`).
    fn add(&mut self, st: &mut State, c: Id, upd: &[(u8, u8)]) {
        for (v, x) in upd { st.model[*v as usize] = *x }
        let mut stack = vec![c];
        while let Some(c) = stack.pop() {
            if self.ar.cv(c).is_some() { continue }
            if let Some((v, m)) = self.ar.mask(c) { st.dom[v as usize] = mask_and(&st.dom[v as usize], &m); continue }
            let n = self.ar.n(c);
            if n.op == Op::And && n.w == 1 { stack.push(n.a); stack.push(n.b); continue }
            if n.op == Op::Xor && n.w == 1 && self.ar.cv(n.b) == Some(1) { let x = self.ar.n(n.a); if x.op == Op::Or && x.w == 1 { let a = self.ar.not(x.a); let b = self.ar.not(x.b); stack.push(a); stack.push(b); continue } }
            if !st.cons.contains(&c) { st.cons.push(c); st.ent |= self.ar.vars[c as usize] }
        }
    }
    fn add_here(&mut self, c: Id, upd: &[(u8, u8)]) {
        let mut st = std::mem::replace(&mut self.st, State { job: 0, mem: Mem { l1: vec![], limit: 0 }, regs: vec![], frames: vec![], heap: 0, free: vec![], cons: vec![], dom: vec![], ent: 0, model: vec![], steps: 0, forks: 0, clock: 0, notes: vec![], sp: 0, mode: [0; 8], fds: vec![], vfs: vec![], errno: 0, errno_val: 0 });
        self.add(&mut st, c, upd);
        self.st = st;
    }
    fn clone_state(&mut self) -> State { self.flush(); self.st.forks += 1; let j = self.st.job; self.stats.entry(j).or_default().forks += 1; if self.profile { let s = self.site(); *self.fork_sites.entry(s).or_default() += 1 } self.st.clone() }
    fn site(&self) -> String { let mut s = String::new(); for f in self.st.frames.iter().rev().take(7) { let n = &self.m.funcs[unsafe { (*f.f).id } as usize].name; s.push_str(&short(n)); s.push_str(" < ") } s }
    /// Decide a condition; may leave an alternative state in the work list (positioned at the current instruction unless edges given).
    fn decide(&mut self, c: Id, alt: Option<(u32, u32)>) -> R<bool> {
        if let Some(b) = self.tri(c) { return Ok(b) }
        let cur = self.ev(c) == 1;
        let nc = self.ar.not(c);
        if self.st.cons.contains(&c) { return Ok(true) }
        if self.st.cons.contains(&nc) { return Ok(false) }
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.sat(other)? {
            None => Ok(cur),
            Some(upd) => {
                let mut o = self.clone_state();
                self.add(&mut o, other, &upd);
                if let Some((e1, e2)) = alt { take_edge(&mut o, if cur { e2 } else { e1 }) }
                self.work.push(o);
                self.add_here(mine, &[]);
                self.offload();
                Ok(cur)
            }
        }
    }
    /// Force a value concrete, forking over the alternatives.
    pub fn concretize(&mut self, v: Val, w: u32, why: &str) -> R<u64> {
        if v.s == 0 { return Ok(v.b) }
        let x = self.ev(v.s);
        let k = self.ar.konst(x, w);
        let c = self.ar.eq(v.s, k);
        if self.tri(c) == Some(true) { return Ok(x as u64) }
        let nc = self.ar.not(c);
        if let Some(upd) = self.sat(nc)? {
            *self.stats.entry(self.st.job).or_default().concretized.entry(why.to_string()).or_default() += 1;
            let mut o = self.clone_state();
            self.add(&mut o, nc, &upd);
            self.work.push(o);
            self.add_here(c, &[]);
            self.offload();
        }
        Ok(x as u64)
    }
    fn offload(&mut self) {
        use std::sync::atomic::Ordering::*;
        if self.workers <= 1 || self.work.is_empty() { return }
        let a = self.shared.active.load(Relaxed);
        if a >= self.workers { return }
        if self.shared.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() { return }
        self.shared.procs.fetch_add(1, SeqCst);
        let pid = unsafe { crate::fork() };
        if pid < 0 { self.shared.active.fetch_sub(1, SeqCst); return }
        if pid == 0 {
            // child: run only the oldest pending state
            let s = self.work.swap_remove(0);
            self.work.clear(); self.work.push(s);
            self.stats.clear(); self.child = true; self.fork_sites.clear();
            for c in self.called.iter_mut() { *c = false }
            let (q, sa, us, t, h) = (0, 0, 0, 0.0, 0);
            self.sol.queries = q; self.sol.sat = sa; self.sol.unsat = us; self.sol.time = t; self.sol.cache_hits = h;
            self.run_all();
            self.finish();
            unsafe { crate::_exit(0) }
        }
        self.work.remove(0);
    }
    pub fn emit(&mut self, s: String) { use std::io::Write; let _ = self.out.write_all(format!("{}\n", s).as_bytes()); }
    pub fn finish(&mut self) {
        use std::sync::atomic::Ordering::*;
        let st = std::mem::take(&mut self.stats);
        for (j, s) in st {
            let m = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
            self.emit(format!("{{\"t\":\"stat\",\"job\":{},\"paths\":{},\"assumed\":{},\"panics\":{},\"checks\":{},\"sym_checks\":{},\"hangs\":{},\"unsupported\":{},\"incomplete\":{},\"unknown\":{},\"forks\":{},\"steps\":{},\"reach\":{},\"errs\":{},\"max_vars\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"z3_time\":{},\"domain_decisions\":{},\"max_steps\":{},\"concretized\":{}}}",
                j, s.paths, s.assumed, s.panics, s.checks, s.sym_checks, s.hangs, s.unsupported, s.incomplete, s.unknown, s.forks, s.steps, m(&s.reach), m(&s.errs), s.max_vars, s.z3[0], s.z3[1], s.z3[2], s.z3_time, s.domain_decisions, s.max_steps, m(&s.concretized)));
        }
        let names: Vec<String> = self.called.iter().enumerate().filter(|x| *x.1).map(|(i, _)| i.to_string()).collect();
        if self.profile { let fp = std::mem::take(&mut self.fprof); for (i, (a, b)) in fp.iter().enumerate() { if *a > 100_000 || *b > 100_000 { let n = short(&self.m.funcs[i].name); self.emit(format!("{{\"t\":\"fprof\",\"f\":{},\"self\":{},\"ink\":{}}}", jstr(&n), a, b)) } } }
        if self.profile { let fs = std::mem::take(&mut self.fork_sites); for (k, v) in fs { self.emit(format!("{{\"t\":\"fork\",\"site\":{},\"n\":{}}}", jstr(&k), v)) } }
        self.emit(format!("{{\"t\":\"proc\",\"pid\":{},\"max_ms\":{},\"called\":[{}]}}", std::process::id(), self.sol.max_ms, names.join(",")));
        self.shared.active.fetch_sub(1, SeqCst);
    }
    pub fn run_all(&mut self) {
        use std::sync::atomic::Ordering::*;
        while let Some(s) = self.work.pop() {
            self.st = s; self.flush();
            let j = self.st.job;
            if self.shared.stop.load(Relaxed) || std::time::Instant::now() > self.deadline { self.stats.entry(j).or_default().incomplete += 1; continue }
            if self.shared.jobstop[j as usize].load(Relaxed) >= self.maxviol { self.stats.entry(j).or_default().incomplete += 1; continue }
            let st0 = self.st.steps;
            let end = match self.run() { Ok(()) => End::Ok, Err(e) => e };
            let steps = self.st.steps - st0;
            self.end(end, steps);
            self.offload();
        }
    }
    fn prof(&mut self, id: u32, n: u64) {
        if self.fprof.is_empty() { self.fprof = vec![(0, 0); self.m.funcs.len()]; self.fink = self.m.funcs.iter().map(|f| short(&f.name).contains("ink_")).collect() }
        self.fprof[id as usize].0 += n;
        // inclusive cost of the innermost function of the repository
        for f in self.st.frames.iter().rev() { let i = unsafe { (*f.f).id } as usize; if self.fink[i] { self.fprof[i].1 += n; break } }
    }
    fn trace_str(&self) -> String { self.st.frames.iter().rev().take(14).map(|f| short(&self.m.funcs[unsafe { (*f.f).id } as usize].name)).collect::<Vec<_>>().join(" < ") }
    fn report(&mut self, kind: &str, msg: &str, model: &[u8]) {
        use std::sync::atomic::Ordering::*;
        let j = self.st.job;
        let tr = self.trace_str();
        // one key per (job, kind, message): two examples of each are reported, a job stops after `maxviol` keys
        let mut h = 0xcbf29ce484222325u64 ^ j as u64;
        for b in kind.bytes().chain(msg.bytes()) { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
        if h == 0 { h = 1 }
        let mut i = (h % 8192) as usize; let mut fresh = false;
        for _ in 0..8192 {
            match self.shared.seen[i].compare_exchange(0, h, SeqCst, SeqCst) { Ok(_) => { fresh = true; break } Err(x) if x == h => break, Err(_) => i = (i + 1) % 8192 }
        }
        if fresh { self.shared.jobstop[j as usize].fetch_add(1, SeqCst); }
        if self.shared.seen_n[i].fetch_add(1, SeqCst) >= 2 { return }
        let m = model.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",");
        self.emit(format!("{{\"t\":\"viol\",\"job\":{},\"kind\":{},\"msg\":{},\"trace\":{},\"model\":[{}]}}", j, jstr(kind), jstr(msg), jstr(&tr), m));
    }
    fn end(&mut self, e: End, steps: u64) {
        let nv = self.st.dom.len() as u64; let total = self.st.steps;
        let s = self.jst(); s.steps += steps; s.max_vars = s.max_vars.max(nv); s.max_steps = s.max_steps.max(total);
        if matches!(e, End::Ok | End::Panic(_) | End::Check(_)) {
            // the model must satisfy the path: internal consistency check
            let cons = self.st.cons.clone();
            for c in cons { if self.ev(c) != 1 { self.emit(format!("{{\"t\":\"internal\",\"job\":{},\"msg\":\"model does not satisfy path\"}}", self.st.job)) } }
            for i in 0..self.st.dom.len() { if !mask_has(&self.st.dom[i], self.st.model[i] as usize) { self.emit(format!("{{\"t\":\"internal\",\"job\":{},\"msg\":\"model outside domain\"}}", self.st.job)) } }
        }
        match e {
            End::Ok => {
                let s = self.jst(); s.paths += 1;
                // sample for native validation
                if s.paths <= self.samples as u64 {
                    let notes = std::mem::take(&mut self.st.notes);
                    let mut h = 0xcbf29ce484222325u64; let mut n = 0u64;
                    for (e, b) in notes { let v = if e != 0 { self.ev(e) as u64 } else { b }; h = (h ^ v).wrapping_mul(0x100000001b3); n += 1 }
                    let m = self.st.model.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",");
                    self.emit(format!("{{\"t\":\"sample\",\"job\":{},\"notes\":{},\"hash\":\"{:016x}\",\"model\":[{}]}}", self.st.job, n, h, m));
                }
            }
            End::Assume => self.jst().assumed += 1,
            End::Panic(m) => { self.jst().panics += 1; let model = self.st.model.clone(); self.report("panic", &m, &model) }
            End::Abort(m) => { self.jst().panics += 1; let model = self.st.model.clone(); self.report("abort", &m, &model) }
            End::Check(_) => {}
            End::Hang => { self.jst().hangs += 1; let model = self.st.model.clone(); self.report("hang", "instruction budget exhausted", &model) }
            End::Unsupported(m) => { let t = self.trace_str(); let s = self.jst(); s.unsupported += 1; *s.errs.entry(format!("{} @ {}", m, t)).or_default() += 1 }
        }
    }
    // ---------- calls ----------
    pub fn start(&mut self, name: &str, args: &[u64]) {
        let id = self.m.fn_id(name).unwrap_or_else(|| panic!("entry {}", name));
        let f = self.m.func(id);
        self.st.regs = vec![Val::default(); f.nregs as usize];
        for (i, a) in args.iter().enumerate() { self.st.regs[i] = Val { b: *a, s: 0 } }
        self.st.frames = vec![Frame { f, pc: 0, fp: 0, sp: self.st.sp, dst: -1, nret: 0 }];
        self.st.sp += f.frame as u64;
    }
    fn push_call(&mut self, fid: u32, args: &[Val], dst: i32, nret: u16) -> R<()> {
        let f = self.m.func(fid) as *const Func;
        let fr = unsafe { &*f };
        self.called[fid as usize] = true;
        let fp = self.st.regs.len() as u32;
        self.st.regs.resize(fp as usize + fr.nregs as usize, Val::default());
        for (i, a) in args.iter().enumerate().take(fr.nparams as usize) { self.st.regs[fp as usize + i] = *a }
        let sp = (self.st.sp + 15) & !15;
        self.st.frames.push(Frame { f, pc: 0, fp, sp, dst, nret });
        self.st.sp = sp + fr.frame as u64;
        if self.st.sp > STACK_BASE + STACK_SIZE - (1 << 20) || self.st.frames.len() > 20000 { return Err(End::Abort("stack overflow".into())) }
        Ok(())
    }
    pub fn run(&mut self) -> R<()> {
        loop {
            let mut fr = *self.st.frames.last().unwrap();
            let f: &Func = unsafe { &*fr.f };
            let fp = fr.fp as usize;
            let mut pc = fr.pc as usize;
            // NB: `regs` base pointer is re-read after anything that may grow the register stack
            let mut regs = unsafe { self.st.regs.as_mut_ptr().add(fp) };
            let code = &f.code; let consts = &f.consts;
            macro_rules! v { ($o:expr) => {{ let o = $o; if o >= 0 { unsafe { *regs.add(o as usize) } } else { Val { b: unsafe { *consts.get_unchecked(!o as usize) }, s: 0 } } }} }
            macro_rules! set { ($d:expr, $v:expr) => {{ let x = $v; unsafe { *regs.add($d as usize) = x } }} }
            macro_rules! setb { ($d:expr, $v:expr) => {{ let x: u64 = $v; unsafe { *regs.add($d as usize) = Val { b: x, s: 0 } } }} }
            macro_rules! save { () => { self.st.frames.last_mut().unwrap().pc = pc as u32 } }
            let mut steps = 0u64;
            let flow = loop {
                let ins = unsafe { *code.get_unchecked(pc) };
                steps += 1;
                match ins {
                    I::Load { dst, p, off, w, bytes } => {
                        let a = v!(p);
                        if a.s != 0 { save!(); let r = self.load_sym(a.s, off, bytes as u32, w as u32)?; set!(dst, r) }
                        else { let r = self.load(a.b.wrapping_add(off as u64), bytes as u32, w as u32).map_err(|e| { self.st.frames.last_mut().unwrap().pc = pc as u32; e })?; set!(dst, r) }
                        pc += 1;
                    }
                    I::Store { v, p, off, w, bytes } => {
                        let mut a = v!(p); let x = v!(v);
                        if a.s != 0 { save!(); a.b = self.concretize(a, 64, "store address")? }
                        self.store(a.b.wrapping_add(off as u64), x, bytes as u32, w as u32)?;
                        pc += 1;
                    }
                    I::GepC { dst, base, off } => { let a = v!(base); if a.s == 0 { setb!(dst, a.b.wrapping_add(off as u64)) } else { let k = self.ar.konst(off as u64 as u128, 64); let e = self.ar.bin(Op::Add, a.s, k); set!(dst, self.from(e)) } pc += 1 }
                    I::GepI { dst, base, idx, scale, iw } => {
                        let a = v!(base); let i = v!(idx);
                        if a.s == 0 && i.s == 0 { let k = if iw < 64 { ((i.b << (64 - iw)) as i64) >> (64 - iw) } else { i.b as i64 }; setb!(dst, a.b.wrapping_add(k.wrapping_mul(scale) as u64)) }
                        else { let mut ie = self.ex(i, iw as u32); if iw < 64 { ie = self.ar.sext(ie, 64) } let sk = self.ar.konst(scale as u64 as u128, 64); let o = self.ar.bin(Op::Mul, ie, sk); let b = self.ex(a, 64); let e = self.ar.bin(Op::Add, b, o); set!(dst, self.from(e)) }
                        pc += 1;
                    }
                    I::Icmp(c, w, d, a, b) => {
                        let x = v!(a); let y = v!(b);
                        if x.s | y.s == 0 {
                            let r = match c { Cmp::Eq => x.b == y.b, Cmp::Ne => x.b != y.b, Cmp::Ult => x.b < y.b, Cmp::Ule => x.b <= y.b,
                                Cmp::Slt => sx64(x.b, w) < sx64(y.b, w), Cmp::Sle => sx64(x.b, w) <= sx64(y.b, w) };
                            setb!(d, r as u64)
                        } else { let r = self.cmp_sym(c, w as u32, x, y); set!(d, r) }
                        pc += 1;
                    }
                    I::Bin(op, w, d, a, b) => {
                        let x = v!(a); let y = v!(b);
                        if x.s | y.s == 0 {
                            let m = m64(w as u32);
                            let r = match op {
                                Op::Add => x.b.wrapping_add(y.b) & m, Op::Sub => x.b.wrapping_sub(y.b) & m, Op::And => x.b & y.b, Op::Or => x.b | y.b, Op::Xor => x.b ^ y.b,
                                Op::Mul => x.b.wrapping_mul(y.b) & m, Op::Shl => if y.b >= w as u64 { 0 } else { (x.b << y.b) & m }, Op::LShr => if y.b >= w as u64 { 0 } else { x.b >> y.b },
                                _ => apply(op, w as u32, w as u32, x.b as u128, y.b as u128) as u64,
                            };
                            setb!(d, r)
                        } else { let xe = self.ex(x, w as u32); let ye = self.ex(y, w as u32); let e = self.ar.bin(op, xe, ye); set!(d, self.from(e)) }
                        pc += 1;
                    }
                    I::CondBr(c, e1, e2) => {
                        let x = v!(c);
                        let t = if x.s == 0 { x.b & 1 == 1 } else { save!(); self.st.steps += steps; steps = 0; self.decide(x.s, Some((e1, e2)))? };
                        let e = unsafe { f.edges.get_unchecked(if t { e1 } else { e2 } as usize) };
                        do_edge(regs, consts, e); pc = e.pc as usize;
                        if steps > 200_000 { self.st.steps += steps; steps = 0; if let Err(x) = self.tick() { save!(); return Err(x) } }
                    }
                    I::Jmp(e) => { let e = unsafe { f.edges.get_unchecked(e as usize) }; do_edge(regs, consts, e); pc = e.pc as usize;
                        if steps > 200_000 { self.st.steps += steps; steps = 0; if let Err(x) = self.tick() { save!(); return Err(x) } } }
                    I::Copy(d, a) => { set!(d, v!(a)); pc += 1 }
                    I::Zext(_, tw, d, a) => { let x = v!(a); if x.s == 0 { set!(d, x) } else { let e = self.ar.zext(x.s, tw as u32); set!(d, self.from(e)) } pc += 1 }
                    I::Sext(fw, tw, d, a) => { let x = v!(a); if x.s == 0 { setb!(d, (sx64(x.b, fw) as u64) & m64(tw as u32)) } else { let e = self.ar.sext(x.s, tw as u32); set!(d, self.from(e)) } pc += 1 }
                    I::Trunc(w, d, a) => { let x = v!(a); if x.s == 0 { setb!(d, x.b & m64(w as u32)) } else { let e = self.ar.extract(x.s, 0, w as u32); set!(d, self.from(e)) } pc += 1 }
                    I::Select(w, d, c, a, b) => {
                        let x = v!(c);
                        if x.s == 0 { set!(d, if x.b & 1 == 1 { v!(a) } else { v!(b) }) }
                        else { let (p, q) = (v!(a), v!(b));
                            match self.tri(x.s) { Some(t) => set!(d, if t { p } else { q }), None => {
                                if p.s == 0 && q.s == 0 && p.b == q.b { set!(d, p) }
                                else { let w = w as u32; let pe = self.ex(p, w); let qe = self.ex(q, w); let e = self.ar.ite(x.s, pe, qe); set!(d, self.from(e)) } } } }
                        pc += 1;
                    }
                    I::Alloca { dst, off } => { setb!(dst, fr.sp + off as u64); pc += 1 }
                    I::Call { callee, fid, args, nargs, dst, nret, .. } => {
                        save!();
                        self.st.steps += steps; if self.profile { self.prof(f.id, steps) } steps = 0;
                        let fid = if fid != NO_FN { fid } else { let t = v!(callee); let t = self.concretize(t, 64, "function pointer")?; let k = t.wrapping_sub(FN_BASE); if k % 16 != 0 || k / 16 >= self.m.funcs.len() as u64 { return Err(End::Abort(format!("call of invalid pointer {:#x}", t))) } (k / 16) as u32 };
                        let mut av = [Val::default(); 24];
                        let n = nargs as usize; if n > 24 { unsup!("too many args") }
                        for i in 0..n { av[i] = v!(f.pool[args as usize + i]) }
                        let h = self.hooks[fid as usize];
                        if h != Hook::No {
                            let r = self.hook(h, fid, &av[..n], nret)?;
                            match r { Some((vals, k)) => { for i in 0..(k.min(nret as usize)) { set!(dst + i as i32, vals[i]) } pc += 1; continue }
                                None => {} } // fall through to the real body
                        }
                        if self.m.funcs[fid as usize].body == 0 { unsup!("extern {}", self.m.funcs[fid as usize].name) }
                        pc += 1; save!();
                        self.push_call(fid, &av[..n], dst, nret)?;
                        if self.st.steps > self.budget { return Err(End::Hang) }
                        break Flow::Switch;
                    }
                    I::Ret(p, n) => {
                        let mut rv = [Val::default(); 40];
                        if n > 40 { unsup!("ret width") }
                        for i in 0..n as usize { rv[i] = v!(f.pool[p as usize + i]) }
                        if self.profile { self.prof(f.id, steps) }
                        let me = self.st.frames.pop().unwrap();
                        self.st.sp = me.sp;
                        self.st.regs.truncate(me.fp as usize);
                        self.st.steps += steps; steps = 0;
                        match self.st.frames.last() {
                            None => return Ok(()),
                            Some(c) => { let b = c.fp as usize; for i in 0..(me.nret as usize).min(n as usize) { self.st.regs[b + (me.dst as usize) + i] = rv[i] } }
                        }
                        break Flow::Switch;
                    }
                    I::Switch(x, si) => {
                        let xv = v!(x); let sw = &f.switches[si as usize];
                        let e = if xv.s == 0 { *sw.cases.get(&xv.b).unwrap_or(&sw.default) } else { save!(); self.st.steps += steps; steps = 0; self.switch_sym(xv.s, sw)? };
                        let e = &f.edges[e as usize]; do_edge(regs, consts, e); pc = e.pc as usize;
                    }
                    I::Intr { k, w, dst, args, nargs } => {
                        save!();
                        let mut av = [Val::default(); 72];
                        if nargs > 72 { unsup!("intrinsic args") }
                        if k != Intr::Cpuid { for i in 0..nargs as usize { av[i] = v!(f.pool[args as usize + i]) } }
                        let mut outv = [Val::default(); 32];
                        let n = self.intrinsic(k, w as u32, &av[..nargs as usize], &mut outv)?;
                        for i in 0..n { set!(dst + i as i32, outv[i]) }
                        pc += 1;
                    }
                    I::AtomicRmw { op, w, dst, p, v } => {
                        save!();
                        let a = v!(p); let a = self.concretize(a, 64, "atomic address")?; let x = v!(v); let wb = (w as u32 + 7) / 8;
                        let old = self.load(a, wb, w as u32)?;
                        let (oe, xe) = (self.ex(old, w as u32), self.ex(x, w as u32));
                        let n = match op { 0 => xe, 1 => self.ar.bin(Op::Add, oe, xe), 2 => self.ar.bin(Op::Sub, oe, xe), 3 => self.ar.and(oe, xe), 4 => self.ar.or(oe, xe), 5 => self.ar.bin(Op::Xor, oe, xe),
                            6 | 7 => { let c = self.ar.bin(Op::Ult, oe, xe); if op == 6 { self.ar.ite(c, xe, oe) } else { self.ar.ite(c, oe, xe) } }
                            _ => { let c = self.ar.bin(Op::Slt, oe, xe); if op == 8 { self.ar.ite(c, xe, oe) } else { self.ar.ite(c, oe, xe) } } };
                        let nv = self.from(n); self.store(a, nv, wb, w as u32)?;
                        set!(dst, old); pc += 1;
                    }
                    I::CmpXchg { w, dst, p, c, n } => {
                        save!();
                        let a = v!(p); let a = self.concretize(a, 64, "atomic address")?; let wb = (w as u32 + 7) / 8;
                        let old = self.load(a, wb, w as u32)?; let cv = v!(c);
                        let t = if old.s | cv.s == 0 { old.b == cv.b } else { let (x, y) = (self.ex(old, w as u32), self.ex(cv, w as u32)); let e = self.ar.eq(x, y); self.decide(e, None)? };
                        if t { let nv = v!(n); self.store(a, nv, wb, w as u32)? }
                        set!(dst, old); setb!(dst + 1, t as u64); pc += 1;
                    }
                    I::Bitcast { dst, dn, dw, src, sn, sw } => {
                        // concatenate all source lanes, slice into destination lanes
                        let mut vals = [Val::default(); 64]; let mut sym = false;
                        for i in 0..sn as usize { vals[i] = v!(f.pool[src as usize + i]); sym |= vals[i].s != 0 }
                        let total = sn as u32 * sw as u32;
                        if !sym && total <= 512 {
                            let mut big = [0u64; 9];
                            for i in 0..sn as usize { let bit = i as u32 * sw as u32; let (q, r) = ((bit / 64) as usize, bit % 64); big[q] |= vals[i].b << r; if r + sw as u32 > 64 { big[q + 1] |= vals[i].b >> (64 - r) } }
                            for i in 0..dn as usize { let bit = i as u32 * dw as u32; let (q, r) = ((bit / 64) as usize, bit % 64); let mut x = big[q] >> r; if r != 0 && r + dw as u32 > 64 { x |= big[q + 1] << (64 - r) } setb!(dst + i as i32, x & m64(dw as u32)) }
                        } else {
                            for i in 0..dn as u32 {
                                // bits [i*dw, (i+1)*dw)
                                let (lo, hi) = (i * dw as u32, (i + 1) * dw as u32);
                                let mut e: Id = 0; let mut b = lo;
                                while b < hi { let k = b / sw as u32; let o = b % sw as u32; let n = (sw as u32 - o).min(hi - b); let x = self.ex(vals[k as usize], sw as u32); let y = self.ar.extract(x, o, n); e = if e == 0 { y } else { self.ar.concat(y, e) }; b += n }
                                set!(dst + i as i32, self.from(e));
                            }
                        }
                        pc += 1;
                    }
                    I::WBin(op, w, d, p) => {
                        let q = [v!(f.pool[p as usize]), v!(f.pool[p as usize + 1]), v!(f.pool[p as usize + 2]), v!(f.pool[p as usize + 3])];
                        let r = self.wide(q[0], q[1], w as u32); let s = self.wide(q[2], q[3], w as u32);
                        let e = self.ar.bin(op, r, s);
                        let (l, h) = self.unwide(e, w as u32); set!(d, l); set!(d + 1, h); pc += 1;
                    }
                    I::WIcmp(c, w, d, p) => {
                        let q = [v!(f.pool[p as usize]), v!(f.pool[p as usize + 1]), v!(f.pool[p as usize + 2]), v!(f.pool[p as usize + 3])];
                        let r = self.wide(q[0], q[1], w as u32); let s = self.wide(q[2], q[3], w as u32);
                        let e = match c { Cmp::Eq => self.ar.eq(r, s), Cmp::Ne => { let e = self.ar.eq(r, s); self.ar.not(e) } Cmp::Ult => self.ar.bin(Op::Ult, r, s), Cmp::Ule => self.ar.bin(Op::Ule, r, s), Cmp::Slt => self.ar.bin(Op::Slt, r, s), Cmp::Sle => self.ar.bin(Op::Sle, r, s) };
                        set!(d, self.from(e)); pc += 1;
                    }
                    I::WExt { signed, fw, tw, dst, a } => { let x = v!(a); let e = self.ex(x, fw as u32); let e = if signed { self.ar.sext(e, tw as u32) } else { self.ar.zext(e, tw as u32) }; let (l, h) = self.unwide(e, tw as u32); set!(dst, l); set!(dst + 1, h); pc += 1 }
                    I::WTrunc { tw, dst, lo, .. } => { let x = v!(lo); if x.s == 0 { setb!(dst, x.b & m64(tw as u32)) } else { let e = self.ar.extract(x.s, 0, tw as u32); set!(dst, self.from(e)) } pc += 1 }
                    I::FBin(op, is64, d, a, b) => {
                        save!(); let (x, y) = (v!(a), v!(b)); let x = self.concretize(x, if is64 { 64 } else { 32 }, "float")?; let y = self.concretize(y, if is64 { 64 } else { 32 }, "float")?;
                        let r = if is64 { let (x, y) = (f64::from_bits(x), f64::from_bits(y)); (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() }
                            else { let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() as u64 };
                        setb!(d, r); pc += 1;
                    }
                    I::FNeg(is64, d, a) => { save!(); let x = v!(a); let x = self.concretize(x, if is64 { 64 } else { 32 }, "float")?; setb!(d, if is64 { x ^ 1 << 63 } else { x ^ 1 << 31 }); pc += 1 }
                    I::FCmp(k, is64, d, a, b) => {
                        save!(); let (x, y) = (v!(a), v!(b)); let x = self.concretize(x, if is64 { 64 } else { 32 }, "float")?; let y = self.concretize(y, if is64 { 64 } else { 32 }, "float")?;
                        let (x, y) = if is64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                        let un = x.is_nan() || y.is_nan();
                        let r = match k { 0 => x == y, 1 => !un && x != y, 2 => x < y, 3 => x <= y, 4 => x > y, 5 => x >= y, 6 => !un, 7 => un, 8 => un || x == y, 9 => un || x != y, 10 => un || x < y, 11 => un || x <= y, 12 => un || x > y, 13 => un || x >= y, 14 => true, _ => false };
                        setb!(d, r as u64); pc += 1;
                    }
                    I::FCast { k, fw, tw, dst, a } => {
                        save!(); let x = v!(a); let x = self.concretize(x, fw as u32, "float")?;
                        let fx = if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        let pk = |v: f64| if tw == 64 { v.to_bits() } else { (v as f32).to_bits() as u64 };
                        let r = match k { 0 => fx as u64 & m64(tw as u32), 1 => (fx as i64 as u64) & m64(tw as u32), 2 => pk(x as f64), 3 => pk(sx64(x, fw) as f64), _ => pk(fx) };
                        setb!(dst, r); pc += 1;
                    }
                    I::ExtractDyn { dst, idx, v, n } => { save!(); let i = v!(idx); let i = self.concretize(i, 64, "vector index")? as usize; if i >= n as usize { unsup!("vector index") } set!(dst, v!(f.pool[v as usize + i])); pc += 1 }
                    I::InsertDyn { dst, idx, e, v, n } => { save!(); let i = v!(idx); let i = self.concretize(i, 64, "vector index")? as usize; let ev = v!(e); for k in 0..n as usize { let x = if k == i { ev } else { v!(f.pool[v as usize + k]) }; set!(dst + k as i32, x) } pc += 1 }
                    I::Unreachable => { save!(); return Err(End::Abort("unreachable executed".into())) }
                    I::Unsupported(k) => { save!(); unsup!("{}", f.msgs[k as usize]) }
                }
                #[allow(unused_assignments)] { let _ = &mut fr; }
                regs = unsafe { self.st.regs.as_mut_ptr().add(fp) };
            };
            self.st.steps += steps;
            match flow { Flow::Next => {} Flow::Switch => {} }
        }
    }
    fn tick(&mut self) -> R<()> {
        self.tick += 1;
        if self.st.steps > self.budget { return Err(End::Hang) }
        if std::time::Instant::now() > self.deadline || self.shared.stop.load(std::sync::atomic::Ordering::Relaxed) { self.jst().incomplete += 1; return Err(End::Assume) }
        self.offload();
        Ok(())
    }
    fn wide(&mut self, lo: Val, hi: Val, w: u32) -> Id { if lo.s == 0 && hi.s == 0 { return self.ar.konst(lo.b as u128 | (hi.b as u128) << 64, w) } let l = self.ex(lo, 64); let h = self.ex(hi, w - 64); self.ar.concat(h, l) }
    fn unwide(&mut self, e: Id, w: u32) -> (Val, Val) { let l = self.ar.extract(e, 0, 64); let h = self.ar.extract(e, 64, w - 64); (self.from(l), self.from(h)) }
    fn cmp_sym(&mut self, c: Cmp, w: u32, x: Val, y: Val) -> Val {
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let e = match c { Cmp::Eq => self.ar.eq(a, b), Cmp::Ne => { let e = self.ar.eq(a, b); self.ar.not(e) } Cmp::Ult => self.ar.bin(Op::Ult, a, b), Cmp::Ule => self.ar.bin(Op::Ule, a, b), Cmp::Slt => self.ar.bin(Op::Slt, a, b), Cmp::Sle => self.ar.bin(Op::Sle, a, b) };
        // collapse when the domains decide it (keeps expressions small)
        match self.tri(e) { Some(t) => Val { b: t as u64, s: 0 }, None => self.from(e) }
    }
    fn load_sym(&mut self, a: Id, off: u32, bytes: u32, w: u32) -> R<Val> {
        if let Some(v) = self.ar.single_var(a) {
            if let Some(t) = self.ar.table(a) {
                let d = self.st.dom[v as usize];
                let mut out = [0u64; 256]; let mut sym: Vec<(Mask, Id)> = vec![];
                let mut seen: Vec<(u64, Val, Mask)> = vec![];
                for i in 0..256usize { if !mask_has(&d, i) { continue }
                    let ad = t[i].wrapping_add(off as u64);
                    match seen.iter_mut().find(|s| s.0 == ad) { Some(s) => s.2[i >> 6] |= 1 << (i & 63), None => { let x = self.load(ad, bytes, w)?; let mut m = [0u64; 4]; m[i >> 6] |= 1 << (i & 63); seen.push((ad, x, m)) } } }
                let mut dflt = None;
                for (_, x, m) in &seen { if x.s != 0 { sym.push((*m, x.s)) } else { dflt = Some(x.b); for i in 0..256 { if mask_has(m, i) { out[i] = x.b } } } }
                if seen.len() == 1 { return Ok(seen[0].1) }
                if let Some(k) = dflt { for i in 0..256 { if !mask_has(&d, i) || sym.iter().any(|s| mask_has(&s.0, i)) { out[i] = k } } }
                let mut e = self.ar.lut(v, &out, w);
                for (m, x) in sym { let mut tb = [0u64; 256]; for i in 0..256 { tb[i] = mask_has(&m, i) as u64 } let c = self.ar.lut(v, &tb, 1); e = self.ar.ite(c, x, e) }
                return Ok(self.from(e));
            }
        }
        let ad = self.concretize(Val { b: 0, s: a }, 64, "load address")?;
        self.load(ad.wrapping_add(off as u64), bytes, w)
    }
    fn switch_sym(&mut self, x: Id, sw: &SwitchT) -> R<u32> {
        // group cases by edge
        let mut groups: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
        for (k, e) in &sw.cases { if *e != sw.default { groups.entry(*e).or_default().push(*k) } }
        let mut conds: Vec<(u32, Id)> = vec![];
        if let (Some(v), Some(t)) = (self.ar.single_var(x), self.ar.table(x)) {
            let mut byedge: BTreeMap<u32, [u64; 256]> = BTreeMap::new();
            for i in 0..256usize { let e = *sw.cases.get(&t[i]).unwrap_or(&sw.default); byedge.entry(e).or_insert([0; 256])[i] = 1 }
            for (e, tb) in byedge { let c = self.ar.lut(v, &tb, 1); conds.push((e, c)) }
        } else {
            let mut none = self.ar.konst(1, 1);
            for (e, mut ks) in groups { ks.sort(); let mut c = self.ar.konst(0, 1); for k in ks { let kk = self.ar.konst(k as u128, sw.w as u32); let q = self.ar.eq(x, kk); c = self.ar.or(c, q) } conds.push((e, c)); let nc = self.ar.not(c); none = self.ar.and(none, nc) }
            conds.push((sw.default, none));
        }
        let mut feas: Vec<(u32, Id, Vec<(u8, u8)>)> = vec![];
        for (e, c) in conds { match self.tri(c) { Some(true) => return Ok(e), Some(false) => {} None => { if let Some(u) = self.sat(c)? { feas.push((e, c, u)) } } } }
        if feas.is_empty() { return Err(End::Unsupported("switch: no feasible case".into())) }
        if feas.len() == 1 { return Ok(feas[0].0) }
        // continue with the one the model satisfies
        let k = feas.iter().position(|f| f.2.is_empty()).unwrap_or(0);
        for i in 0..feas.len() { if i != k { let (e, c, u) = feas[i].clone(); let mut o = self.clone_state(); self.add(&mut o, c, &u); take_edge(&mut o, e); self.work.push(o) } }
        let (e, c, u) = feas[k].clone();
        self.add_here(c, &u);
        self.offload();
        Ok(e)
    }
    fn intrinsic(&mut self, k: Intr, w: u32, a: &[Val], out: &mut [Val]) -> R<usize> {
        macro_rules! e { ($i:expr) => {{ let x = a[$i]; self.ex(x, w) }} }
        let c = |b: u64| Val { b, s: 0 };
        match k {
            Intr::Memcpy | Intr::Memmove => { let d = self.concretize(a[0], 64, "memcpy")?; let s = self.concretize(a[1], 64, "memcpy")?; let n = self.concretize(a[2], 64, "memcpy length")?; if n > 1 << 30 { return Err(End::Abort("memcpy size".into())) } self.copy(d, s, n)?; return Ok(0) }
            Intr::Memset => { let d = self.concretize(a[0], 64, "memset")?; let n = self.concretize(a[2], 64, "memset length")?; if a[1].s == 0 { let b = vec![a[1].b as u8; n as usize]; self.write_bytes(d, &b)? } else { for i in 0..n { self.store(d + i, a[1], 1, 8)? } } return Ok(0) }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if w > 64 {
                    let x = self.wide(a[0], a[1], w); let y = self.wide(a[2], a[3], w);
                    let (Some(p), Some(q)) = (self.ar.cv(x), self.ar.cv(y)) else { return Err(End::Unsupported("wide overflow intrinsic".into())) };
                    if w != 128 { return Err(End::Unsupported("wide overflow intrinsic width".into())) }
                    let (r, o) = match k { Intr::UAddO => p.overflowing_add(q), Intr::USubO => p.overflowing_sub(q), Intr::UMulO => p.overflowing_mul(q), _ => return Err(End::Unsupported("wide signed".into())) };
                    out[0] = c(r as u64); out[1] = c((r >> 64) as u64); out[2] = c(o as u64); return Ok(3);
                }
                if a[0].s | a[1].s == 0 {
                    let (x, y) = (a[0].b as u128, a[1].b as u128); let (sx_, sy) = (sx(x, w), sx(y, w)); let m = m128(w);
                    let (r, o) = match k { Intr::UAddO => ((x + y) & m, x + y > m), Intr::USubO => (x.wrapping_sub(y) & m, x < y), Intr::UMulO => ((x * y) & m, x * y > m),
                        Intr::SAddO => { let r = sx_ + sy; ((r as u128) & m, sx((r as u128) & m, w) != r) } Intr::SSubO => { let r = sx_ - sy; ((r as u128) & m, sx((r as u128) & m, w) != r) } _ => { let r = sx_ * sy; ((r as u128) & m, sx((r as u128) & m, w) != r) } };
                    out[0] = c(r as u64); out[1] = c(o as u64); return Ok(2);
                }
                let (x, y) = (e!(0), e!(1));
                let (r, o) = match k {
                    Intr::UAddO => { let r = self.ar.bin(Op::Add, x, y); (r, self.ar.bin(Op::Ult, r, x)) }
                    Intr::USubO => (self.ar.bin(Op::Sub, x, y), self.ar.bin(Op::Ult, x, y)),
                    Intr::UMulO => { let xx = self.ar.zext(x, 2 * w); let yy = self.ar.zext(y, 2 * w); let p = self.ar.bin(Op::Mul, xx, yy); let h = self.ar.extract(p, w, w); let z = self.ar.konst(0, w); let q = self.ar.eq(h, z); (self.ar.bin(Op::Mul, x, y), self.ar.not(q)) }
                    _ => { let ww = (2 * w).min(128); let xx = self.ar.sext(x, ww); let yy = self.ar.sext(y, ww); let op = match k { Intr::SAddO => Op::Add, Intr::SSubO => Op::Sub, _ => Op::Mul }; let p = self.ar.bin(op, xx, yy); let l = self.ar.extract(p, 0, w); let ls = self.ar.sext(l, ww); let q = self.ar.eq(ls, p); (l, self.ar.not(q)) }
                };
                out[0] = self.from(r); out[1] = match self.tri(o) { Some(t) => c(t as u64), None => self.from(o) }; Ok(2)
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => { let (x, y) = (e!(0), e!(1)); let q = self.ar.bin(if matches!(k, Intr::UMax | Intr::UMin) { Op::Ult } else { Op::Slt }, x, y); let r = if matches!(k, Intr::UMax | Intr::SMax) { self.ar.ite(q, y, x) } else { self.ar.ite(q, x, y) }; out[0] = self.from(r); Ok(1) }
            Intr::UAddSat => { let (x, y) = (e!(0), e!(1)); let r = self.ar.bin(Op::Add, x, y); let o = self.ar.bin(Op::Ult, r, x); let m = self.ar.konst(m128(w), w); let r = self.ar.ite(o, m, r); out[0] = self.from(r); Ok(1) }
            Intr::USubSat => { let (x, y) = (e!(0), e!(1)); let r = self.ar.bin(Op::Sub, x, y); let o = self.ar.bin(Op::Ult, x, y); let z = self.ar.konst(0, w); let r = self.ar.ite(o, z, r); out[0] = self.from(r); Ok(1) }
            Intr::SAddSat | Intr::SSubSat => { if a[0].s | a[1].s != 0 { return Err(End::Unsupported("ssat".into())) } let (x, y) = (sx(a[0].b as u128, w), sx(a[1].b as u128, w)); let r = if k == Intr::SAddSat { x + y } else { x - y }; let hi = (1i128 << (w - 1)) - 1; let lo = -(1i128 << (w - 1)); out[0] = c((r.clamp(lo, hi) as u64) & m64(w)); Ok(1) }
            Intr::Cttz | Intr::Ctlz | Intr::Ctpop => {
                if w > 64 { let x = self.wide(a[0], a[1], w); let Some(v) = self.ar.cv(x) else { return Err(End::Unsupported("wide ctlz".into())) }; let r = match k { Intr::Cttz => if v == 0 { w } else { v.trailing_zeros() }, Intr::Ctlz => v.leading_zeros() - (128 - w), _ => v.count_ones() }; out[0] = c(r as u64); out[1] = c(0); return Ok(2) }
                let f = |v: u64| match k { Intr::Cttz => if v == 0 { w as u64 } else { v.trailing_zeros() as u64 }, Intr::Ctlz => (v.leading_zeros() - (64 - w)) as u64, _ => v.count_ones() as u64 };
                if a[0].s == 0 { out[0] = c(f(a[0].b)); return Ok(1) }
                if let (Some(v), Some(t)) = (self.ar.single_var(a[0].s), self.ar.table(a[0].s)) { let mut o = [0u64; 256]; for i in 0..256 { o[i] = f(t[i]) } let e = self.ar.lut(v, &o, w); out[0] = self.from(e); return Ok(1) }
                // build the expression, then make it concrete by forking
                let x = a[0].s; let mut r;
                match k {
                    Intr::Cttz => { r = self.ar.konst(w as u128, w); for i in (0..w).rev() { let b = self.ar.extract(x, i, 1); let kk = self.ar.konst(i as u128, w); r = self.ar.ite(b, kk, r) } }
                    Intr::Ctlz => { r = self.ar.konst(w as u128, w); for i in 0..w { let b = self.ar.extract(x, i, 1); let kk = self.ar.konst((w - 1 - i) as u128, w); r = self.ar.ite(b, kk, r) } }
                    _ => { r = self.ar.konst(0, w); for i in 0..w { let b = self.ar.extract(x, i, 1); let z = self.ar.zext(b, w); r = self.ar.bin(Op::Add, r, z) } }
                }
                let rv = self.from(r);
                out[0] = c(self.concretize(rv, w, "bit scan")?); Ok(1)
            }
            Intr::Bswap => {
                if w > 64 { let x = self.wide(a[0], a[1], w); let mut r: Id = 0; for i in 0..w / 8 { let b = self.ar.extract(x, i * 8, 8); r = if i == 0 { b } else { self.ar.concat(r, b) } } let (l, h) = self.unwide(r, w); out[0] = l; out[1] = h; return Ok(2) }
                let x = e!(0); let mut r: Id = 0; for i in 0..w / 8 { let b = self.ar.extract(x, i * 8, 8); r = if i == 0 { b } else { self.ar.concat(r, b) } } out[0] = self.from(r); Ok(1)
            }
            Intr::Bitreverse => { let x = e!(0); let mut r: Id = 0; for i in 0..w { let b = self.ar.extract(x, i, 1); r = if i == 0 { b } else { self.ar.concat(r, b) } } out[0] = self.from(r); Ok(1) }
            Intr::Fshl | Intr::Fshr => {
                if a[2].s != 0 { return Err(End::Unsupported("symbolic funnel shift".into())) }
                let s = (a[2].b % w as u64) as u32; let (x, y) = (e!(0), e!(1));
                let cc = if 2 * w <= 128 { self.ar.concat(x, y) } else { return Err(End::Unsupported("fsh width".into())) };
                let r = if k == Intr::Fshl { self.ar.extract(cc, w - s, w) } else { self.ar.extract(cc, s, w) };
                out[0] = self.from(r); Ok(1)
            }
            Intr::Abs => { let x = e!(0); let z = self.ar.konst(0, w); let n = self.ar.bin(Op::Sub, z, x); let q = self.ar.bin(Op::Slt, x, z); let r = self.ar.ite(q, n, x); out[0] = self.from(r); Ok(1) }
            Intr::Trap => Err(End::Abort("trap".into())),
            Intr::LoadRelative => { let b = self.concretize(a[0], 64, "load.relative")?; let o = self.concretize(a[1], 64, "load.relative")?; let v = self.load(b.wrapping_add(o), 4, 32)?; out[0] = c(b.wrapping_add(v.b as u32 as i32 as i64 as u64)); Ok(1) }
            Intr::Expect => { out[0] = a[0]; if w > 64 { out[1] = a[1]; return Ok(2) } Ok(1) }
            Intr::IsConstant => { out[0] = c(0); Ok(1) }
            Intr::ReduceAdd | Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceMax => {
                let mut r = e!(0);
                for i in 1..a.len() { let x = e!(i); r = match k { Intr::ReduceAdd => self.ar.bin(Op::Add, r, x), Intr::ReduceOr => self.ar.or(r, x), Intr::ReduceAnd => self.ar.and(r, x), _ => { let q = self.ar.bin(Op::Ult, r, x); self.ar.ite(q, x, r) } } }
                out[0] = self.from(r); Ok(1)
            }
            Intr::Pshufb => { let n = a.len() / 2; for i in 0..n { let m = a[n + i]; if m.s != 0 || a[i].s != 0 { return Err(End::Unsupported("symbolic pshufb".into())) } } for i in 0..n { let m = a[n + i].b; let base = i / 16 * 16; out[i] = if m & 0x80 != 0 { c(0) } else { a[base + (m & 15) as usize] } } Ok(n) }
            Intr::Pmovmskb => { let mut r: Id = 0; for i in 0..a.len() { let x = self.ex(a[i], 8); let b = self.ar.extract(x, 7, 1); r = if i == 0 { b } else { self.ar.concat(b, r) } } let r = self.ar.zext(r, 32); out[0] = self.from(r); Ok(1) }
            Intr::Cpuid => { for i in 0..4 { out[i] = c(0) } Ok(4) }
            Intr::FunaryCeil | Intr::FunaryFloor | Intr::FunaryTrunc | Intr::FunaryFabs => { let x = self.concretize(a[0], w, "float")?; let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 }; let r = match k { Intr::FunaryCeil => f.ceil(), Intr::FunaryFloor => f.floor(), Intr::FunaryTrunc => f.trunc(), _ => f.abs() }; out[0] = c(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 }); Ok(1) }
        }
    }
    fn cmp_mem(&mut self, a: u64, b: u64, n: u64, eq_only: bool) -> R<Val> {
        let mut pairs = vec![];
        for i in 0..n {
            let x = self.load(a + i, 1, 8)?; let y = self.load(b + i, 1, 8)?;
            if x.s == 0 && y.s == 0 {
                if x.b != y.b {
                    if eq_only { return Ok(Val { b: 1, s: 0 }) }
                    pairs.push((x, y)); break;
                }
            } else if x.s != y.s {
                let (xe, ye) = (self.ex(x, 8), self.ex(y, 8));
                let q = self.ar.eq(xe, ye);
                match self.tri(q) { Some(true) => {} Some(false) => { if eq_only { return Ok(Val { b: 1, s: 0 }) } pairs.push((x, y)); break } None => pairs.push((x, y)) }
            }
        }
        if pairs.is_empty() { return Ok(Val { b: 0, s: 0 }) }
        let one = self.ar.konst(1, 32); let zero = self.ar.konst(0, 32); let neg = self.ar.konst(!0, 32);
        if eq_only {
            let mut c = self.ar.konst(1, 1);
            for (x, y) in pairs { let (xe, ye) = (self.ex(x, 8), self.ex(y, 8)); let q = self.ar.eq(xe, ye); c = self.ar.and(c, q) }
            let r = self.ar.ite(c, zero, one); return Ok(self.from(r));
        }
        let mut r = zero;
        for (x, y) in pairs.into_iter().rev() { let (xe, ye) = (self.ex(x, 8), self.ex(y, 8)); let q = self.ar.eq(xe, ye); let l = self.ar.bin(Op::Ult, xe, ye); let d = self.ar.ite(l, neg, one); r = self.ar.ite(q, r, d) }
        Ok(self.from(r))
    }
    fn cstr(&mut self, mut a: u64) -> R<String> { let mut s = vec![]; loop { let b = self.load(a, 1, 8)?; if b.b == 0 { break } s.push(b.b as u8); a += 1 } Ok(String::from_utf8_lossy(&s).into_owned()) }
    /// Some((values, count)) when handled; None to run the real body.
    fn hook(&mut self, h: Hook, fid: u32, a: &[Val], _nret: u16) -> R<Option<([Val; 4], usize)>> {
        let c = |b: u64| Val { b, s: 0 };
        let one = |v: Val| Ok(Some(([v, Val::default(), Val::default(), Val::default()], 1)));
        let none = || Ok(Some(([Val::default(); 4], 4)));
        // the models below work on concrete arguments: fork on the values of symbolic ones
        let keep = match h { Hook::No | Hook::Known | Hook::Note | Hook::Assume | Hook::Concretize | Hook::HashOne | Hook::PanicFmt | Hook::BeginUnwind | Hook::AllocError | Hook::Abort => a.len(), Hook::Check => 1, _ => 0 };
        let mut conc: Vec<Val>;
        let mut a = a;
        if a.iter().skip(keep).any(|v| v.s != 0) {
            conc = a.to_vec();
            for v in conc.iter_mut().skip(keep) { if v.s != 0 { let w = self.ar.w(v.s); *v = c(self.concretize(*v, w, "model argument")?) } }
            a = &conc;
        }
        match h {
            Hook::No | Hook::Known => Ok(None),
            Hook::Malloc => { let n = self.concretize(a[0], 64, "malloc size")?; let r = self.malloc(n)?; one(c(r)) }
            Hook::Calloc => { let n = self.concretize(a[0], 64, "malloc size")?; let m = self.concretize(a[1], 64, "malloc size")?; let r = self.malloc(n * m)?; self.write_bytes(r, &vec![0; (n * m) as usize])?; one(c(r)) }
            Hook::Realloc => { let n = self.concretize(a[1], 64, "malloc size")?; let r = self.realloc(a[0].b, n)?; one(c(r)) }
            Hook::Free => { self.free(a[0].b)?; none() }
            Hook::PosixMemalign => { let n = self.concretize(a[2], 64, "malloc size")?; let r = self.memalign(a[1].b, n)?; self.store(a[0].b, c(r), 8, 64)?; one(c(0)) }
            Hook::RustAlloc => { let n = self.concretize(a[0], 64, "alloc size")?; let r = self.memalign(a[1].b, n)?; one(c(r)) }
            Hook::RustAllocZeroed => { let n = self.concretize(a[0], 64, "alloc size")?; let r = self.memalign(a[1].b, n)?; self.write_bytes(r, &vec![0; n as usize])?; one(c(r)) }
            Hook::RustRealloc => { let n = self.concretize(a[3], 64, "alloc size")?; let r = if a[2].b <= 16 { self.realloc(a[0].b, n)? } else { let p = self.memalign(a[2].b, n)?; let o = a[1].b; self.copy(p, a[0].b, o.min(n))?; p }; one(c(r)) }
            Hook::RustDealloc => { if a.len() < 3 || a[2].b <= 16 { self.free(a[0].b)? } none() }
            Hook::Memcpy | Hook::Memmove => { let n = self.concretize(a[2], 64, "memcpy length")?; let d = self.concretize(a[0], 64, "memcpy")?; let s = self.concretize(a[1], 64, "memcpy")?; self.copy(d, s, n)?; one(c(d)) }
            Hook::Memset => { let n = self.concretize(a[2], 64, "memset length")?; self.write_bytes(a[0].b, &vec![a[1].b as u8; n as usize])?; one(a[0]) }
            Hook::Memcmp | Hook::Bcmp => { let n = self.concretize(a[2], 64, "memcmp length")?; let x = self.concretize(a[0], 64, "memcmp")?; let y = self.concretize(a[1], 64, "memcmp")?; let r = self.cmp_mem(x, y, n, h == Hook::Bcmp)?; one(r) }
            Hook::Strlen => { let s = self.cstr(a[0].b)?; one(c(s.len() as u64)) }
            Hook::Memchr => { let n = a[2].b; for i in 0..n { let v = self.load(a[0].b + i, 1, 8)?; let (p, q) = (self.ex(v, 8), self.ex(c(a[1].b & 255), 8)); let e = self.ar.eq(p, q); if self.decide(e, None)? { return one(c(a[0].b + i)) } } one(c(0)) }
            Hook::PanicFmt => {
                // (fmt::Arguments*, &Location {file ptr, len, line, col})
                let l = a.last().copied().unwrap_or_default();
                let mut s = String::from("panic");
                if l.s == 0 && self.st.mem.valid(l.b) { if let (Ok(p), Ok(n)) = (self.load(l.b, 8, 64), self.load(l.b + 8, 8, 64)) { if n.b < 400 { if let Ok(f) = self.read_bytes(p.b, n.b) { let line = self.load(l.b + 16, 4, 32)?.b; let col = self.load(l.b + 20, 4, 32)?.b; s = format!("panic at {}:{}:{}", String::from_utf8_lossy(&f), line, col) } } } }
                Err(End::Panic(s))
            }
            Hook::BeginUnwind => Err(End::Panic("panic".into())),
            Hook::AllocError => Err(End::Abort("allocation error".into())),
            Hook::HashOne => { if self.st.mode[0] == 1 { return Ok(None) } one(c(0x5151_5151_5151_5151 ^ self.st.mode[1])) }
            Hook::Abort => Err(End::Abort(format!("{} called", self.m.funcs[fid as usize].name))),
            Hook::Exit => { if a[0].b == 0 { self.st.frames.clear(); Err(End::Ok) } else { Err(End::Abort(format!("exit({})", a[0].b))) } }
            Hook::Write => one(a[2]),
            Hook::Zero => one(c(0)),
            Hook::MinusOne => one(c(!0)),
            Hook::Errno => { if self.st.errno == 0 { self.st.errno = self.malloc(16)?; } let (e, v) = (self.st.errno, self.st.errno_val); self.store(e, c(v), 4, 32)?; one(c(e)) }
            Hook::ClockGettime => { self.st.clock += 1000; let t = self.st.clock; self.store(a[1].b, c(t / 1_000_000_000), 8, 64)?; self.store(a[1].b + 8, c(t % 1_000_000_000), 8, 64)?; one(c(0)) }
            Hook::Getenv => one(c(0)),
            Hook::Sysconf => one(c(if a[0].b == 30 { 4096 } else { 1 })),
            Hook::Syscall => { match a[0].b { 318 => { let n = a[2].b; self.write_bytes(a[1].b, &vec![7; n as usize])?; one(c(n)) } 202 => { // futex
                    if a[2].b & 127 == 0 || a[2].b & 127 == 9 { return Err(End::Abort("deadlock: futex wait".into())) } one(c(0)) } 332 => { // statx(dirfd, path, flags, mask, buf)
                    if a[2].b == 0 { self.st.errno_val = 14; return one(c(!0)) }
                    let p = self.cstr(a[2].b)?;
                    let k = if p.is_empty() { self.st.fds.get((a[1].b as usize).wrapping_sub(10)).map(|f| f.0 as usize) } else { self.st.vfs.iter().rposition(|f| f.0 == p) };
                    if k.is_none() && !p.is_empty() && self.st.vfs.iter().any(|f| f.0.len() > p.len() && f.0.starts_with(&p) && (p.ends_with('/') || f.0.as_bytes()[p.len()] == b'/')) { let b = a[5].b; self.write_bytes(b, &[0; 256])?; self.store(b, c(0x7ff), 4, 32)?; self.store(b + 0x1c, c(0o040755), 2, 16)?; return one(c(0)) }
                    match k { None => { self.st.errno_val = 2; one(c(!0)) } Some(k) => { let len = self.st.vfs[k].2; let b = a[5].b; self.write_bytes(b, &[0; 256])?; self.store(b, c(0x7ff), 4, 32)?; self.store(b + 0x1c, c(0o100644), 2, 16)?; self.store(b + 0x28, c(len), 8, 64)?; one(c(0)) } } }
                n => unsup!("syscall {}", n) } }
            Hook::Open => { let p = self.cstr(a[0].b)?; match self.st.vfs.iter().rposition(|f| f.0 == p) { Some(i) => { let fd = 10 + self.st.fds.len() as u64; self.st.fds.push((i as u32, 0)); one(c(fd)) } None => { self.st.errno_val = 2; one(c(0xffff_ffff)) } } }
            Hook::Read => { let k = (a[0].b as usize).wrapping_sub(10); if k >= self.st.fds.len() { self.st.errno_val = 9; return one(c(!0)) } let (i, off) = self.st.fds[k]; let (_, at, len) = self.st.vfs[i as usize]; let n = (len - off).min(a[2].b); self.copy(a[1].b, at + off, n)?; self.st.fds[k].1 += n; one(c(n)) }
            Hook::File => { let p = self.read_bytes(a[0].b, a[1].b)?; let n = a[3].b; let m = self.malloc(n.max(1))?; self.copy(m, a[2].b, n)?; self.st.vfs.push((String::from_utf8_lossy(&p).into_owned(), m, n)); none() }
            Hook::Close => one(c(0)),
            Hook::Stat => { self.st.errno_val = 2; one(c(0xffff_ffff)) }
            Hook::Getcwd => { self.write_bytes(a[0].b, b"/w\0")?; one(a[0]) }
            Hook::SymByte => {
                // (set ptr, set len): fresh symbolic byte within the set (len 0: any byte)
                let n = a[1].b; let mut d = FULL;
                if n > 0 { let set = self.read_bytes(a[0].b, n)?; d = [0; 4]; for b in set { d[(b >> 6) as usize] |= 1 << (b & 63) } }
                let i = self.st.dom.len() as u32; if i >= 128 { unsup!("too many symbolic bytes") }
                // spread initial values so that samples differ
                self.st.dom.push(d); self.st.model.push(mask_first(&d) as u8);
                let v = self.ar.var(i);
                if mask_count(&d) == 1 { return one(c(mask_first(&d) as u64)) }
                one(Val { b: 0, s: v })
            }
            Hook::Assume => {
                let x = a[0]; if x.s == 0 { return if x.b != 0 { none() } else { Err(End::Assume) } }
                let w = self.ar.w(x.s); let z = self.ar.konst(0, w); let e = self.ar.eq(x.s, z); let e = self.ar.not(e);
                match self.tri(e) { Some(true) => none(), Some(false) => Err(End::Assume), None => match self.sat(e)? { Some(u) => { self.add_here(e, &u); none() } None => Err(End::Assume) } }
            }
            Hook::Check => {
                self.jst().checks += 1;
                let msg = self.read_bytes(a[1].b, a[2].b)?; let msg = String::from_utf8_lossy(&msg).into_owned();
                let x = a[0];
                if x.s == 0 { if x.b != 0 { return none() } let model = self.st.model.clone(); self.report("check", &msg, &model); return none() }
                self.jst().sym_checks += 1;
                let w = self.ar.w(x.s); let z = self.ar.konst(0, w); let bad = self.ar.eq(x.s, z);
                let good = self.ar.not(bad);
                if self.tri(bad) != Some(false) {
                    if let Some(u) = self.sat(bad)? { let mut model = self.st.model.clone(); for (v, b) in u { model[v as usize] = b } self.report("check", &msg, &model) }
                }
                match self.sat(good)? { Some(u) => { self.add_here(good, &u); none() } None => none() }
            }
            Hook::Note => { self.st.notes.push((a[0].s, a[0].b)); none() }
            Hook::NoteBytes => { for i in 0..a[1].b { let v = self.load(a[0].b + i, 1, 8)?; self.st.notes.push((v.s, v.b)) } none() }
            Hook::Reach => { let m = self.read_bytes(a[0].b, a[1].b)?; let m = String::from_utf8_lossy(&m).into_owned(); *self.jst().reach.entry(m).or_default() += 1; none() }
            Hook::Concretize => { let w = if a[0].s != 0 { self.ar.w(a[0].s) } else { 64 }; let v = self.concretize(a[0], w, "harness")?; one(c(v)) }
            Hook::Mode => { let k = a[0].b as usize; if k < 8 { self.st.mode[k] = a[1].b } none() }
        }
    }
}
#[inline] fn sx64(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
#[inline] fn do_edge(regs: *mut Val, consts: &[u64], e: &Edge) {
    let g = |o: i32| if o >= 0 { unsafe { *regs.add(o as usize) } } else { Val { b: consts[!o as usize], s: 0 } };
    if !e.conflict { for &(d, s) in &e.copies { let v = g(s); unsafe { *regs.add(d as usize) = v } } }
    else { let tmp: Vec<Val> = e.copies.iter().map(|c| g(c.1)).collect(); for (i, c) in e.copies.iter().enumerate() { unsafe { *regs.add(c.0 as usize) = tmp[i] } } }
}
fn take_edge(st: &mut State, e: u32) {
    let fr = *st.frames.last().unwrap(); let f = unsafe { &*fr.f };
    let ed = &f.edges[e as usize];
    let regs = unsafe { st.regs.as_mut_ptr().add(fr.fp as usize) };
    do_edge(regs, &f.consts, ed);
    st.frames.last_mut().unwrap().pc = ed.pc;
}

pub fn jstr(s: &str) -> String { let mut o = String::from("\""); for ch in s.chars() { match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
/// Rough demangling of legacy Rust symbols.
pub fn short(n: &str) -> String {
    let Some(mut r) = n.strip_prefix("_ZN") else { return n.to_string() };
    let mut parts = vec![];
    while let Some(c) = r.bytes().next() { if !c.is_ascii_digit() { break } let k = r.bytes().take_while(|b| b.is_ascii_digit()).count(); let l: usize = match r[..k].parse() { Ok(x) => x, Err(_) => break }; if k + l > r.len() { break } parts.push(r[k..k + l].to_string()); r = &r[k + l..] }
    if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) { parts.pop(); }
    let s = parts.join("::");
    let mut o = s.clone();
    for (a, b) in [("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$C$", ","), ("$u20$", " "), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("..", "::"), ("$u3b$", ";"), ("$u2b$", "+")] { o = o.replace(a, b) }
    o
}
fn hook_for(n: &str) -> Hook {
    match n {
        "malloc" => Hook::Malloc, "calloc" => Hook::Calloc, "realloc" => Hook::Realloc, "free" => Hook::Free, "posix_memalign" => Hook::PosixMemalign,
        "__rust_alloc" | "__rdl_alloc" => Hook::RustAlloc, "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => Hook::RustAllocZeroed, "__rust_realloc" | "__rdl_realloc" => Hook::RustRealloc, "__rust_dealloc" | "__rdl_dealloc" => Hook::RustDealloc,
        "memcpy" => Hook::Memcpy, "memmove" => Hook::Memmove, "memset" => Hook::Memset, "memcmp" => Hook::Memcmp, "bcmp" => Hook::Bcmp, "strlen" => Hook::Strlen, "memchr" => Hook::Memchr,
        "rust_begin_unwind" => Hook::BeginUnwind, "abort" => Hook::Abort, "exit" | "_exit" => Hook::Exit, "syscall" => Hook::Syscall, "write" | "writev" => Hook::Write,
        "pthread_key_create" | "pthread_setspecific" | "pthread_self" | "pthread_getattr_np" | "pthread_attr_getstack" | "pthread_attr_destroy" | "pthread_attr_init" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_getspecific" | "sched_yield" | "__cxa_thread_atexit_impl" | "sigaction" | "sigaltstack" | "signal" | "poll" | "fcntl" | "pthread_key_delete" => Hook::Zero,
        "clock_gettime" => Hook::ClockGettime, "getenv" => Hook::Getenv, "sysconf" => Hook::Sysconf, "__errno_location" => Hook::Errno,
        "open64" | "open" => Hook::Open, "read" => Hook::Read, "close" => Hook::Close, "stat64" | "fstat64" | "lstat64" | "statx" | "lseek64" | "readlink" => Hook::Stat, "getcwd" => Hook::Getcwd, "realpath" => Hook::Zero,
        "inksym_byte" => Hook::SymByte, "inksym_assume" => Hook::Assume, "inksym_check" => Hook::Check, "inksym_note" => Hook::Note, "inksym_note_bytes" => Hook::NoteBytes, "inksym_reach" => Hook::Reach, "inksym_concretize" => Hook::Concretize, "inksym_mode" => Hook::Mode, "inksym_file" => Hook::File,
        _ => {
            if n.contains("4core9panicking9panic_fmt17h") { Hook::PanicFmt }
            else if n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") { Hook::AllocError }
            else if n.contains("4core4hash11BuildHasher8hash_one17h") { Hook::HashOne }
            else { Hook::No }
        }
    }
}
