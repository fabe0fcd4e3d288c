//! z3 back end (C API). Queries are conjunctions of multi-variable constraints plus per-variable domains.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, t: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, _e: c_int) {}

pub struct Solver {
    ctx: P, solver: P, ast: Vec<P>, bv1: P, t1: P, f1: P,
    sorts: Vec<P>, uses: u32,
    cache: FxMap<u64, Vec<(Vec<u64>, Option<Vec<(u8, u8)>>)>>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub cache_hits: u64, pub max_ms: f64,
    pub dump_dir: Option<String>,
    pub rlimit: u32,
}
pub enum Res { Sat(Vec<(u8, u8)>), Unsat, Unknown }

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            // no Z3_mk_context_rc: ASTs live as long as the context, which suits the cache
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let bv1 = Z3_mk_bv_sort(ctx, 1);
            let t1 = Z3_mk_unsigned_int64(ctx, 1, bv1);
            let f1 = Z3_mk_unsigned_int64(ctx, 0, bv1);
            let mut s = Solver { ctx, solver: std::ptr::null_mut(), ast: vec![], bv1, t1, f1, sorts: vec![std::ptr::null_mut(); 129], uses: 0,
                cache: Default::default(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, cache_hits: 0, max_ms: 0.0, dump_dir: None, rlimit: 50_000_000 };
            s.fresh_solver();
            s
        }
    }
    fn fresh_solver(&mut self) {
        unsafe {
            if !self.solver.is_null() { Z3_solver_dec_ref(self.ctx, self.solver) }
            let _ = Z3_mk_simple_solver;
            let l = CString::new("QF_BV").unwrap();
            self.solver = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(self.ctx, self.solver, p);
            // push once so that the incremental core is used
            Z3_solver_push(self.ctx, self.solver);
            self.uses = 0;
        }
    }
    fn sort(&mut self, w: u32) -> P { if self.sorts[w as usize].is_null() { self.sorts[w as usize] = unsafe { Z3_mk_bv_sort(self.ctx, w) } } self.sorts[w as usize] }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe { if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, t.as_ptr(), s) } }
    }
    fn b(&self, cond: P) -> P { unsafe { Z3_mk_ite(self.ctx, cond, self.t1, self.f1) } }
    fn is1(&self, a: P) -> P { unsafe { Z3_mk_eq(self.ctx, a, self.t1) } }
    /// Translate; iterative over the DAG to keep the native stack small.
    pub fn tr(&mut self, ar: &Arena, e: Id) -> P {
        if self.ast.len() < ar.nodes.len() { self.ast.resize(ar.nodes.len(), std::ptr::null_mut()) }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.ast[x as usize].is_null() { st.pop(); continue }
            let n = ar.n(x);
            let all = [n.a, n.b, n.c];
            let kids: &[u32] = match n.op { Op::Const | Op::Var | Op::Lut => &all[..0], Op::Extract | Op::ZExt | Op::SExt => &all[..1], Op::Ite => &all[..], _ => &all[..2] };
            let mut ready = true;
            for &k in kids { if self.ast[k as usize].is_null() { st.push(k); ready = false } }
            if !ready { continue }
            let g = |i: u32| self.ast[i as usize];
            let c = self.ctx;
            let r = unsafe { match n.op {
                Op::Const => self.num(ar.consts[n.a as usize], n.w as u32),
                Op::Var => self.varp(n.a),
                Op::Lut => {
                    let t = ar.luts[n.b as usize].clone();
                    // group equal values; emit the most common one as the default
                    let mut groups: Vec<(u64, Mask, u32)> = vec![];
                    for i in 0..256 { match groups.iter_mut().find(|g| g.0 == t[i]) { Some(g) => { g.1[i >> 6] |= 1 << (i & 63); g.2 += 1 } None => { let mut m = [0u64; 4]; m[i >> 6] |= 1 << (i & 63); groups.push((t[i], m, 1)) } } }
                    groups.sort_by_key(|g| std::cmp::Reverse(g.2));
                    let mut r = self.num(groups[0].0 as u128, n.w as u32);
                    for gq in &groups[1..] { let cnd = self.inset(n.a, &gq.1); let v = self.num(gq.0 as u128, n.w as u32); r = Z3_mk_ite(c, cnd, v, r) }
                    r
                }
                Op::Add => Z3_mk_bvadd(c, g(n.a), g(n.b)), Op::Sub => Z3_mk_bvsub(c, g(n.a), g(n.b)), Op::Mul => Z3_mk_bvmul(c, g(n.a), g(n.b)),
                Op::UDiv => Z3_mk_bvudiv(c, g(n.a), g(n.b)), Op::SDiv => Z3_mk_bvsdiv(c, g(n.a), g(n.b)),
                Op::URem => Z3_mk_bvurem(c, g(n.a), g(n.b)), Op::SRem => Z3_mk_bvsrem(c, g(n.a), g(n.b)),
                Op::And => Z3_mk_bvand(c, g(n.a), g(n.b)), Op::Or => Z3_mk_bvor(c, g(n.a), g(n.b)), Op::Xor => Z3_mk_bvxor(c, g(n.a), g(n.b)),
                Op::Shl => Z3_mk_bvshl(c, g(n.a), g(n.b)), Op::LShr => Z3_mk_bvlshr(c, g(n.a), g(n.b)), Op::AShr => Z3_mk_bvashr(c, g(n.a), g(n.b)),
                Op::Eq => self.b(Z3_mk_eq(c, g(n.a), g(n.b))),
                Op::Ult => self.b(Z3_mk_bvult(c, g(n.a), g(n.b))), Op::Ule => self.b(Z3_mk_bvule(c, g(n.a), g(n.b))),
                Op::Slt => self.b(Z3_mk_bvslt(c, g(n.a), g(n.b))), Op::Sle => self.b(Z3_mk_bvsle(c, g(n.a), g(n.b))),
                Op::Ite => Z3_mk_ite(c, self.is1(g(n.a)), g(n.b), g(n.c)),
                Op::Concat => Z3_mk_concat(c, g(n.a), g(n.b)),
                Op::Extract => Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, g(n.a)),
                Op::ZExt => Z3_mk_zero_ext(c, n.w as u32 - ar.w(n.a), g(n.a)),
                Op::SExt => Z3_mk_sign_ext(c, n.w as u32 - ar.w(n.a), g(n.a)),
            } };
            if r.is_null() { panic!("z3 translation error {} op {:?}", unsafe { Z3_get_error_code(self.ctx) }, n.op) }
            self.ast[x as usize] = r;
            st.pop();
        }
        self.ast[e as usize]
    }
    fn varp(&mut self, i: u32) -> P { let s = self.sort(8); let nm = CString::new(format!("b{}", i)).unwrap(); unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, nm.as_ptr()), s) } }
    /// Boolean: variable `v` lies in `m`.
    fn inset(&mut self, v: u32, m: &Mask) -> P {
        let x = self.varp(v);
        let mut parts = vec![];
        let mut i = 0usize;
        while i < 256 {
            if !mask_has(m, i) { i += 1; continue }
            let lo = i; while i < 256 && mask_has(m, i) { i += 1 }
            let hi = i - 1;
            unsafe {
                let l = self.num(lo as u128, 8); let h = self.num(hi as u128, 8);
                parts.push(if lo == hi { Z3_mk_eq(self.ctx, x, l) } else { let a = [Z3_mk_bvule(self.ctx, l, x), Z3_mk_bvule(self.ctx, x, h)]; Z3_mk_and(self.ctx, 2, a.as_ptr()) });
            }
        }
        unsafe { Z3_mk_or(self.ctx, parts.len() as u32, parts.as_ptr()) }
    }
    /// Is the conjunction of `cons` satisfiable with each variable in its domain? `vars` = variables involved.
    pub fn check(&mut self, ar: &Arena, cons: &mut Vec<Id>, vars: u128, dom: &[Mask]) -> Res {
        cons.sort(); cons.dedup();
        let mut key: Vec<u64> = cons.iter().map(|x| *x as u64).collect();
        let mut v = vars;
        while v != 0 { let i = v.trailing_zeros() as usize; v &= v - 1; key.push(0x1_0000_0000 + i as u64); key.extend_from_slice(&dom[i]) }
        let mut h = 0u64; for k in &key { h = (h.rotate_left(5) ^ k).wrapping_mul(0x517cc1b727220a95) }
        if let Some(l) = self.cache.get(&h) { for (k, r) in l { if *k == key { self.cache_hits += 1; return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat } } } }
        let t0 = Instant::now();
        self.queries += 1; self.uses += 1;
        if self.uses > 2000 { self.fresh_solver() }
        let r = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for &e in cons.iter() { let a = self.tr(ar, e); let a = self.is1(a); Z3_solver_assert(self.ctx, self.solver, a) }
            let mut v = vars;
            while v != 0 { let i = v.trailing_zeros(); v &= v - 1; if dom[i as usize] != FULL { let a = self.inset(i, &dom[i as usize]); Z3_solver_assert(self.ctx, self.solver, a) } }
            let r = Z3_solver_check(self.ctx, self.solver);
            if let Some(d) = &self.dump_dir {
                let s = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), self.queries), format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", match r { 1 => "sat", -1 => "unsat", _ => "unknown" }, s));
            }
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    let mut v = vars;
                    while v != 0 {
                        let i = v.trailing_zeros(); v &= v - 1;
                        let x = self.varp(i);
                        let mut o: P = std::ptr::null_mut(); let mut val = 0u64;
                        if !Z3_model_eval(self.ctx, m, x, true, &mut o) || !Z3_get_numeral_uint64(self.ctx, o, &mut val) { panic!("z3 model eval failed") }
                        out.push((i as u8, val as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            res
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt; if dt * 1000.0 > self.max_ms { self.max_ms = dt * 1000.0 }
        match &r {
            Res::Sat(m) => { self.sat += 1; self.cache.entry(h).or_default().push((key, Some(m.clone()))) }
            Res::Unsat => { self.unsat += 1; self.cache.entry(h).or_default().push((key, None)) }
            Res::Unknown => self.unknown += 1,
        }
        r
    }
}
