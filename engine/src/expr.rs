//! Hash-consed bit-vector expressions over symbolic bytes.
//!
//! Every symbolic input is a *byte* variable; wider inputs are concatenations. Widths go up to 128 bits.
//! Expression 0 is reserved ("not symbolic").
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, Lut,
}
pub type Id = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u8, pub a: u32, pub b: u32, pub c: u32 }

pub type Table = Rc<[u64; 256]>;
pub type Mask = [u64; 4];
pub const FULL: Mask = [!0; 4];

pub fn mask_has(m: &Mask, i: usize) -> bool { m[i >> 6] >> (i & 63) & 1 == 1 }
pub fn mask_count(m: &Mask) -> u32 { m.iter().map(|x| x.count_ones()).sum() }
pub fn mask_and(a: &Mask, b: &Mask) -> Mask { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn mask_andn(a: &Mask, b: &Mask) -> Mask { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
pub fn mask_empty(m: &Mask) -> bool { m.iter().all(|x| *x == 0) }
pub fn mask_first(m: &Mask) -> usize { for i in 0..4 { if m[i] != 0 { return i * 64 + m[i].trailing_zeros() as usize } } panic!("empty mask") }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u128, u8), Id>,
    map: FxMap<Node, Id>,
    pub luts: Vec<Table>,
    lutmap: FxMap<Vec<u64>, u32>,
    tables: FxMap<Id, Table>,
    masks: FxMap<Id, Mask>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
}

#[inline] pub fn m128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn m64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline] pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn apply(op: Op, w: u32, aw: u32, x: u128, y: u128) -> u128 {
    let m = m128(w);
    (match op {
        Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y),
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
        Op::SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
        Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { x << y },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = sx(x, w); (if y >= w as u128 { s >> (w - 1).min(127) } else { s >> y }) as u128 }
        Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, aw) < sx(y, aw)) as u128, Op::Sle => (sx(x, aw) <= sx(y, aw)) as u128,
        _ => unreachable!(),
    }) & m
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { nodes: vec![], vars: vec![], consts: vec![], cmap: Default::default(), map: Default::default(),
            luts: vec![], lutmap: Default::default(), tables: Default::default(), masks: Default::default(), stamp: vec![], memo: vec![], cur: 0 };
        a.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0 }, 0);
        a.consts.push(0);
        a
    }
    fn push(&mut self, n: Node, v: u128) -> Id {
        let id = self.nodes.len() as u32;
        self.nodes.push(n); self.vars.push(v); self.stamp.push(0); self.memo.push(0);
        id
    }
    #[inline] pub fn n(&self, i: Id) -> Node { self.nodes[i as usize] }
    #[inline] pub fn w(&self, i: Id) -> u32 { self.nodes[i as usize].w as u32 }
    pub fn konst(&mut self, v: u128, w: u32) -> Id {
        let v = v & m128(w);
        if let Some(&i) = self.cmap.get(&(v, w as u8)) { return i }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.push(Node { op: Op::Const, w: w as u8, a: ci, b: 0, c: 0 }, 0);
        self.cmap.insert((v, w as u8), id);
        id
    }
    #[inline] pub fn cv(&self, i: Id) -> Option<u128> { let n = self.n(i); if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None } }
    fn mk(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id) -> Id {
        let n = Node { op, w: w as u8, a, b, c };
        if let Some(&i) = self.map.get(&n) { return i }
        let v = match op {
            Op::Var => 1u128 << a,
            Op::Extract | Op::ZExt | Op::SExt => self.vars[a as usize],
            Op::Lut => 1u128 << a,
            Op::Ite => self.vars[a as usize] | self.vars[b as usize] | self.vars[c as usize],
            _ => self.vars[a as usize] | self.vars[b as usize],
        };
        let id = self.push(n, v);
        self.map.insert(n, id);
        id
    }
    pub fn var(&mut self, i: u32) -> Id { self.mk(Op::Var, 8, i, 0, 0) }
    pub fn lut(&mut self, var: u32, t: &[u64; 256], w: u32) -> Id {
        // constant?
        if t.iter().all(|x| *x == t[0]) { return self.konst(t[0] as u128, w) }
        if w == 8 && (0..256).all(|i| t[i] == i as u64) { return self.var(var) }
        let key = t.to_vec();
        let ti = if let Some(&i) = self.lutmap.get(&key) { i } else {
            let i = self.luts.len() as u32; self.luts.push(Rc::new(*t)); self.lutmap.insert(key, i); i };
        self.mk(Op::Lut, w, var, ti, 0)
    }
    pub fn not(&mut self, a: Id) -> Id { let o = self.konst(1, 1); self.bin(Op::Xor, a, o) }
    pub fn and(&mut self, a: Id, b: Id) -> Id { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: Id, b: Id) -> Id { self.bin(Op::Or, a, b) }
    pub fn eq(&mut self, a: Id, b: Id) -> Id { self.bin(Op::Eq, a, b) }

    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let n = self.n(a);
        let aw = n.w as u32;
        if lo == 0 && w == aw { return a }
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize] >> lo; return self.konst(v, w) }
            Op::Extract => return self.extract(n.a, lo + n.b, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w) }
                if lo >= lw { return self.extract(n.a, lo - lw, w) }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(0, w) }
                if lo + w <= iw { return self.extract(n.a, lo, w) }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w) } }
            Op::Ite => {
                let (b, c) = (n.b, n.c);
                if self.cv(b).is_some() || self.cv(c).is_some() {
                    let x = self.extract(b, lo, w); let y = self.extract(c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cv(n.b).is_some() { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y) }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                if self.cv(n.b).is_some() { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y) }
            }
            Op::LShr => {
                if let Some(k) = self.cv(n.b) { let k = k as u32; if lo + w + k <= aw { return self.extract(n.a, lo + k, w) } }
            }
            Op::Shl => {
                if let Some(k) = self.cv(n.b) { let k = k as u32; if k < aw { if lo >= k { return self.extract(n.a, lo - k, w) } if lo + w <= k { return self.konst(0, w) } } }
            }
            Op::Lut if w <= 64 => {
                let t = self.luts[n.b as usize].clone();
                let mut o = [0u64; 256]; for i in 0..256 { o[i] = (t[i] >> lo) & m64(w) }
                return self.lut(n.a, &o, w);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, lo, 0)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hn, ln) = (self.n(h), self.n(l));
        let w = hn.w as u32 + ln.w as u32;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { return self.konst((x << ln.w) | y, w) }
        if let Some(0) = self.cv(h) { return self.zext(l, w) }
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.b == ln.b + ln.w as u32 { return self.extract(hn.a, ln.b, w) }
        // extract(x,k..) ++ x-low where l is whole concat tail: (h ++ (m ++ l')) with h,m adjacent
        if ln.op == Op::Concat {
            let m = self.n(ln.a);
            if hn.op == Op::Extract && m.op == Op::Extract && hn.a == m.a && hn.b == m.b + m.w as u32 {
                let hm = self.extract(hn.a, m.b, hn.w as u32 + m.w as u32);
                return self.concat(hm, ln.b);
            }
            if let (Some(x), Some(y)) = (self.cv(h), self.cv(ln.a)) { let k = self.konst((x << m.w) | y, hn.w as u32 + m.w as u32); return self.concat(k, ln.b) }
        }
        // zero-extended: extract(zext) pieces are constants already
        if hn.op == Op::Ite && ln.op == Op::Ite && hn.a == ln.a {
            let x = self.concat(hn.b, ln.b); let y = self.concat(hn.c, ln.c);
            return self.ite(hn.a, x, y);
        }
        if ln.op == Op::ZExt { // keep
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n(a);
        if n.w as u32 == w { return a }
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.konst(v, w) }
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y) }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n(a);
        if n.w as u32 == w { return a }
        match n.op {
            Op::Const => { let v = sx(self.consts[n.a as usize], n.w as u32) as u128; return self.konst(v, w) }
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y) }
            _ => {}
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b { return a }
        if let Some(k) = self.cv(c) { return if k == 1 { a } else { b } }
        let w = self.w(a);
        let cn = self.n(c);
        if cn.op == Op::Xor && self.cv(cn.b) == Some(1) { return self.ite(cn.a, b, a) }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => { let nc = self.not(c); return self.and(nc, b) }
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.or(nc, a) }
                _ => {}
            }
        }
        let (an, bn) = (self.n(a), self.n(b));
        if an.op == Op::Ite && an.a == c { return self.ite(c, an.b, b) }
        if bn.op == Op::Ite && bn.a == c { return self.ite(c, a, bn.c) }
        self.mk(Op::Ite, w, c, a, b)
    }
    fn comm(op: Op) -> bool { matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) }
    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        let w = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { aw };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let v = apply(op, w, aw, x, y); return self.konst(v, w) }
        if Self::comm(op) && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b) }
        let kb = self.cv(b);
        let an = self.n(a);
        // ite(c,k1,k2) op k -> ite(c, k1 op k, k2 op k)
        if let Some(_) = kb {
            if an.op == Op::Ite && self.cv(an.b).is_some() && self.cv(an.c).is_some() {
                let x = self.bin(op, an.b, b); let y = self.bin(op, an.c, b);
                return self.ite(an.a, x, y);
            }
            if an.op == Op::Lut && w <= 64 && aw <= 64 {
                let t = self.luts[an.b as usize].clone(); let k = kb.unwrap();
                let mut o = [0u64; 256]; for i in 0..256 { o[i] = apply(op, w, aw, t[i] as u128, k) as u64 }
                return self.lut(an.a, &o, w);
            }
        }
        match op {
            Op::Add => {
                if kb == Some(0) { return a }
                if let Some(k) = kb { if an.op == Op::Add { if let Some(k2) = self.cv(an.b) { let s = self.konst(k.wrapping_add(k2), aw); return self.bin(Op::Add, an.a, s) } } }
            }
            Op::Sub => {
                if a == b { return self.konst(0, aw) }
                if let Some(k) = kb { let s = self.konst(k.wrapping_neg(), aw); return self.bin(Op::Add, a, s) }
            }
            Op::Mul => {
                if kb == Some(0) { return b }
                if kb == Some(1) { return a }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, aw); return self.bin(Op::Shl, a, s) } }
            }
            Op::UDiv => { if kb == Some(1) { return a }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, aw); return self.bin(Op::LShr, a, s) } } }
            Op::URem => { if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(k - 1, aw); return self.bin(Op::And, a, s) } } }
            Op::And => {
                if a == b { return a }
                if let Some(k) = kb {
                    if k == 0 { return b }
                    if k == m128(aw) { return a }
                    if an.op == Op::And { if let Some(k2) = self.cv(an.b) { let s = self.konst(k & k2, aw); return self.bin(Op::And, an.a, s) } }
                    if (k & (k + 1)) == 0 { let nb = 128 - k.leading_zeros(); let x = self.extract(a, 0, nb); return self.zext(x, aw) }
                    if an.op == Op::ZExt { let iw = self.w(an.a); let kk = self.konst(k, iw); let x = self.bin(Op::And, an.a, kk); return self.zext(x, aw) }
                }
                if aw == 1 { // x & !x
                    let bn = self.n(b);
                    if bn.op == Op::Xor && bn.a == a && self.cv(bn.b) == Some(1) { return self.konst(0, 1) }
                    if an.op == Op::Xor && an.a == b && self.cv(an.b) == Some(1) { return self.konst(0, 1) }
                }
            }
            Op::Or => {
                if a == b { return a }
                if let Some(k) = kb { if k == 0 { return a } if k == m128(aw) { return b } }
                if aw == 1 {
                    let bn = self.n(b);
                    if bn.op == Op::Xor && bn.a == a && self.cv(bn.b) == Some(1) { return self.konst(1, 1) }
                    if an.op == Op::Xor && an.a == b && self.cv(an.b) == Some(1) { return self.konst(1, 1) }
                } else if let Some(r) = self.or_concat(a, b) { return r } else if let Some(r) = self.or_concat(b, a) { return r }
            }
            Op::Xor => {
                if a == b { return self.konst(0, aw) }
                if let Some(k) = kb { if k == 0 { return a }
                    if an.op == Op::Xor { if let Some(k2) = self.cv(an.b) { let s = self.konst(k ^ k2, aw); return self.bin(Op::Xor, an.a, s) } }
                    if aw == 1 && k == 1 { // not
                        match an.op { Op::Ult => return self.bin(Op::Ule, an.b, an.a), Op::Ule => return self.bin(Op::Ult, an.b, an.a),
                            Op::Slt => return self.bin(Op::Sle, an.b, an.a), Op::Sle => return self.bin(Op::Slt, an.b, an.a), _ => {} }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) { return a }
                if let Some(k) = kb {
                    if k >= aw as u128 { if op != Op::AShr { return self.konst(0, aw) } }
                    else if op == Op::LShr { let x = self.extract(a, k as u32, aw - k as u32); return self.zext(x, aw) }
                    else if op == Op::Shl { let x = self.extract(a, 0, aw - k as u32); let z = self.konst(0, k as u32); return self.concat(x, z) }
                }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1) }
                if let Some(k) = kb {
                    if aw == 1 { return if k == 1 { a } else { self.not(a) } }
                    match an.op {
                        Op::ZExt => { let iw = self.w(an.a); if k > m128(iw) { return self.konst(0, 1) } let kk = self.konst(k, iw); return self.bin(Op::Eq, an.a, kk) }
                        Op::SExt => { let iw = self.w(an.a); let kt = k & m128(iw); if (sx(kt, iw) as u128) & m128(aw) != k { return self.konst(0, 1) } let kk = self.konst(kt, iw); return self.bin(Op::Eq, an.a, kk) }
                        Op::Concat => {
                            let lw = self.w(an.b); let hw = self.w(an.a);
                            let kl = self.konst(k, lw); let kh = self.konst(k >> lw, hw);
                            let x = self.bin(Op::Eq, an.a, kh); if self.cv(x) == Some(0) { return x }
                            let y = self.bin(Op::Eq, an.b, kl);
                            return self.and(x, y);
                        }
                        Op::Add => { if let Some(k2) = self.cv(an.b) { let kk = self.konst(k.wrapping_sub(k2), aw); return self.bin(Op::Eq, an.a, kk) } }
                        Op::Xor => { if let Some(k2) = self.cv(an.b) { let kk = self.konst(k ^ k2, aw); return self.bin(Op::Eq, an.a, kk) } }
                        Op::Ite => {
                            // one constant branch that differs
                            if let Some(k1) = self.cv(an.b) { if k1 != k { let nc = self.not(an.a); let e = self.bin(Op::Eq, an.c, b); return self.and(nc, e) } else { let e = self.bin(Op::Eq, an.c, b); return self.or(an.a, e) } }
                            if let Some(k2) = self.cv(an.c) { if k2 != k { let e = self.bin(Op::Eq, an.b, b); return self.and(an.a, e) } else { let nc = self.not(an.a); let e = self.bin(Op::Eq, an.b, b); return self.or(nc, e) } }
                        }
                        _ => {}
                    }
                } else {
                    let bn = self.n(b);
                    if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) { return self.bin(Op::Eq, an.a, bn.a) }
                    if an.op == Op::Concat && bn.op == Op::Concat && self.w(an.b) == self.w(bn.b) {
                        let x = self.bin(Op::Eq, an.a, bn.a); let y = self.bin(Op::Eq, an.b, bn.b);
                        return self.and(x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.konst((op == Op::Ule) as u128, 1) }
                if let Some(k) = kb {
                    if op == Op::Ult && k == 0 { return self.konst(0, 1) }
                    if op == Op::Ule && k == m128(aw) { return self.konst(1, 1) }
                    if an.op == Op::ZExt { let iw = self.w(an.a); if k > m128(iw) { return self.konst(1, 1) } let kk = self.konst(k, iw); return self.bin(op, an.a, kk) }
                }
                if let Some(k) = self.cv(a) {
                    let bn = self.n(b);
                    if op == Op::Ule && k == 0 { return self.konst(1, 1) }
                    if op == Op::Ult && k == m128(aw) { return self.konst(0, 1) }
                    if bn.op == Op::ZExt { let iw = self.w(bn.a); if k > m128(iw) { return self.konst(0, 1) } let kk = self.konst(k, iw); return self.bin(op, kk, bn.a) }
                    if bn.op == Op::Ite && self.cv(bn.b).is_some() && self.cv(bn.c).is_some() { let x = self.bin(op, a, bn.b); let y = self.bin(op, a, bn.c); return self.ite(bn.a, x, y) }
                    if bn.op == Op::Lut && aw <= 64 {
                        let t = self.luts[bn.b as usize].clone();
                        let mut o = [0u64; 256]; for i in 0..256 { o[i] = apply(op, w, aw, k, t[i] as u128) as u64 }
                        return self.lut(bn.a, &o, w);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.konst((op == Op::Sle) as u128, 1) }
                if let Some(k) = kb { if an.op == Op::ZExt {
                    // a is non-negative
                    if sx(k, aw) < 0 { return self.konst(0, 1) }
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                } }
                if let Some(k) = self.cv(a) { let bn = self.n(b); if bn.op == Op::ZExt {
                    if sx(k, aw) < 0 { return self.konst(1, 1) }
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                } }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0)
    }
    /// `a | b` where a = h ++ 0..0 and b = zext(l) with non-overlapping bits.
    fn or_concat(&mut self, a: Id, b: Id) -> Option<Id> {
        let (an, bn) = (self.n(a), self.n(b));
        if an.op == Op::Concat && self.cv(an.b) == Some(0) {
            let lw = self.w(an.b);
            if bn.op == Op::ZExt && self.w(bn.a) <= lw { let l = self.zext(bn.a, lw); return Some(self.concat(an.a, l)) }
            if let Some(k) = self.cv(b) { if k <= m128(lw) { let l = self.konst(k, lw); return Some(self.concat(an.a, l)) } }
        }
        // zext(x ++ 0) | zext(y)
        if an.op == Op::ZExt && (bn.op == Op::ZExt || self.cv(b).is_some()) {
            let inner = self.n(an.a);
            if inner.op == Op::Concat && self.cv(inner.b) == Some(0) {
                let lw = self.w(inner.b);
                let l = if bn.op == Op::ZExt { if self.w(bn.a) > lw { return None } self.zext(bn.a, lw) } else { let k = self.cv(b).unwrap(); if k > m128(lw) { return None } self.konst(k, lw) };
                let x = self.concat(inner.a, l);
                return Some(self.zext(x, an.w as u32));
            }
        }
        None
    }
    pub fn single_var(&self, e: Id) -> Option<u32> { let v = self.vars[e as usize]; if v != 0 && v & (v - 1) == 0 { Some(v.trailing_zeros()) } else { None } }
    /// Values of a single-variable expression (width <= 64) for all 256 values of that variable.
    pub fn table(&mut self, e: Id) -> Option<Table> {
        if let Some(t) = self.tables.get(&e) { return Some(t.clone()) }
        let n = self.n(e);
        if n.w > 64 { return None }
        let t: Table = match n.op {
            Op::Const => { let v = self.consts[n.a as usize] as u64; return Some(Rc::new([v; 256])) }
            Op::Var => { let mut t = [0u64; 256]; for i in 0..256 { t[i] = i as u64 } Rc::new(t) }
            Op::Lut => return Some(self.luts[n.b as usize].clone()),
            Op::Extract => { let x = self.table(n.a)?; let mut t = [0u64; 256]; for i in 0..256 { t[i] = (x[i] >> n.b) & m64(n.w as u32) } Rc::new(t) }
            Op::ZExt => return self.table(n.a),
            Op::SExt => { let x = self.table(n.a)?; let iw = self.w(n.a); let mut t = [0u64; 256]; for i in 0..256 { t[i] = (sx(x[i] as u128, iw) as u64) & m64(n.w as u32) } Rc::new(t) }
            Op::Concat => { let x = self.table(n.a)?; let y = self.table(n.b)?; let lw = self.w(n.b); let mut t = [0u64; 256]; for i in 0..256 { t[i] = (x[i] << lw) | y[i] } Rc::new(t) }
            Op::Ite => { let c = self.table(n.a)?; let x = self.table(n.b)?; let y = self.table(n.c)?; let mut t = [0u64; 256]; for i in 0..256 { t[i] = if c[i] != 0 { x[i] } else { y[i] } } Rc::new(t) }
            op => {
                let x = self.table(n.a)?; let y = self.table(n.b)?; let aw = self.w(n.a); let w = n.w as u32;
                let mut t = [0u64; 256];
                let m = m64(w);
                match op {
                    Op::Add => for i in 0..256 { t[i] = x[i].wrapping_add(y[i]) & m },
                    Op::And => for i in 0..256 { t[i] = x[i] & y[i] },
                    Op::Or => for i in 0..256 { t[i] = x[i] | y[i] },
                    Op::Xor => for i in 0..256 { t[i] = x[i] ^ y[i] },
                    Op::Eq => for i in 0..256 { t[i] = (x[i] == y[i]) as u64 },
                    Op::Ult => for i in 0..256 { t[i] = (x[i] < y[i]) as u64 },
                    Op::Ule => for i in 0..256 { t[i] = (x[i] <= y[i]) as u64 },
                    _ => for i in 0..256 { t[i] = apply(op, w, aw, x[i] as u128, y[i] as u128) as u64 },
                }
                Rc::new(t)
            }
        };
        self.tables.insert(e, t.clone());
        Some(t)
    }
    /// Truth mask of a 1-bit single-variable expression.
    pub fn mask(&mut self, e: Id) -> Option<(u32, Mask)> {
        let v = self.single_var(e)?;
        if let Some(m) = self.masks.get(&e) { return Some((v, *m)) }
        let t = self.table(e)?;
        let mut m = [0u64; 4];
        for i in 0..256 { if t[i] & 1 != 0 { m[i >> 6] |= 1 << (i & 63) } }
        self.masks.insert(e, m);
        Some((v, m))
    }
    pub fn begin_eval(&mut self) { self.cur = self.cur.wrapping_add(1); if self.cur == 0 { for s in self.stamp.iter_mut() { *s = 0 } self.cur = 1 } }
    pub fn eval(&mut self, e: Id, model: &[u8]) -> u128 { self.begin_eval(); self.ev(e, model) }
    fn ev(&mut self, e: Id, model: &[u8]) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return model[n.a as usize] as u128,
            Op::Lut => return self.luts[n.b as usize][model[n.a as usize] as usize] as u128,
            _ => {}
        }
        if self.stamp[e as usize] == self.cur { return self.memo[e as usize] }
        let r = match n.op {
            Op::Extract => (self.ev(n.a, model) >> n.b) & m128(n.w as u32),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => { let iw = self.w(n.a); (sx(self.ev(n.a, model), iw) as u128) & m128(n.w as u32) }
            Op::Concat => { let lw = self.w(n.b); (self.ev(n.a, model) << lw) | self.ev(n.b, model) }
            Op::Ite => if self.ev(n.a, model) != 0 { self.ev(n.b, model) } else { self.ev(n.c, model) },
            op => { let aw = self.w(n.a); let x = self.ev(n.a, model); let y = self.ev(n.b, model); apply(op, n.w as u32, aw, x, y) }
        };
        self.stamp[e as usize] = self.cur; self.memo[e as usize] = r;
        r
    }
}
