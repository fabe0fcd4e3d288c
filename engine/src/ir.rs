//! Parser for textual LLVM IR (LLVM 18, opaque pointers) and lowering to a flat register code.
//!
//! First-class values are flattened into "slots" of at most 64 bits: aggregates and vectors become one slot per
//! scalar leaf, integers wider than 64 bits become two slots. Functions are lowered lazily.
use crate::expr::{m64, FxMap, Op};
use std::cell::{OnceCell, RefCell};
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Struct(Vec<TyId>, bool), Array(u64, TyId), Vector(u32, TyId), Label, Meta, Opaque }
#[derive(Clone, Copy, Debug)]
pub struct Slot { pub off: u32, pub w: u32, pub bytes: u32 }

pub const GLOBAL_BASE: u64 = 0x0010_0000;
pub const FN_BASE: u64 = 0x7000_0000;
pub const HEAP_BASE: u64 = 0x1_0000_0000;
pub const STACK_BASE: u64 = 0x8_0000_0000;
pub const STACK_SIZE: u64 = 256 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cmp { Eq, Ne, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Memcpy, Memmove, Memset, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UMax, UMin, SMax, SMin, UAddSat, USubSat, SAddSat, SSubSat,
    Cttz, Ctlz, Ctpop, Bswap, Bitreverse, Fshl, Fshr, Abs, Trap, LoadRelative, Expect, ReduceAdd, ReduceOr, ReduceAnd, ReduceMax, Pshufb, Cpuid, IsConstant, Pmovmskb, FunaryCeil, FunaryFloor, FunaryTrunc, FunaryFabs,
}

#[derive(Clone, Copy, Debug)]
pub enum I {
    Bin(Op, u8, i32, i32, i32),
    Icmp(Cmp, u8, i32, i32, i32),
    Zext(u8, u8, i32, i32),
    Sext(u8, u8, i32, i32),
    Trunc(u8, i32, i32),
    Copy(i32, i32),
    Select(u8, i32, i32, i32, i32),
    Load { dst: i32, p: i32, off: u32, w: u8, bytes: u8 },
    Store { v: i32, p: i32, off: u32, w: u8, bytes: u8 },
    GepC { dst: i32, base: i32, off: i64 },
    GepI { dst: i32, base: i32, idx: i32, scale: i64, iw: u8 },
    Alloca { dst: i32, off: u32 },
    Jmp(u32),
    CondBr(i32, u32, u32),
    Switch(i32, u32),
    Ret(i32, u32), // pool start, n
    Unreachable,
    Call { callee: i32, fid: u32, args: u32, nargs: u16, dst: i32, nret: u16, edge: u32 },
    Intr { k: Intr, w: u8, dst: i32, args: u32, nargs: u16 },
    AtomicRmw { op: u8, w: u8, dst: i32, p: i32, v: i32 },
    CmpXchg { w: u8, dst: i32, p: i32, c: i32, n: i32 },
    Bitcast { dst: i32, dn: u16, dw: u8, src: u32, sn: u16, sw: u8 }, // src = pool start
    WBin(Op, u8, i32, u32),  // dst, pool start: alo,ahi,blo,bhi
    WIcmp(Cmp, u8, i32, u32),
    WExt { signed: bool, fw: u8, tw: u8, dst: i32, a: i32 }, // from <=64 to >64
    WTrunc { tw: u8, dst: i32, lo: i32, hi: i32 },
    FBin(FOp, bool, i32, i32, i32), // is64
    FCmp(u8, bool, i32, i32, i32),
    FNeg(bool, i32, i32),
    FCast { k: u8, fw: u8, tw: u8, dst: i32, a: i32 },
    ExtractDyn { dst: i32, idx: i32, v: u32, n: u16 },
    InsertDyn { dst: i32, idx: i32, e: i32, v: u32, n: u16 },
    Unsupported(u32),
}
pub const NO_EDGE: u32 = u32::MAX;
pub const NO_FN: u32 = u32::MAX;

pub struct Edge { pub pc: u32, pub copies: Vec<(i32, i32)>, pub conflict: bool }
pub struct SwitchT { pub w: u8, pub cases: FxMap<u64, u32>, pub default: u32 }
pub struct Func {
    pub id: u32, pub code: Vec<I>, pub edges: Vec<Edge>, pub switches: Vec<SwitchT>, pub consts: Vec<u64>, pub pool: Vec<i32>,
    pub nregs: u32, pub nparams: u32, pub frame: u32, pub msgs: Vec<String>,
}
pub struct FnDecl { pub name: String, pub header: usize, pub body: usize, pub addr: u64, pub code: OnceCell<Box<Func>> }

pub enum Sym { Global(u32), Func(u32), Alias(String), Null }
pub struct Global { pub name: String, pub ty: TyId, pub init: usize, pub addr: u64, pub align: u64, pub has_init: bool }

pub struct Module {
    pub src: &'static [u8],
    pub tys: RefCell<Vec<(Ty, u64, u64)>>, // ty, size, align
    tymap: RefCell<FxMap<Ty, TyId>>,
    slots: RefCell<FxMap<TyId, Rc<Vec<Slot>>>>,
    named: RefCell<FxMap<String, (usize, Option<TyId>)>>,
    pub syms: FxMap<String, Sym>,
    pub globals: Vec<Global>,
    pub funcs: Vec<FnDecl>,
    pub global_end: u64,
}

pub struct Cur<'a> { s: &'a [u8], i: usize }
fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Cur<'a> {
    fn new(s: &'a [u8], i: usize) -> Self { Cur { s, i } }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1 }
            if self.i < self.s.len() && self.s[self.i] == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1 } } else { break }
        }
    }
    fn sp(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') { self.i += 1 } }
    fn peek(&self) -> u8 { if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool { let at = self.i; self.ws(); if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { self.i = at; false } }
    fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at: {}", t, self.ctx()) } }
    fn ctx(&self) -> String { let a = self.i.saturating_sub(100); let e = (self.i + 100).min(self.s.len()); format!("{}<<HERE>>{}", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..e])) }
    /// keyword: whole word match
    fn kw(&mut self, t: &str) -> bool {
        let at = self.i; self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) && !(self.i + t.len() < self.s.len() && isid(self.s[self.i + t.len()])) { self.i += t.len(); true } else { self.i = at; false }
    }
    fn peek_word(&mut self) -> &'a str { self.ws(); let st = self.i; let mut j = st; while j < self.s.len() && isid(self.s[j]) { j += 1 } std::str::from_utf8(&self.s[st..j]).unwrap() }
    fn word(&mut self) -> &'a str { let w = self.peek_word(); self.i += w.len(); w }
    fn name(&mut self) -> String { // after % or @
        if self.peek() == b'"' {
            self.i += 1; let st = self.i; while self.s[self.i] != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned(); self.i += 1; r
        } else { let st = self.i; while self.i < self.s.len() && isid(self.s[self.i]) { self.i += 1 } String::from_utf8_lossy(&self.s[st..self.i]).into_owned() }
    }
    fn balanced(&mut self) { // at '('
        let mut d = 0; let mut q = false;
        loop { let c = self.s[self.i]; self.i += 1; if c == b'"' { q = !q } if q { continue } if c == b'(' { d += 1 } if c == b')' { d -= 1; if d == 0 { break } } }
    }
    fn int(&mut self) -> i128 { self.ws(); let neg = self.peek() == b'-'; if neg { self.i += 1 } let mut v: u128 = 0; while self.peek().is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.peek() - b'0') as u128); self.i += 1 } if neg { (v as i128).wrapping_neg() } else { v as i128 } }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let data = std::fs::read(path).expect("read ll");
        let src: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mut m = Module { src, tys: RefCell::new(vec![]), tymap: Default::default(), slots: Default::default(), named: Default::default(), syms: Default::default(), globals: vec![], funcs: vec![], global_end: 0 };
        let mut i = 0;
        let mut glines = vec![];
        while i < src.len() {
            let e = memchr(b'\n', src, i);
            match src[i] {
                b'%' => { let mut c = Cur::new(src, i + 1); let n = c.name(); c.expect("="); c.expect("type"); let at = c.i; m.named.borrow_mut().insert(n, (at, None)); }
                b'@' => glines.push(i),
                b'd' => {
                    let def = src[i..].starts_with(b"define ");
                    if def || src[i..].starts_with(b"declare ") {
                        // name: first '@' outside quotes/parens on the line
                        let mut c = Cur::new(src, i); while c.s[c.i] != b'@' { c.i += 1 } c.i += 1;
                        let n = c.name();
                        let id = m.funcs.len() as u32;
                        let addr = FN_BASE + id as u64 * 16;
                        let mut body = 0;
                        if def { body = e + 1; i = e; // skip to closing "}"
                            loop { let ne = memchr(b'\n', src, i + 1); if src[i + 1] == b'}' { i = ne; break } i = ne } }
                        m.syms.insert(n.clone(), Sym::Func(id));
                        m.funcs.push(FnDecl { name: n, header: c.i, body, addr, code: OnceCell::new() });
                        // keep the start so that the return type can be found
                        if def { i += 1; continue }
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        // globals
        for g in glines {
            let mut c = Cur::new(src, g + 1);
            let n = c.name(); c.expect("=");
            let mut ext = false; let mut weak = false;
            loop {
                let w = c.word();
                match w { "external" => ext = true, "extern_weak" => { ext = true; weak = true }, "global" | "constant" => break,
                    "alias" => { let _ = m.ty(&mut c); c.ws(); if c.peek() == b'(' { let mut d = 0; loop { match c.peek() { b'(' => d += 1, b')' => d -= 1, _ => {} } c.i += 1; if d == 0 { break } } } c.expect(","); let _ = m.ty(&mut c); c.ws(); assert_eq!(c.peek(), b'@'); c.i += 1; let t = c.name(); m.syms.insert(n.clone(), Sym::Alias(t)); break }
                    "" => panic!("global {} at {}", n, c.ctx()), _ => { if c.peek() == b'(' { c.balanced() } } }
            }
            if let Some(Sym::Alias(_)) = m.syms.get(&n) { continue }
            let ty = m.ty(&mut c);
            if weak { m.syms.insert(n, Sym::Null); continue }
            let init = c.i;
            let al = m.align(ty).max(8);
            // explicit alignment
            let e = memchr(b'\n', src, init);
            let line = &src[init..e];
            let mut al2 = al;
            if let Some(p) = find(line, b", align ") { let mut cc = Cur::new(src, init + p + 8); al2 = al.max(cc.int() as u64) }
            m.syms.insert(n.clone(), Sym::Global(m.globals.len() as u32));
            m.globals.push(Global { name: n, ty, init, addr: 0, align: al2, has_init: !ext });
        }
        let mut a = GLOBAL_BASE;
        for k in 0..m.globals.len() {
            let g = &m.globals[k];
            a = (a + g.align - 1) / g.align * g.align;
            let sz = m.size(g.ty).max(1);
            m.globals[k].addr = a;
            a += sz + 8;
        }
        assert!(a < FN_BASE);
        m.global_end = a;
        m
    }
    pub fn intern(&self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.borrow().get(&t) { return i }
        let (size, align) = match &t {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = if b > 8 { 16 } else { b.next_power_of_two() }; ((b + a - 1) / a * a, a) }
            Ty::Ptr | Ty::F64 => (8, 8), Ty::F32 => (4, 4),
            Ty::Struct(f, packed) => { let mut o = 0; let mut al = 1; for &x in f { let a = if *packed { 1 } else { self.align(x) }; o = (o + a - 1) / a * a; o += self.size(x); al = al.max(a) } ((o + al - 1) / al * al, al) }
            Ty::Array(n, e) => (n * self.size(*e), self.align(*e)),
            Ty::Vector(n, e) => { let b = match self.get(*e) { Ty::Int(w) => (*n as u64 * w as u64 + 7) / 8, _ => *n as u64 * self.size(*e) }; let b = b.next_power_of_two(); (b, b) }
            _ => (0, 1),
        };
        let mut v = self.tys.borrow_mut();
        let id = v.len() as u32; v.push((t.clone(), size, align)); drop(v);
        self.tymap.borrow_mut().insert(t, id);
        id
    }
    pub fn get(&self, t: TyId) -> Ty { self.tys.borrow()[t as usize].0.clone() }
    pub fn size(&self, t: TyId) -> u64 { self.tys.borrow()[t as usize].1 }
    pub fn align(&self, t: TyId) -> u64 { self.tys.borrow()[t as usize].2 }
    pub fn field_off(&self, f: &[TyId], packed: bool, k: usize) -> u64 { let mut o = 0; for (i, &x) in f.iter().enumerate() { let a = if packed { 1 } else { self.align(x) }; o = (o + a - 1) / a * a; if i == k { return o } o += self.size(x) } o }
    pub fn slots(&self, t: TyId) -> Rc<Vec<Slot>> {
        if let Some(s) = self.slots.borrow().get(&t) { return s.clone() }
        let mut v = vec![];
        self.flat(t, 0, &mut v);
        let r = Rc::new(v);
        self.slots.borrow_mut().insert(t, r.clone());
        r
    }
    fn flat(&self, t: TyId, off: u64, v: &mut Vec<Slot>) {
        match self.get(t) {
            Ty::Int(w) => { let mut r = w; let mut o = off as u32; while r > 64 { v.push(Slot { off: o, w: 64, bytes: 8 }); r -= 64; o += 8 } v.push(Slot { off: o, w: r, bytes: (r + 7) / 8 }) }
            Ty::Ptr | Ty::F64 => v.push(Slot { off: off as u32, w: 64, bytes: 8 }),
            Ty::F32 => v.push(Slot { off: off as u32, w: 32, bytes: 4 }),
            Ty::Struct(f, p) => for k in 0..f.len() { self.flat(f[k], off + self.field_off(&f, p, k), v) },
            Ty::Array(n, e) => { let s = self.size(e); if n > 4096 { panic!("huge first-class array") } for k in 0..n { self.flat(e, off + k * s, v) } }
            Ty::Vector(n, e) => { let s = self.size(e); for k in 0..n as u64 { self.flat(e, off + k * s, v) } }
            _ => {}
        }
    }
    fn ty(&self, c: &mut Cur) -> TyId {
        c.ws();
        match c.peek() {
            b'{' => { c.i += 1; let f = self.tylist(c, "}"); self.intern(Ty::Struct(f, false)) }
            b'<' => { c.i += 1; c.ws(); if c.peek() == b'{' { c.i += 1; let f = self.tylist(c, "}"); c.expect(">"); self.intern(Ty::Struct(f, true)) } else { let n = c.int(); c.expect("x"); let e = self.ty(c); c.expect(">"); self.intern(Ty::Vector(n as u32, e)) } }
            b'[' => { c.i += 1; let n = c.int(); c.expect("x"); let e = self.ty(c); c.expect("]"); self.intern(Ty::Array(n as u64, e)) }
            b'%' => {
                c.i += 1; let n = c.name();
                let (at, id) = *self.named.borrow().get(&n).unwrap_or_else(|| panic!("type {}", n));
                if let Some(i) = id { return i }
                let mut cc = Cur::new(self.src, at);
                let i = if cc.kw("opaque") { self.intern(Ty::Opaque) } else { self.ty(&mut cc) };
                self.named.borrow_mut().get_mut(&n).unwrap().1 = Some(i);
                i
            }
            _ => {
                let w = c.word();
                match w {
                    "ptr" => self.intern(Ty::Ptr), "void" => self.intern(Ty::Void), "float" => self.intern(Ty::F32), "double" => self.intern(Ty::F64),
                    "label" => self.intern(Ty::Label), "metadata" => self.intern(Ty::Meta),
                    _ if w.starts_with('i') && w.len() > 1 => self.intern(Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} at {}", w, c.ctx())))),
                    _ => panic!("type {:?} at {}", w, c.ctx()),
                }
            }
        }
    }
    fn tylist(&self, c: &mut Cur, end: &str) -> Vec<TyId> { let mut v = vec![]; if c.eat(end) { return v } loop { v.push(self.ty(c)); if c.eat(end) { return v } c.expect(",") } }
    pub fn sym_addr(&self, n: &str) -> u64 {
        match self.syms.get(n) { Some(Sym::Global(i)) => self.globals[*i as usize].addr, Some(Sym::Func(i)) => self.funcs[*i as usize].addr, Some(Sym::Alias(t)) => self.sym_addr(t), Some(Sym::Null) => 0, None => panic!("symbol {}", n) }
    }
    pub fn fn_id(&self, n: &str) -> Option<u32> { match self.syms.get(n) { Some(Sym::Func(i)) => Some(*i), Some(Sym::Alias(t)) => self.fn_id(t), _ => None } }
    /// scalar constant expressions -> u64
    fn cexpr(&self, c: &mut Cur) -> Option<u64> {
        c.ws();
        if c.peek() == b'@' { c.i += 1; let n = c.name(); return Some(self.sym_addr(&n)) }
        let save = c.i;
        let w = c.word();
        let r = match w {
            "getelementptr" => {
                while !c.eat("(") { c.word(); }
                let t = self.ty(c); c.expect(","); let _ = self.ty(c); let base = self.cexpr(c)?;
                let mut off = 0i64; let mut cur = t; let mut first = true;
                while c.eat(",") { let _ = c.kw("inrange"); let _ = self.ty(c); let k = c.int() as i64;
                    if first { off += k * self.size(cur) as i64; first = false } else { match self.get(cur) { Ty::Struct(f, p) => { off += self.field_off(&f, p, k as usize) as i64; cur = f[k as usize] } Ty::Array(_, e) | Ty::Vector(_, e) => { off += k * self.size(e) as i64; cur = e } _ => panic!() } } }
                c.expect(")");
                base.wrapping_add(off as u64)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "zext" => { c.expect("("); let _ = self.ty(c); let v = self.cexpr(c)?; c.expect("to"); let _ = self.ty(c); c.expect(")"); v }
            "trunc" => { c.expect("("); let _ = self.ty(c); let v = self.cexpr(c)?; c.expect("to"); let t = self.ty(c); c.expect(")"); if let Ty::Int(w) = self.get(t) { v & m64(w) } else { v } }
            "sub" | "add" | "mul" | "and" | "or" | "xor" | "shl" => { loop { if c.eat("(") { break } c.word(); } let t = self.ty(c); let a = self.cexpr(c)?; c.expect(","); let _ = self.ty(c); let b = self.cexpr(c)?; c.expect(")");
                let v = match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), "and" => a & b, "or" => a | b, "xor" => a ^ b, _ => a << b }; if let Ty::Int(w) = self.get(t) { v & m64(w) } else { v } }
            "icmp" => { let pr = c.word(); c.expect("("); let _ = self.ty(c); let a = self.cexpr(c)?; c.expect(","); let _ = self.ty(c); let b = self.cexpr(c)?; c.expect(")"); (match pr { "eq" => a == b, "ne" => a != b, "ult" => a < b, "ugt" => a > b, "ule" => a <= b, "uge" => a >= b, _ => panic!("const icmp {}", pr) }) as u64 }
            "null" | "undef" | "poison" | "false" | "none" => 0, "true" => 1,
            "zeroinitializer" => 0,
            "" => { if c.peek() == b'-' || c.peek().is_ascii_digit() { c.int() as u64 } else { c.i = save; return None } }
            _ => { c.i = save; if c.peek() == b'-' || c.peek().is_ascii_digit() { c.int() as u64 } else { return None } }
        };
        Some(r)
    }
    /// Parse a constant of type `t` into memory bytes at `buf[off..]`.
    pub fn init(&self, c: &mut Cur, t: TyId, off: usize, buf: &mut [u8]) {
        c.ws();
        match self.get(t) {
            Ty::Struct(f, p) => {
                if c.kw("zeroinitializer") || c.kw("undef") || c.kw("poison") { return }
                if p { c.expect("<"); } c.expect("{");
                for k in 0..f.len() { if k > 0 { c.expect(",") } let _ = self.ty(c); self.init(c, f[k], off + self.field_off(&f, p, k) as usize, buf) }
                c.expect("}"); if p { c.expect(">") }
            }
            Ty::Array(n, e) => {
                if c.kw("zeroinitializer") || c.kw("undef") || c.kw("poison") { return }
                if c.eat("c\"") {
                    for k in 0..n as usize { let b = c.s[c.i]; if b == b'\\' { if c.s[c.i + 1] == b'\\' { buf[off + k] = b'\\'; c.i += 2 } else { let h = |x: u8| (x as char).to_digit(16).unwrap() as u8; buf[off + k] = h(c.s[c.i + 1]) * 16 + h(c.s[c.i + 2]); c.i += 3 } } else { buf[off + k] = b; c.i += 1 } }
                    c.expect("\"");
                    return;
                }
                c.expect("[");
                let s = self.size(e) as usize;
                for k in 0..n as usize { if k > 0 { c.expect(",") } let _ = self.ty(c); self.init(c, e, off + k * s, buf) }
                c.expect("]");
            }
            Ty::Vector(n, e) => {
                if c.kw("zeroinitializer") || c.kw("undef") || c.kw("poison") { return }
                c.expect("<"); let s = self.size(e) as usize;
                for k in 0..n as usize { if k > 0 { c.expect(",") } let _ = self.ty(c); self.init(c, e, off + k * s, buf) }
                c.expect(">");
            }
            Ty::Int(w) if w > 64 => { let v = if c.kw("undef") || c.kw("zeroinitializer") { 0 } else { c.int() as u128 }; let n = ((w + 7) / 8) as usize; buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]) }
            Ty::F64 => { let v = self.fconst(c); buf[off..off + 8].copy_from_slice(&v.to_le_bytes()) }
            Ty::F32 => { let v = (f64::from_bits(self.fconst(c)) as f32).to_bits(); buf[off..off + 4].copy_from_slice(&v.to_le_bytes()) }
            _ => { let n = self.size(t) as usize; let v = self.cexpr(c).unwrap_or_else(|| panic!("const at {}", c.ctx())); buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]) }
        }
    }
    fn fconst(&self, c: &mut Cur) -> u64 {
        c.ws();
        if c.kw("undef") || c.kw("poison") || c.kw("zeroinitializer") { return 0 }
        let st = c.i; while isid(c.peek()) || c.peek() == b'+' { c.i += 1 }
        let t = std::str::from_utf8(&c.s[st..c.i]).unwrap();
        if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { t.parse::<f64>().unwrap().to_bits() }
    }
    pub fn global_bytes(&self, g: &Global) -> Vec<u8> {
        let mut buf = vec![0u8; self.size(g.ty) as usize];
        if g.has_init { let mut c = Cur::new(self.src, g.init); self.init(&mut c, g.ty, 0, &mut buf) }
        buf
    }
    pub fn func(&self, id: u32) -> &Func {
        let d = &self.funcs[id as usize];
        d.code.get_or_init(|| Box::new(Lower::run(self, id)))
    }
}
fn memchr(b: u8, s: &[u8], i: usize) -> usize { match s[i..].iter().position(|x| *x == b) { Some(p) => i + p, None => s.len() } }
fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }

struct Phi { dst: Vec<i32>, inc: Vec<(Vec<i32>, u32)> }
struct Lower<'a> {
    m: &'a Module, names: FxMap<String, (i32, u32)>, f: Func, cmap: FxMap<u64, i32>, next: i32,
    labels: FxMap<String, u32>, lab_pc: Vec<Option<u32>>, phis: Vec<Vec<Phi>>, edge_src: Vec<(u32, u32)>, // (from label, to label)
    emap: FxMap<(u32, u32), u32>,
}
impl<'a> Lower<'a> {
    fn run(m: &Module, id: u32) -> Func {
        let d = &m.funcs[id as usize];
        assert!(d.body != 0, "no body for {}", d.name);
        let f = Func { id, code: vec![], edges: vec![], switches: vec![], consts: vec![], pool: vec![], nregs: 0, nparams: 0, frame: 0, msgs: vec![] };
        let mut l = Lower { m, names: Default::default(), f, cmap: Default::default(), next: 0, labels: Default::default(), lab_pc: vec![], phis: vec![], edge_src: vec![], emap: Default::default() };
        // parameters
        let mut c = Cur::new(m.src, d.header);
        c.expect("(");
        let mut unnamed = 0;
        if !c.eat(")") { loop {
            if c.eat("...") { c.expect(")"); break }
            let t = m.ty(&mut c);
            loop { c.ws(); let p = c.peek(); if p == b'%' || p == b',' || p == b')' { break } l.attr(&mut c) }
            let n = if c.peek() == b'%' { c.i += 1; c.name() } else { unnamed.to_string() };
            if n.as_bytes()[0].is_ascii_digit() { unnamed += 1 }
            let k = m.slots(t).len() as u32;
            l.slot(&n, k);
            if c.eat(")") { break } c.expect(",");
        } }
        l.f.nparams = l.next as u32;
        let mut c = Cur::new(m.src, d.body);
        c.ws();
        // entry label
        let mut cur;
        { let save = c.i; let isl = l.try_label(&mut c); c.i = save; if isl.is_none() { cur = l.label(&unnamed.to_string()); l.lab_pc[cur as usize] = Some(0) } else { cur = 0 } }
        loop {
            c.ws();
            if c.peek() == b'}' { break }
            if let Some(n) = l.try_label(&mut c) { cur = l.label(&n); l.lab_pc[cur as usize] = Some(l.f.code.len() as u32); continue }
            l.inst(&mut c, cur);
        }
        // edges
        for k in 0..l.edge_src.len() {
            let (from, to) = l.edge_src[k];
            let mut copies = vec![];
            for p in &l.phis[to as usize] {
                let s = p.inc.iter().find(|x| x.1 == from).unwrap_or_else(|| panic!("phi without incoming in {}", m.funcs[id as usize].name));
                for j in 0..p.dst.len() { if p.dst[j] != s.0[j] { copies.push((p.dst[j], s.0[j])) } }
            }
            let mut conflict = false;
            for (i, (_, s)) in copies.iter().enumerate() { for (d2, _) in copies[..i].iter() { if d2 == s { conflict = true } } }
            l.f.edges.push(Edge { pc: l.lab_pc[to as usize].unwrap(), copies, conflict });
        }
        l.f.nregs = l.next as u32;
        l.f
    }
    fn attr(&mut self, c: &mut Cur) {
        c.ws();
        let w = c.word();
        if w.is_empty() { if c.peek() == b'"' { c.i += 1; while c.peek() != b'"' { c.i += 1 } c.i += 1; return } if c.peek() == b'#' { c.i += 1; c.word(); return } panic!("attr at {}", c.ctx()) }
        if w == "align" && { c.sp(); c.peek() != b'(' } { c.int(); return }
        if c.peek() == b'(' { c.balanced() }
    }
    fn slot(&mut self, n: &str, k: u32) -> i32 {
        if let Some(&(b, kk)) = self.names.get(n) { assert_eq!(kk, k, "slot count of {}", n); return b }
        let b = self.next; self.next += k as i32;
        self.names.insert(n.to_string(), (b, k));
        b
    }
    fn k(&mut self, v: u64) -> i32 {
        if let Some(&i) = self.cmap.get(&v) { return i }
        let i = !(self.f.consts.len() as i32); self.f.consts.push(v); self.cmap.insert(v, i); i
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.labels.get(n) { return i }
        let i = self.labels.len() as u32; self.labels.insert(n.to_string(), i); self.lab_pc.push(None); self.phis.push(vec![]); i
    }
    fn edge(&mut self, from: u32, to: &str) -> u32 {
        let t = self.label(to);
        if let Some(&e) = self.emap.get(&(from, t)) { return e }
        let e = self.edge_src.len() as u32; self.edge_src.push((from, t)); self.emap.insert((from, t), e); e
    }
    fn try_label(&mut self, c: &mut Cur) -> Option<String> {
        let save = c.i;
        let n = c.name();
        if !n.is_empty() && c.peek() == b':' { c.i += 1; return Some(n) }
        c.i = save; None
    }
    /// operand of type t -> slot refs
    fn val(&mut self, c: &mut Cur, t: TyId) -> Vec<i32> {
        c.ws();
        let n = self.m.slots(t).len() as u32;
        if c.peek() == b'%' { c.i += 1; let nm = c.name(); let b = self.slot(&nm, n); return (0..n as i32).map(|i| b + i).collect() }
        match self.m.get(t) {
            Ty::Int(w) if w > 64 => { let v = if c.kw("undef") || c.kw("poison") || c.kw("zeroinitializer") { 0 } else { c.int() as u128 }; let mut r = vec![self.k(v as u64)]; let mut rest = v >> 64; let mut ww = w - 64; loop { let k = rest as u64 & m64(ww.min(64)); r.push(self.k(k)); if ww <= 64 { break } ww -= 64; rest = if (v as i128) < 0 { u64::MAX as u128 } else { 0 } } r }
            Ty::Int(w) => { let v = self.m.cexpr(c).unwrap_or_else(|| panic!("int const at {}", c.ctx())); vec![self.k(v & m64(w))] }
            Ty::Ptr => { let v = self.m.cexpr(c).unwrap_or_else(|| panic!("ptr const at {}", c.ctx())); vec![self.k(v)] }
            Ty::F64 => { let v = self.m.fconst(c); vec![self.k(v)] }
            Ty::F32 => { let v = (f64::from_bits(self.m.fconst(c)) as f32).to_bits() as u64; vec![self.k(v)] }
            Ty::Struct(f, p) => {
                if c.kw("zeroinitializer") || c.kw("undef") || c.kw("poison") { let z = self.k(0); return vec![z; n as usize] }
                if p { c.expect("<") } c.expect("{"); let mut r = vec![];
                for k in 0..f.len() { if k > 0 { c.expect(",") } let tt = self.m.ty(c); r.extend(self.val(c, tt)) }
                c.expect("}"); if p { c.expect(">") } r
            }
            Ty::Array(_, _) | Ty::Vector(_, _) => {
                if c.kw("zeroinitializer") || c.kw("undef") || c.kw("poison") { let z = self.k(0); return vec![z; n as usize] }
                c.ws();
                if c.peek() == b'c' { let mut buf = vec![0u8; n as usize]; self.m.init(c, t, 0, &mut buf); return buf.iter().map(|b| self.k(*b as u64)).collect() }
                let close = if c.peek() == b'<' { ">" } else { "]" }; c.i += 1;
                let mut r = vec![];
                loop { let tt = self.m.ty(c); r.extend(self.val(c, tt)); if c.eat(close) { break } c.expect(",") }
                r
            }
            _ => panic!("operand at {}", c.ctx()),
        }
    }
    fn tyval(&mut self, c: &mut Cur) -> (TyId, Vec<i32>) {
        let t = self.m.ty(c);
        if self.m.get(t) == Ty::Meta { // skip metadata operand
            c.ws(); let mut d = 0; loop { let ch = c.peek(); if d == 0 && (ch == b',' || ch == b')') { break } if ch == b'(' || ch == b'{' { d += 1 } if ch == b')' || ch == b'}' { d -= 1 } c.i += 1 } return (t, vec![]) }
        loop {
            c.ws(); let p = c.peek();
            if p.is_ascii_lowercase() {
                let w = c.peek_word();
                if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "add" | "sub" | "trunc" | "zext" | "and" | "or" | "xor" | "shl" | "mul" | "none" | "icmp" | "select") { break }
                if w == "c" { break }
                self.attr(c);
            } else { break }
        }
        let v = self.val(c, t);
        (t, v)
    }
    fn lab(&mut self, c: &mut Cur) -> String { c.expect("label"); c.expect("%"); c.name() }
    fn eol(&mut self, c: &mut Cur) { while c.i < c.s.len() && c.s[c.i] != b'\n' { c.i += 1 } }
    fn msg(&mut self, s: String) -> u32 { self.f.msgs.push(s); self.f.msgs.len() as u32 - 1 }
    fn pool(&mut self, v: &[i32]) -> u32 { let p = self.f.pool.len() as u32; self.f.pool.extend_from_slice(v); p }
    fn emit(&mut self, i: I) { self.f.code.push(i) }
    fn width(&self, t: TyId) -> u32 { match self.m.get(t) { Ty::Int(w) => w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vector(_, e) => self.width(e), _ => panic!("width of {:?}", self.m.get(t)) } }
    fn inst(&mut self, c: &mut Cur, cur: u32) {
        c.ws();
        let start = c.i;
        let mut dst: Option<String> = None;
        if c.peek() == b'%' { c.i += 1; dst = Some(c.name()); c.expect("=") }
        let mut op = c.word();
        while matches!(op, "tail" | "musttail" | "notail") { op = c.word() }
        let d = dst.as_deref();
        match op {
            "alloca" => {
                let _ = c.kw("inalloca");
                let t = self.m.ty(c);
                let mut n = 1u64;
                let mut al = self.m.align(t);
                while c.eat(",") { if c.kw("align") { al = c.int() as u64 } else if c.peek() == b'!' { break } else { let (_, v) = self.tyval(c); if v[0] < 0 { n = self.f.consts[!v[0] as usize] } else { panic!("dynamic alloca") } } }
                let al = al.max(8) as u32;
                let off = (self.f.frame + al - 1) / al * al;
                self.f.frame = off + (self.m.size(t) * n).max(1) as u32;
                let s = self.slot(d.unwrap(), 1);
                self.emit(I::Alloca { dst: s, off });
            }
            "load" => {
                let _ = c.kw("atomic"); let _ = c.kw("volatile");
                let t = self.m.ty(c); c.expect(",");
                let (_, p) = self.tyval(c);
                let sl = self.m.slots(t);
                let b = self.slot(d.unwrap(), sl.len() as u32);
                if let (Ty::Vector(n, e), true) = (self.m.get(t), true) { if let Ty::Int(1) = self.m.get(e) {
                    let tmp = self.next; self.next += 1; self.emit(I::Load { dst: tmp, p: p[0], off: 0, w: n as u8, bytes: ((n + 7) / 8) as u8 });
                    let src = self.pool(&[tmp]); self.emit(I::Bitcast { dst: b, dn: n as u16, dw: 1, src, sn: 1, sw: n as u8 }); self.eol(c); return } }
                for (i, s) in sl.iter().enumerate() { self.emit(I::Load { dst: b + i as i32, p: p[0], off: s.off, w: s.w as u8, bytes: s.bytes as u8 }) }
            }
            "store" => {
                let _ = c.kw("atomic"); let _ = c.kw("volatile");
                let (t, v) = self.tyval(c); c.expect(",");
                let (_, p) = self.tyval(c);
                let sl = self.m.slots(t);
                for (i, s) in sl.iter().enumerate() { self.emit(I::Store { v: v[i], p: p[0], off: s.off, w: s.w as u8, bytes: s.bytes as u8 }) }
            }
            "getelementptr" => {
                while matches!(c.peek_word(), "inbounds" | "nuw" | "nusw") { c.word(); }
                let t = self.m.ty(c); c.expect(",");
                let (_, base) = self.tyval(c);
                let mut off = 0i64; let mut idxs: Vec<(i32, i64, u32)> = vec![]; let mut cur_t = t; let mut first = true;
                loop {
                    let save = c.i;
                    if !c.eat(",") { break }
                    c.ws(); if c.peek() == b'!' { c.i = save; break }
                    let (it, v) = self.tyval(c);
                    assert_eq!(v.len(), 1, "vector gep");
                    let iw = self.width(it);
                    let scale;
                    if first { scale = self.m.size(cur_t) as i64; first = false }
                    else { match self.m.get(cur_t) {
                        Ty::Struct(f, p) => { let k = self.f.consts[!v[0] as usize] as usize; off += self.m.field_off(&f, p, k) as i64; cur_t = f[k]; continue }
                        Ty::Array(_, e) | Ty::Vector(_, e) => { scale = self.m.size(e) as i64; cur_t = e }
                        x => panic!("gep into {:?}", x) } }
                    if v[0] < 0 { let k = self.f.consts[!v[0] as usize]; let k = if iw < 64 { ((k << (64 - iw)) as i64) >> (64 - iw) } else { k as i64 }; off = off.wrapping_add(k.wrapping_mul(scale)) } else { idxs.push((v[0], scale, iw)) }
                }
                let ds = self.slot(d.unwrap(), 1);
                if idxs.is_empty() { self.emit(I::GepC { dst: ds, base: base[0], off }) }
                else {
                    let mut b = base[0];
                    let n = idxs.len();
                    for (k, (i, s, iw)) in idxs.into_iter().enumerate() { let last = k + 1 == n && off == 0; let t = if last { ds } else { self.next += 1; self.next - 1 }; self.emit(I::GepI { dst: t, base: b, idx: i, scale: s, iw: iw as u8 }); b = t }
                    if off != 0 { self.emit(I::GepC { dst: ds, base: b, off }) }
                }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") { c.word(); }
                let t = self.m.ty(c); let a = self.val(c, t); c.expect(","); let b = self.val(c, t);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                let w = self.width(t);
                let ds = self.slot(d.unwrap(), a.len() as u32);
                if w > 64 && !matches!(self.m.get(t), Ty::Int(_)) { let k = self.msg(format!("wide vector {}", op)); self.emit(I::Unsupported(k)) }
                else if w > 128 { let k = self.msg(format!("i{} {}", w, op)); self.emit(I::Unsupported(k)) }
                else if w > 64 { let p = self.pool(&[a[0], a[1], b[0], b[1]]); self.emit(I::WBin(o, w as u8, ds, p)) }
                else { for i in 0..a.len() { self.emit(I::Bin(o, w as u8, ds + i as i32, a[i], b[i])) } }
            }
            "icmp" => {
                let p = c.word();
                let t = self.m.ty(c); let a = self.val(c, t); c.expect(","); let b = self.val(c, t);
                let (cm, sw) = match p { "eq" => (Cmp::Eq, false), "ne" => (Cmp::Ne, false), "ult" => (Cmp::Ult, false), "ule" => (Cmp::Ule, false), "ugt" => (Cmp::Ult, true), "uge" => (Cmp::Ule, true), "slt" => (Cmp::Slt, false), "sle" => (Cmp::Sle, false), "sgt" => (Cmp::Slt, true), "sge" => (Cmp::Sle, true), _ => panic!("icmp {}", p) };
                let (a, b) = if sw { (b, a) } else { (a, b) };
                let w = self.width(t);
                if w > 64 {
                    let ds = self.slot(d.unwrap(), 1);
                    if w > 128 || a.len() != 2 { let k = self.msg(format!("i{} icmp", w)); self.emit(I::Unsupported(k)) } else { let p = self.pool(&[a[0], a[1], b[0], b[1]]); self.emit(I::WIcmp(cm, w as u8, ds, p)) }
                } else { let ds = self.slot(d.unwrap(), a.len() as u32); for i in 0..a.len() { self.emit(I::Icmp(cm, w as u8, ds + i as i32, a[i], b[i])) } }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                while matches!(c.peek_word(), "nneg" | "nuw" | "nsw") { c.word(); }
                let t = self.m.ty(c); let a = self.val(c, t);
                let tt = if op == "freeze" { t } else { c.expect("to"); self.m.ty(c) };
                let n = self.m.slots(tt).len();
                let (fw, tw) = if op == "freeze" { (0, 0) } else { (self.width(t), self.width(tt)) };
                let same = op == "freeze" || (matches!(op, "ptrtoint" | "inttoptr") && fw == 64 && tw == 64) || (op == "bitcast" && self.m.slots(t).iter().map(|s| s.w).eq(self.m.slots(tt).iter().map(|s| s.w)));
                if same {
                    // alias when possible
                    let dn = d.unwrap();
                    let contiguous = a.len() == n && a[0] >= 0 && (0..n).all(|i| a[i] == a[0] + i as i32);
                    if contiguous && !self.names.contains_key(dn) { self.names.insert(dn.to_string(), (a[0], n as u32)); }
                    else { let ds = self.slot(dn, n as u32); for i in 0..n { self.emit(I::Copy(ds + i as i32, a[i])) } }
                    self.eol(c); return;
                }
                let ds = self.slot(d.unwrap(), n as u32);
                match op {
                    "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => { let k = match op { "fptoui" => 0, "fptosi" => 1, "uitofp" => 2, "sitofp" => 3, "fpext" => 4, _ => 5 }; if fw > 64 || tw > 64 { let k = self.msg(format!("{} wide", op)); self.emit(I::Unsupported(k)) } else { for i in 0..n { self.emit(I::FCast { k, fw: fw as u8, tw: tw as u8, dst: ds + i as i32, a: a[i] }) } } }
                    "bitcast" => {
                        let src = self.pool(&a);
                        let sw = self.m.slots(t)[0].w; let dw = self.m.slots(tt)[0].w;
                        if self.m.slots(t).iter().any(|s| s.w != sw) || self.m.slots(tt).iter().any(|s| s.w != dw) { let k = self.msg("bitcast odd".into()); self.emit(I::Unsupported(k)) }
                        else { self.emit(I::Bitcast { dst: ds, dn: n as u16, dw: dw as u8, src, sn: a.len() as u16, sw: sw as u8 }) }
                    }
                    "trunc" | "ptrtoint" | "zext" | "inttoptr" | "sext" => {
                        let isvec = matches!(self.m.get(t), Ty::Vector(..));
                        if fw <= 64 && tw <= 64 {
                            for i in 0..n { let (x, y) = (ds + i as i32, a[i]); if tw < fw { self.emit(I::Trunc(tw as u8, x, y)) } else if op == "sext" { self.emit(I::Sext(fw as u8, tw as u8, x, y)) } else { self.emit(I::Zext(fw as u8, tw as u8, x, y)) } }
                        } else if isvec || fw > 128 || tw > 128 { let k = self.msg(format!("{} wide {} {}", op, fw, tw)); self.emit(I::Unsupported(k)) }
                        else if fw <= 64 { self.emit(I::WExt { signed: op == "sext", fw: fw as u8, tw: tw as u8, dst: ds, a: a[0] }) }
                        else if tw <= 64 { self.emit(I::WTrunc { tw: tw as u8, dst: ds, lo: a[0], hi: a[1] }) }
                        else if op == "zext" { self.emit(I::Copy(ds, a[0])); self.emit(I::Zext((fw - 64) as u8, (tw - 64) as u8, ds + 1, a[1])) }
                        else if op == "sext" { self.emit(I::Copy(ds, a[0])); self.emit(I::Sext((fw - 64) as u8, (tw - 64) as u8, ds + 1, a[1])) }
                        else { self.emit(I::Copy(ds, a[0])); self.emit(I::Trunc((tw - 64) as u8, ds + 1, a[1])) }
                    }
                    _ => unreachable!(),
                }
            }
            "select" => {
                let (_, cv) = self.tyval(c); c.expect(",");
                let (t, a) = self.tyval(c); c.expect(","); let (_, b) = self.tyval(c);
                let n = self.m.slots(t).len();
                let ds = self.slot(d.unwrap(), n as u32);
                for i in 0..n { let cc = if cv.len() == 1 { cv[0] } else { cv[i] }; let w = self.m.slots(t)[i].w as u8; self.emit(I::Select(w, ds + i as i32, cc, a[i], b[i])) }
            }
            "phi" => {
                let t = self.m.ty(c); let n = self.m.slots(t).len() as u32;
                let ds = self.slot(d.unwrap(), n);
                let mut inc = vec![];
                loop { c.expect("["); let v = self.val(c, t); c.expect(","); c.expect("%"); let l = c.name(); let li = self.label(&l); c.expect("]"); inc.push((v, li)); let save = c.i; if !c.eat(",") { break } c.ws(); if c.peek() != b'[' { c.i = save; break } }
                self.phis[cur as usize].push(Phi { dst: (0..n as i32).map(|i| ds + i).collect(), inc });
            }
            "br" => {
                c.ws();
                if c.peek_word() == "label" { let l = self.lab(c); let e = self.edge(cur, &l); self.emit(I::Jmp(e)) }
                else { let (_, v) = self.tyval(c); c.expect(","); let a = self.lab(c); c.expect(","); let b = self.lab(c); let e1 = self.edge(cur, &a); let e2 = self.edge(cur, &b); self.emit(I::CondBr(v[0], e1, e2)) }
            }
            "switch" => {
                let (t, v) = self.tyval(c); c.expect(","); let l = self.lab(c); let def = self.edge(cur, &l);
                c.expect("["); let mut cases: FxMap<u64, u32> = Default::default();
                let w = self.width(t);
                while !c.eat("]") { let _ = self.m.ty(c); c.ws(); let k = if c.kw("true") { 1 } else if c.kw("false") { 0 } else { c.int() as u64 } & m64(w); c.expect(","); let l = self.lab(c); let e = self.edge(cur, &l); cases.insert(k, e); }
                if w > 64 { let k = self.msg("wide switch".into()); self.emit(I::Unsupported(k)) }
                else { let si = self.f.switches.len() as u32; self.f.switches.push(SwitchT { w: w as u8, cases, default: def }); self.emit(I::Switch(v[0], si)) }
            }
            "ret" => { let t = self.m.ty(c); if self.m.get(t) == Ty::Void { self.emit(I::Ret(0, 0)) } else { let v = self.val(c, t); let p = self.pool(&v); self.emit(I::Ret(p as i32, v.len() as u32)) } }
            "unreachable" => self.emit(I::Unreachable),
            "resume" | "landingpad" | "indirectbr" | "cleanuppad" => {
                if op == "landingpad" { let t = self.m.ty(c); let n = self.m.slots(t).len() as u32; self.slot(d.unwrap(), n); while matches!({ self.eol(c); c.peek_word() }, "cleanup" | "catch" | "filter") {} 
                    let k = self.msg("landingpad".into()); self.emit(I::Unsupported(k)); return }
                let k = self.msg(op.to_string()); self.emit(I::Unsupported(k));
            }
            "fence" => {}
            "call" | "invoke" => self.call(c, d, cur, op == "invoke"),
            "extractvalue" => {
                let (t, a) = self.tyval(c);
                let (mut lo, mut tt) = (0usize, t);
                loop { let save = c.i; if !c.eat(",") { break } c.ws(); if c.peek() == b'!' { c.i = save; break } let k = c.int() as usize;
                    match self.m.get(tt) { Ty::Struct(f, _) => { for j in 0..k { lo += self.m.slots(f[j]).len() } tt = f[k] } Ty::Array(_, e) => { lo += k * self.m.slots(e).len(); tt = e } _ => panic!() } }
                let n = self.m.slots(tt).len();
                let dn = d.unwrap();
                if n > 0 && a[lo] >= 0 && !self.names.contains_key(dn) { self.names.insert(dn.to_string(), (a[lo], n as u32)); }
                else { let ds = self.slot(dn, n as u32); for i in 0..n { self.emit(I::Copy(ds + i as i32, a[lo + i])) } }
            }
            "insertvalue" => {
                let (t, a) = self.tyval(c); c.expect(","); let (vt, v) = self.tyval(c);
                let (mut lo, mut tt) = (0usize, t);
                loop { let save = c.i; if !c.eat(",") { break } c.ws(); if c.peek() == b'!' { c.i = save; break } let k = c.int() as usize;
                    match self.m.get(tt) { Ty::Struct(f, _) => { for j in 0..k { lo += self.m.slots(f[j]).len() } tt = f[k] } Ty::Array(_, e) => { lo += k * self.m.slots(e).len(); tt = e } _ => panic!() } }
                let vn = self.m.slots(vt).len();
                let ds = self.slot(d.unwrap(), a.len() as u32);
                for i in 0..a.len() { let s = if i >= lo && i < lo + vn { v[i - lo] } else { a[i] }; self.emit(I::Copy(ds + i as i32, s)) }
            }
            "extractelement" => {
                let (t, a) = self.tyval(c); c.expect(","); let (_, k) = self.tyval(c);
                let Ty::Vector(_, e) = self.m.get(t) else { panic!() };
                let es = self.m.slots(e).len(); assert_eq!(es, 1);
                let ds = self.slot(d.unwrap(), 1);
                if k[0] < 0 { let i = self.f.consts[!k[0] as usize] as usize; self.emit(I::Copy(ds, a[i])) } else { let v = self.pool(&a); self.emit(I::ExtractDyn { dst: ds, idx: k[0], v, n: a.len() as u16 }) }
            }
            "insertelement" => {
                let (_, a) = self.tyval(c); c.expect(","); let (_, v) = self.tyval(c); c.expect(","); let (_, k) = self.tyval(c);
                let ds = self.slot(d.unwrap(), a.len() as u32);
                if k[0] < 0 { let ki = self.f.consts[!k[0] as usize] as usize; for i in 0..a.len() { self.emit(I::Copy(ds + i as i32, if i == ki { v[0] } else { a[i] })) } }
                else { let p = self.pool(&a); self.emit(I::InsertDyn { dst: ds, idx: k[0], e: v[0], v: p, n: a.len() as u16 }) }
            }
            "shufflevector" => {
                let (_, a) = self.tyval(c); c.expect(","); let (_, b) = self.tyval(c); c.expect(",");
                let mt = self.m.ty(c); let Ty::Vector(mn, _) = self.m.get(mt) else { panic!() };
                let mask = self.val(c, mt);
                let ds = self.slot(d.unwrap(), mn);
                for i in 0..mn as usize { let k = self.f.consts[!mask[i] as usize] as u32 as usize; let s = if k < a.len() { a[k] } else if k < a.len() + b.len() { b[k - a.len()] } else { a[0] }; self.emit(I::Copy(ds + i as i32, s)) }
            }
            "atomicrmw" => {
                let _ = c.kw("volatile"); let o = c.word(); let (_, p) = self.tyval(c); c.expect(","); let (t, v) = self.tyval(c);
                let ok = match o { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "umax" => 6, "umin" => 7, "max" => 8, "min" => 9, _ => panic!("rmw {}", o) };
                let ds = self.slot(d.unwrap_or("$rmw"), 1); if d.is_none() { self.names.remove("$rmw"); }
                let w = self.width(t);
                self.emit(I::AtomicRmw { op: ok, w: w as u8, dst: ds, p: p[0], v: v[0] });
            }
            "cmpxchg" => {
                let _ = c.kw("weak"); let _ = c.kw("volatile"); let (_, p) = self.tyval(c); c.expect(","); let (t, a) = self.tyval(c); c.expect(","); let (_, b) = self.tyval(c);
                let w = self.width(t);
                let ds = self.slot(d.unwrap_or("$cx"), 2); if d.is_none() { self.names.remove("$cx"); }
                if w > 64 { let k = self.msg("wide cmpxchg".into()); self.emit(I::Unsupported(k)) } else { self.emit(I::CmpXchg { w: w as u8, dst: ds, p: p[0], c: a[0], n: b[0] }) }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); }
                let t = self.m.ty(c); let a = self.val(c, t); c.expect(","); let b = self.val(c, t);
                let w = self.width(t); let ds = self.slot(d.unwrap(), a.len() as u32);
                let o = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
                for i in 0..a.len() { self.emit(I::FBin(o, w == 64, ds + i as i32, a[i], b[i])) }
            }
            "fneg" => { let t = self.m.ty(c); let a = self.val(c, t); let w = self.width(t); let ds = self.slot(d.unwrap(), a.len() as u32); for i in 0..a.len() { self.emit(I::FNeg(w == 64, ds + i as i32, a[i])) } }
            "fcmp" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz") { c.word(); }
                let p = c.word(); let t = self.m.ty(c); let a = self.val(c, t); c.expect(","); let b = self.val(c, t);
                let w = self.width(t); let ds = self.slot(d.unwrap(), a.len() as u32);
                let k = match p { "oeq" => 0, "one" => 1, "olt" => 2, "ole" => 3, "ogt" => 4, "oge" => 5, "ord" => 6, "uno" => 7, "ueq" => 8, "une" => 9, "ult" => 10, "ule" => 11, "ugt" => 12, "uge" => 13, "true" => 14, _ => 15 };
                for i in 0..a.len() { self.emit(I::FCmp(k, w == 64, ds + i as i32, a[i], b[i])) }
            }
            _ => panic!("instruction {:?} at {}", op, String::from_utf8_lossy(&c.s[start..(start + 200).min(c.s.len())])),
        }
        if c.i > start && c.s[c.i - 1] != b'\n' { self.eol(c) }
    }
    fn call(&mut self, c: &mut Cur, d: Option<&str>, cur: u32, invoke: bool) {
        // calling convention, fast-math flags and return attributes
        loop {
            let w = c.peek_word();
            if w.is_empty() { break }
            if matches!(w, "ptr" | "void" | "float" | "double" | "metadata") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())) { break }
            self.attr(c);
        }
        let rt = self.m.ty(c);
        c.ws();
        if c.peek() == b'(' { c.balanced(); c.ws() }
        let nret = self.m.slots(rt).len() as u32;
        let mut name = None; let mut callee = 0i32; let mut asm = None;
        match c.peek() {
            b'@' => { c.i += 1; name = Some(c.name()) }
            b'%' => { c.i += 1; let n = c.name(); callee = self.slot(&n, 1) }
            _ => { if c.kw("asm") { while matches!(c.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { c.word(); } c.ws(); c.i += 1; let st = c.i; while c.peek() != b'"' { c.i += 1 } asm = Some(String::from_utf8_lossy(&c.s[st..c.i]).into_owned()); c.i += 1; c.expect(","); c.ws(); c.i += 1; while c.peek() != b'"' { c.i += 1 } c.i += 1 }
                else { let v = self.m.cexpr(c).unwrap_or_else(|| panic!("callee at {}", c.ctx())); callee = self.k(v) } }
        }
        c.expect("(");
        let mut args: Vec<i32> = vec![]; let mut tys = vec![];
        if !c.eat(")") { loop { let (t, v) = self.tyval(c); args.extend(v); tys.push(t); if c.eat(")") { break } c.expect(",") } }
        let mut edge = NO_EDGE;
        if invoke {
            // attributes up to "to label"
            while !c.kw("to") { self.attr(c) }
            let l = self.lab(c); c.expect("unwind"); let _u = self.lab(c); edge = self.edge(cur, &l);
        }
        let ds = if nret == 0 { if let Some(n) = d { self.slot(n, 0); } -1 } else if let Some(n) = d { self.slot(n, nret) } else { let b = self.next; self.next += nret as i32; b };
        if let Some(a) = asm {
            if a.is_empty() || a.starts_with("//") { /* barrier */ }
            else if a.contains("cpuid") { let p = self.pool(&args); self.emit(I::Intr { k: Intr::Cpuid, w: 32, dst: ds, args: p, nargs: nret as u16 }) }
            else { let k = self.msg(format!("asm {}", a)); self.emit(I::Unsupported(k)) }
        } else {
            if let Some(n) = &name { if let Some(r) = n.strip_prefix("llvm.") { self.intrinsic(r, rt, ds, nret, args, &tys); if edge != NO_EDGE { self.emit(I::Jmp(edge)) } return } }
            let fid = match &name { Some(n) => match self.m.fn_id(n) { Some(f) => f, None => { let k = self.msg(format!("call of undefined {}", n)); self.emit(I::Unsupported(k)); if edge != NO_EDGE { self.emit(I::Jmp(edge)) } return } }, None => NO_FN };
            let p = self.pool(&args);
            self.emit(I::Call { callee, fid, args: p, nargs: args.len() as u16, dst: ds, nret: nret as u16, edge: NO_EDGE });
        }
        if edge != NO_EDGE { self.emit(I::Jmp(edge)) }
    }
    fn intrinsic(&mut self, n: &str, rt: TyId, ds: i32, nret: u32, args: Vec<i32>, tys: &[TyId]) {
        if n.starts_with("lifetime.") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("dbg.") || n.starts_with("invariant") || n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") || n.starts_with("donothing") { return }
        let k = if n.starts_with("memcpy.") { Intr::Memcpy } else if n.starts_with("memmove.") { Intr::Memmove } else if n.starts_with("memset.") { Intr::Memset }
            else if n.starts_with("uadd.with") { Intr::UAddO } else if n.starts_with("usub.with") { Intr::USubO } else if n.starts_with("umul.with") { Intr::UMulO }
            else if n.starts_with("sadd.with") { Intr::SAddO } else if n.starts_with("ssub.with") { Intr::SSubO } else if n.starts_with("smul.with") { Intr::SMulO }
            else if n.starts_with("umax.") { Intr::UMax } else if n.starts_with("umin.") { Intr::UMin } else if n.starts_with("smax.") { Intr::SMax } else if n.starts_with("smin.") { Intr::SMin }
            else if n.starts_with("uadd.sat") { Intr::UAddSat } else if n.starts_with("usub.sat") { Intr::USubSat } else if n.starts_with("sadd.sat") { Intr::SAddSat } else if n.starts_with("ssub.sat") { Intr::SSubSat }
            else if n.starts_with("cttz.") { Intr::Cttz } else if n.starts_with("ctlz.") { Intr::Ctlz } else if n.starts_with("ctpop.") { Intr::Ctpop }
            else if n.starts_with("bswap.") { Intr::Bswap } else if n.starts_with("bitreverse.") { Intr::Bitreverse } else if n.starts_with("fshl.") { Intr::Fshl } else if n.starts_with("fshr.") { Intr::Fshr }
            else if n.starts_with("abs.") { Intr::Abs } else if n == "trap" || n == "ubsantrap" || n == "debugtrap" { Intr::Trap } else if n.starts_with("load.relative") { Intr::LoadRelative }
            else if n.starts_with("expect.") { Intr::Expect } else if n.starts_with("vector.reduce.add") { Intr::ReduceAdd } else if n.starts_with("vector.reduce.or") { Intr::ReduceOr } else if n.starts_with("vector.reduce.and") { Intr::ReduceAnd } else if n.starts_with("vector.reduce.umax") { Intr::ReduceMax }
            else if n.contains("pshuf.b") { Intr::Pshufb } else if n.starts_with("is.constant") { Intr::IsConstant } else if n.contains("pmovmskb") { Intr::Pmovmskb }
            else if n.starts_with("ceil.") { Intr::FunaryCeil } else if n.starts_with("floor.") { Intr::FunaryFloor } else if n.starts_with("trunc.") { Intr::FunaryTrunc } else if n.starts_with("fabs.") { Intr::FunaryFabs }
            else { let m = self.msg(format!("llvm.{}", n)); self.emit(I::Unsupported(m)); return };
        // element width of the first argument
        let w = if tys.is_empty() || matches!(self.m.get(tys[0]), Ty::Meta) { 64 } else { self.width(tys[0]) };
        let isvec = !tys.is_empty() && matches!(self.m.get(tys[0]), Ty::Vector(..));
        let elementwise = matches!(k, Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin | Intr::UAddSat | Intr::USubSat | Intr::SAddSat | Intr::SSubSat | Intr::Cttz | Intr::Ctlz | Intr::Ctpop | Intr::Bswap | Intr::Fshl | Intr::Fshr | Intr::Abs);
        if isvec && elementwise {
            let l = nret as usize;
            let na = if matches!(k, Intr::Fshl | Intr::Fshr) { 3 } else if matches!(k, Intr::Ctpop | Intr::Bswap) { 1 } else { 2 };
            for i in 0..l { let mut a: Vec<i32> = vec![]; for j in 0..na { let idx = j * l + i; a.push(if idx < args.len() { args[idx] } else { *args.last().unwrap() }) } let p = self.pool(&a); self.emit(I::Intr { k, w: w as u8, dst: ds + i as i32, args: p, nargs: a.len() as u16 }) }
            return;
        }
        let _ = rt;
        let p = self.pool(&args);
        if w > 64 && !matches!(k, Intr::Memcpy | Intr::Memmove | Intr::Memset | Intr::UMulO | Intr::UAddO | Intr::USubO | Intr::Bswap | Intr::Ctlz | Intr::Cttz | Intr::Expect) { let m = self.msg(format!("llvm.{} wide", n)); self.emit(I::Unsupported(m)); return }
        if w > 64 && matches!(k, Intr::UMulO | Intr::UAddO | Intr::USubO | Intr::Bswap | Intr::Ctlz | Intr::Cttz | Intr::Expect) { /* handled with two-slot args */ }
        self.emit(I::Intr { k, w: w as u8, dst: ds, args: p, nargs: args.len() as u16 });
    }
}
