//! C05: selectors are computed as ink! defines them.
use crate::run::Job;
use crate::sym::*;
use ink_analyzer_ir::syntax::{AstNode, SourceFile};
use ink_analyzer_ir::*;

pub fn file(code: &str) -> SourceFile { SourceFile::parse(code).tree() }
fn first<T: InkEntity>(code: &str) -> Option<T> { file(code).syntax().descendants().find_map(T::cast) }

/// Reference BLAKE2b-256 (RFC 7693), one block.
pub fn blake2b256(data: &[u8]) -> [u8; 32] {
    const IV: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]];
    assert!(data.len() <= 128);
    let mut h = IV;
    h[0] ^= 0x01010000 ^ 32;
    let mut block = [0u8; 128];
    block[..data.len()].copy_from_slice(data);
    let mut m = [0u64; 16];
    for i in 0..16 { let mut b = [0u8; 8]; b.copy_from_slice(&block[8 * i..8 * i + 8]); m[i] = u64::from_le_bytes(b) }
    let mut v = [0u64; 16];
    for i in 0..8 { v[i] = h[i]; v[i + 8] = IV[i] }
    v[12] ^= data.len() as u64;
    v[14] = !v[14];
    fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(63);
    }
    for r in 0..12 {
        let s = &SIGMA[r % 10];
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]); g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]); g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]); g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]); g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    let mut out = [0u8; 32];
    for i in 0..4 { out[8 * i..8 * i + 8].copy_from_slice(&(h[i] ^ v[i] ^ v[i + 8]).to_le_bytes()) }
    out
}
pub fn hash4(s: &str) -> u32 { let h = blake2b256(s.as_bytes()); u32::from_be_bytes([h[0], h[1], h[2], h[3]]) }

const HEX: &[u8] = b"0123456789abcdefABCDEF";
fn hexval(d: &str) -> Option<u32> { u32::from_str_radix(d, 16).ok() }
fn decval(d: &str) -> Option<u32> { u32::from_str_radix(d, 10).ok() }
fn explicit(lit: &str, want: Option<u32>, fallback: u32) {
    let kind = choose(2);
    let code = format!("{}impl A {{\n#[ink({}, selector = {})]\npub fn go(&self) {{}}\n}}", pick(&["", "// c\n"]), ["message", "constructor"][kind], lit);
    let (arg, sel) = if kind == 0 { let m: Message = first(&code).unwrap(); (m.selector_arg(), m.composed_selector()) } else { let m: Constructor = first(&code).unwrap(); (m.selector_arg(), m.composed_selector()) };
    note_str(&code);
    let arg = match arg { Some(a) => a, None => { check(false, "selector argument not found"); return } };
    check(*arg.kind() == SelectorArgKind::Integer, "integer selector not recognised as integer");
    check(arg.as_u32() == want, "selector argument value");
    check(!arg.is_wildcard(), "integer taken for wildcard");
    check(arg.is_wildcard_complement() == (want == Some(0x9BAE9D5E)), "reserved complement value");
    let s = sel.map(|s| s.into_be_u32());
    check(s == Some(want.unwrap_or(fallback)), "composed selector differs from explicit value");
    let b = sel.map(|s| s.to_bytes());
    check(b == s.map(|v| [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]), "selector bytes are not big endian");
    if want.is_some() { reach("valid") } else { reach("invalid") }
}

pub static JOBS: &[Job] = &[
    Job { name: "c05_hex", prop: "C05", tier: "quick", need: &["valid", "invalid"], bound: "all 0x literals of 1..=9 hex digits, both callable kinds", f: || {
        let n = 1 + choose(9);
        let d = text(n, HEX);
        let want = hexval(&d);
        explicit(&format!("0x{}", d), want, hash4("go"));
    } },
    Job { name: "c05_dec", prop: "C05", tier: "quick", need: &["valid", "invalid"], bound: "all decimal literals of 1..=5 digits, and 7-digit prefixes around the u32/u16/u64 limits followed by any 3 or 4 digits, both callable kinds", f: || {
        let d = if choose(2) == 0 { let n = 1 + choose(5); text(n, b"0123456789") } else { format!("{}{}", pick(&["4294967", "0000006", "9999999", "1844674407370955"]), text(3 + choose(2), b"0123456789")) };
        let want = decval(&d);
        explicit(&d, want, hash4("go"));
    } },
    Job { name: "c05_symbol", prop: "C05", tier: "quick", need: &["_", "@", "other"], bound: "selector values `_`, `@`, string/bool/path/missing; layout variants", f: || {
        let v = choose(7);
        let val = [" = _", "=@", "= \"10\"", "", " = true", " = a::b", " = 1.5"][v];
        let ws = pick(&["", " ", "/* _ */", "\n"]);
        let code = format!("impl A {{ #[ink(message, selector{}{})] pub fn go(&self) {{}} }}", val, ws);
        let m: Message = first(&code).unwrap();
        note_str(&code);
        let a = m.selector_arg();
        let a = match a { Some(a) => a, None => { check(false, "selector argument not found"); return } };
        check(a.is_wildcard() == (v == 0), "wildcard");
        check(a.is_wildcard_complement() == (v == 1), "wildcard complement");
        check(a.as_u32().is_none(), "not an integer");
        let want = if v == 1 { 0x9BAE9D5E } else { hash4("go") };
        check(m.composed_selector().map(|s| s.into_be_u32()) == Some(want), "composed selector");
        reach(match v { 0 => "_", 1 => "@", _ => "other" });
    } },
    Job { name: "c05_derived", prop: "C05", tier: "quick", need: &["trait", "ns", "both", "plain"], bound: "derived selectors: 3-letter symbolic names, trait paths of <=3 segments with layout variants, namespace present or not, on one or two attributes", f: || {
        let name = ctext(3, b"azZ_0");
        let b = name.as_bytes()[0];
        assume(!(b'0'..=b'9').contains(&b));
        assume(name != "___");
        let tr = choose(7);
        // (source, spelled in the selector)
        let (tsrc, tname) = [("", None), ("Tr for ", Some("Tr")), ("a::Tr for ", Some("Tr")), ("::a::Tr for ", Some("::a::Tr")), ("crate :: b::  Tr for ", Some("Tr")), (":: a:: b ::Tr for ", Some("::a::b::Tr")), ("Longer_Trait1 for ", Some("Longer_Trait1"))][tr];
        let ns = choose(4);
        let (asrc, nsname) = [("", None), ("#[ink(impl, namespace = \"my_ns\")]\n", Some("my_ns")), ("#[ink(namespace=\"n\")]\n", Some("n")), ("#[ink(impl)]\n#[ink(namespace = \"q1\")]\n", Some("q1"))][ns];
        let kind = choose(2);
        let code = format!("mod c {{\n{}impl {}A {{\n#[ink({})]\n{}fn {}(&self) {{}}\n}}\n}}", asrc, tsrc, ["message", "constructor"][kind], if tr == 0 { "pub " } else { "" }, name);
        note_str(&code);
        let sel = if kind == 0 { first::<Message>(&code).unwrap().composed_selector() } else { first::<Constructor>(&code).unwrap().composed_selector() };
        let mut pre = String::new();
        if let Some(n) = nsname { pre.push_str(n); pre.push_str("::") }
        if let Some(t) = tname { pre.push_str(t); pre.push_str("::") }
        pre.push_str(&name);
        check(sel.map(|s| s.into_be_u32()) == Some(hash4(&pre)), "derived selector");
        reach(match (tname, nsname) { (None, None) => "plain", (Some(_), None) => "trait", (None, _) => "ns", _ => "both" });
    } },
];
