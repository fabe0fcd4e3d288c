//! C07: overlapping selectors and ids are detected iff they are equal.
use crate::c05::hash4;
use crate::chk;
use crate::doc::*;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

fn bin(n: u32) -> String { format!("0b{:b}", n) }
fn notation(n: u32, k: usize) -> String {
    match k {
        0 => format!("{}", n), 1 => format!("0x{:x}", n), 2 => format!("0x{:08X}", n), 3 => format!("0x{:x}_u32", n), 4 => bin(n), 5 => format!("0o{:o}", n),
        6 => { let s = format!("{}", n); let (a, b) = s.split_at(1); format!("{}_{}", a, b) }
        _ => format!("/* 1 */ {} /* 2 */", n),
    }
}
const NOT: usize = 8;
fn count(d: &[Diagnostic], pat: &str) -> usize { d.iter().filter(|x| x.message.contains(pat)).count() }
fn verdict(code: &str, v: Version, pat: &str, equal: bool, at: usize, other: &[&str]) {
    let d = Analysis::new(code, v).diagnostics();
    note_str(code);
    note(equal as u64);
    let n = count(&d, pat);
    if equal {
        chk!(n == 1, "equal values: overlap reported {} times ({})", n, pat);
        for x in d.iter().filter(|x| x.message.contains(pat)) { let (s, e) = se(x.range); chk!(s >= at && e <= code.len(), "overlap not reported on the later one ({})", pat) }
    } else { chk!(n == 0, "different values reported as overlapping ({})", pat) }
    for o in other { chk!(count(&d, o) == 0, "overlap reported for the wrong kind ({})", o) }
    if equal { reach("equal") } else { reach("different") }
}
fn contract(a: &str, b: &str, kind: &str, other: &str, place: usize) -> (String, usize) {
    let recv = if kind == "message" { "(&self)" } else { "() -> Self" };
    let body = |s: &str, n: &str| format!("        #[ink({}{})]\n        pub fn {}{} {{ todo!() }}\n", kind, s, n, recv);
    let o = if other == "message" { "        #[ink(message, selector = 10)]\n        pub fn o(&self) {}\n".to_string() } else { "        #[ink(constructor, selector = 10)]\n        pub fn o() -> Self { todo!() }\n".to_string() };
    let mut c = String::from("#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n\n    impl C {\n");
    if place != 2 { c.push_str(&o) }
    c.push_str(&body(a, "aa"));
    if place == 1 { c.push_str("    }\n\n    impl C {\n") }
    if place == 2 { c.push_str(&o) }
    let at = c.len();
    c.push_str(&body(b, "bb"));
    c.push_str("    }\n}\n");
    (c, at)
}
const M: &str = "must be unique across all ink! messages"; const C: &str = "must be unique across all ink! constructors"; const FN: &str = "Function ids must be unique"; const EX: &str = "Extension ids must be unique";
fn chain(v: Version, a: &str, b: &str, mid: &str) -> (String, usize) {
    let (h, k) = if v == Version::V5 { ("#[ink::chain_extension(extension = 10)]", "function") } else { ("#[ink::chain_extension]", "extension") };
    let mut c = format!("{}\npub trait X {{\n    type ErrorCode = E;\n\n    #[ink({} = {})]\n    fn aa();\n\n{}", h, k, a, mid);
    let at = c.len();
    c.push_str(&format!("    #[ink({} = {})]\n    fn bb();\n}}\n", k, b));
    (c, at)
}
pub static JOBS: &[Job] = &[
    Job { name: "c07_selectors", prop: "C07", tier: "quick", need: &["equal", "different"], bound: "two messages or constructors whose explicit selectors are any pair of 3 values, one in any of 8 notations, the other in decimal or hexadecimal, in one or two impl blocks", f: || {
        let vals = [10u32, 16, 0x9BAE9D5E];
        let (i, j) = (choose(3), choose(3));
        let (x, y) = (choose(NOT), choose(2));
        let (a, b) = (notation(vals[i], x), notation(vals[j], y));
        let k = choose(2);
        let (code, at) = contract(&format!(", selector = {}", a), &format!(", selector = {}", b), ["message", "constructor"][k], ["constructor", "message"][k], (i + j) % 3);
        verdict(&code, version((i + x) % 2), [M, C][k], i == j, at, &[[C, M][k]]);
    } },
    Job { name: "c07_derived", prop: "C07", tier: "quick", need: &["equal", "different"], bound: "a derived selector (plain, namespaced or of a trait implementation) against an explicit one in any notation", f: || {
        let k = choose(2);
        let w = choose(6);
        let n = [hash4("aa"), hash4("bb"), hash4("ns::aa"), hash4("Tr::aa"), hash4("ns::Tr::aa"), hash4("aa") ^ 1][w];
        let lit = notation(n, choose(NOT));
        let p = choose(4);
        let head = ["impl C", "#[ink(impl, namespace = \"ns\")]\n    impl C", "impl Tr for C", "#[ink(impl, namespace = \"ns\")]\n    impl Tr for C"][p];
        let want = [0, 2, 3, 4][p] == w;
        let (kind, recv) = [("message", "(&self)"), ("constructor", "() -> Self")][k];
        let mut code = format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct C {{}}\n\n    {} {{\n        #[ink({})]\n        {}fn aa{} {{ todo!() }}\n    }}\n\n    impl C {{\n", head, kind, if p < 2 { "pub " } else { "" }, recv);
        let at = code.len();
        code.push_str(&format!("        #[ink({}, selector = {})]\n        pub fn zz{} {{ todo!() }}\n    }}\n}}\n", kind, lit, recv));
        verdict(&code, version(choose(2)), [M, C][k], want, at, &[[C, M][k]]);
    } },
    Job { name: "c07_three", prop: "C07", tier: "quick", need: &["none", "one", "two"], bound: "three messages and two constructors with selectors over 3 values: the number of reports per kind is the number of values already seen", f: || {
        let s: Vec<usize> = (0..5).map(|_| choose(3)).collect();
        let mut code = String::from("#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n\n    impl C {\n");
        let lit = [["1", "0x1", "0b1"], ["2", "2u32", "0x02"], ["257", "0x101", "2_57"]];
        for (i, x) in s.iter().enumerate() { code.push_str(&format!("        #[ink({}, selector = {})]\n        pub fn f{}{} {{ todo!() }}\n", if i < 3 { "message" } else { "constructor" }, lit[*x][i % 3], i, if i < 3 { "(&self)" } else { "() -> Self" })) }
        code.push_str("    }\n}\n");
        let d = Analysis::new(&code, Version::V5).diagnostics();
        note_str(&code);
        let (nm, nc) = ((s[1] == s[0]) as usize + (s[2] == s[0] || s[2] == s[1]) as usize, (s[4] == s[3]) as usize);
        chk!(count(&d, M) == nm, "message overlaps: {} instead of {}", count(&d, M), nm);
        chk!(count(&d, C) == nc, "constructor overlaps: {} instead of {}", count(&d, C), nc);
        reach(["none", "one", "two"][nm]);
    } },
    Job { name: "c07_hex", prop: "C07", tier: "quick", need: &["equal", "different"], bound: "two messages or two constructors whose selectors are any two literals of 8 hexadecimal digits that agree outside 3 consecutive digits (3 positions)", f: || {
        let k = choose(2);
        let (p, q) = pick(&[("", "00000"), ("0000", "0"), ("9BAE9", "")]);
        let (a, b) = (format!("{}{}{}", p, text(3, b"0123456789abcdefABCDEF"), q), format!("{}{}{}", p, text(3, b"0123456789abcdef"), q));
        let eq = u32::from_str_radix(&a, 16) == u32::from_str_radix(&b, 16);
        let (code, at) = contract(&format!(", selector = 0x{}", a), &format!(", selector = 0x{}", b), ["message", "constructor"][k], ["constructor", "message"][k], 0);
        verdict(&code, version(choose(2)), [M, C][k], eq, at, &[[C, M][k]]);
    } },
    Job { name: "c07_dec", prop: "C07", tier: "quick", need: &["equal", "different"], bound: "two messages, one selector any literal of 3 hexadecimal digits, the other any decimal literal of 3 digits", f: || {
        let (a, b) = (text(3, b"0123456789abcdef"), text(3, b"0123456789"));
        let eq = u32::from_str_radix(&a, 16) == u32::from_str_radix(&b, 10);
        let (code, at) = contract(&format!(", selector = {}", b), &format!(", selector = 0x{}", a), "message", "constructor", 1);
        verdict(&code, Version::V5, M, eq, at, &[C]);
    } },
    Job { name: "c07_ids", prop: "C07", tier: "quick", need: &["equal", "different"], bound: "two chain extension functions whose ids are any pair of 3 values, one in any of 8 notations, both versions, with or without a third one in between", f: || {
        let v = version(choose(2));
        let vals = [10u32, 16, 65535];
        let (i, j) = (choose(3), choose(3));
        let mid = pick(&["", "    #[ink(function = 7, handle_status = false)]\n    fn cc();\n\n"]);
        let mid = if v == Version::V4 { mid.replace("function", "extension") } else { mid.to_string() };
        let (x, y) = (choose(NOT), choose(2));
        let (a, b) = (notation(vals[i], x), notation(vals[j], y));
        let (code, at) = chain(v, &a, &b, &mid);
        let (pat, other) = if v == Version::V5 { (FN, EX) } else { (EX, FN) };
        verdict(&code, v, pat, i == j, at, &[other]);
    } },
    Job { name: "c07_idhex", prop: "C07", tier: "quick", need: &["equal", "different"], bound: "two chain extension functions, ids any literals of 8 (4 for ink! 5) hexadecimal digits that agree outside 3 consecutive digits, both versions", f: || {
        let v = version(choose(2));
        let (p, q) = if v == Version::V5 { pick(&[("", "0"), ("F", "")]) } else { pick(&[("0000", "1"), ("F0", "000")]) };
        let (a, b) = (format!("{}{}{}", p, text(3, b"0123456789abcdef"), q), format!("{}{}{}", p, text(3, b"0123456789abcdefABCDEF"), q));
        let eq = u32::from_str_radix(&a, 16) == u32::from_str_radix(&b, 16);
        let (code, at) = chain(v, &format!("0x{}", a), &format!("0x{}", b), "");
        verdict(&code, v, if v == Version::V5 { FN } else { EX }, eq, at, &[if v == Version::V5 { EX } else { FN }]);
    } },
];
