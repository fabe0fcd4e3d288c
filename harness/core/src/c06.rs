//! C06: an attribute argument value is flagged exactly when its type is wrong.
use crate::chk;
use crate::doc::*;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

const U16: u32 = 1; const U32: u32 = 2; const WILD: u32 = 4; const AT: u32 = 8; const STR: u32 = 16; const IDENT: u32 = 32; const HEX: u32 = 64; const URL: u32 = 128; const BOOL: u32 = 256; const PATH: u32 = 512; const ABSENT: u32 = 1024;

const MSG: (&str, &str) = ("#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n\n    impl C {\n        #[ink(constructor)]\n        pub fn new() -> Self { C {} }\n\n        #[ink(message, ", ")]\n        pub fn get(&self) {}\n    }\n}\n");
const CTOR: (&str, &str) = ("#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n\n    impl C {\n        #[ink(message)]\n        pub fn get(&self) {}\n\n        #[ink(constructor, ", ")]\n        pub fn new() -> Self { C {} }\n    }\n}\n");
const EVENT: (&str, &str) = ("#[ink::contract]\nmod c {\n    #[ink(event, ", ")]\n    pub struct E { a: u8 }\n}\n");
const EVENT2: (&str, &str) = ("#[ink::event(", ")]\npub struct E { a: u8 }\n");
const IMPL: (&str, &str) = ("#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n\n    #[ink(impl, ", ")]\n    impl C {\n        #[ink(constructor)]\n        pub fn new() -> Self { C {} }\n        #[ink(message)]\n        pub fn get(&self) {}\n    }\n}\n");
const TRAIT: (&str, &str) = ("#[ink::trait_definition(", ")]\npub trait T {\n    #[ink(message)]\n    fn get(&self);\n}\n");
const TFN: (&str, &str) = ("#[ink::trait_definition]\npub trait T {\n    #[ink(message, ", ")]\n    fn get(&self);\n}\n");
const CONTRACT: (&str, &str) = ("#[ink::contract(", ")]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n}\n");
const ITEM: (&str, &str) = ("#[ink::storage_item(", ")]\nstruct S { a: u8 }\n");
const EXT4: (&str, &str) = ("#[ink::chain_extension]\npub trait X {\n    type ErrorCode = E;\n\n    #[ink(extension = 9, ", ")]\n    fn f();\n}\n");
const EXT4B: (&str, &str) = ("#[ink::chain_extension]\npub trait X {\n    type ErrorCode = E;\n\n    #[ink(", ")]\n    fn f();\n}\n");
const EXT5: (&str, &str) = ("#[ink::chain_extension(extension = 1)]\npub trait X {\n    type ErrorCode = E;\n\n    #[ink(function = 9, ", ")]\n    fn f();\n}\n");
const EXT5B: (&str, &str) = ("#[ink::chain_extension(extension = 1)]\npub trait X {\n    type ErrorCode = E;\n\n    #[ink(", ")]\n    fn f();\n}\n");
const EXT5C: (&str, &str) = ("#[ink::chain_extension(", ")]\npub trait X {\n    type ErrorCode = E;\n\n    #[ink(function = 1)]\n    fn f();\n}\n");
const E2E: (&str, &str) = ("#[ink_e2e::test(", ")]\nasync fn t() {}\n");
const NODE: (&str, &str) = ("#[ink_e2e::test(backend(node(", ")))]\nasync fn t() {}\n");
const RT: (&str, &str) = ("#[ink_e2e::test(backend(runtime_only(", ")))]\nasync fn t() {}\n");
const TOPIC: (&str, &str) = ("#[ink::contract]\nmod c {\n    #[ink(event)]\n    pub struct E {\n        #[ink(", ")]\n        a: u8,\n    }\n}\n");

struct A { name: &'static str, v: u8, at: (&'static str, &'static str), ok: u32 }
const fn a(name: &'static str, v: u8, at: (&'static str, &'static str), ok: u32) -> A { A { name, v, at, ok } }
/// Argument, versions (4, 5, 9 = both), place, accepted values.
static ARGS: &[A] = &[
    a("selector", 4, MSG, U32 | WILD), a("selector", 5, MSG, U32 | WILD | AT), a("selector", 9, CTOR, U32 | WILD),
    a("selector", 4, TFN, U32 | WILD), a("selector", 5, TFN, U32 | WILD | AT),
    a("payable", 9, MSG, ABSENT), a("default", 9, MSG, ABSENT), a("payable", 9, CTOR, ABSENT), a("default", 9, CTOR, ABSENT),
    a("anonymous", 9, EVENT, ABSENT), a("signature_topic", 5, EVENT, HEX), a("anonymous", 5, EVENT2, ABSENT), a("signature_topic", 5, EVENT2, HEX), a("topic", 9, TOPIC, ABSENT),
    a("namespace", 9, IMPL, IDENT), a("namespace", 9, TRAIT, IDENT), a("keep_attr", 9, TRAIT, STR), a("keep_attr", 9, CONTRACT, STR), a("env", 9, CONTRACT, PATH),
    a("derive", 9, ITEM, BOOL), a("handle_status", 4, EXT4, BOOL), a("handle_status", 5, EXT5, BOOL),
    a("extension", 4, EXT4B, U32), a("function", 5, EXT5B, U16), a("extension", 5, EXT5C, U16),
    a("environment", 9, E2E, PATH), a("additional_contracts", 4, E2E, STR), a("keep_attr", 4, E2E, STR), a("url", 5, NODE, URL), a("sandbox", 5, RT, PATH),
];
const H62: &str = "11111111111111111111111111111111111111111111111111111111111111";
static VALS: &[(&str, u32)] = &[
    ("", ABSENT), (" =", 0), (" = 1", U16 | U32), (" = 65535", U16 | U32), (" = 65536", U32), (" = 4294967295", U32), (" = 4294967296", 0), (" = 0xffff", U16 | U32), (" = 0x1_0000", U32),
    (" = 0xFfFfFfFf", U32), (" = 0x100000000", 0), (" = 0b11", U16 | U32), (" = 0o17", U16 | U32), (" = 1_0", U16 | U32), (" = 7u32", U16 | U32), (" = 007", U16 | U32), (" = 1.5", 0), (" = -1", 0), (" = 'a'", 0), (" = b'a'", 0),
    (" = \"foo\"", STR | IDENT), (" = \"foo bar\"", STR), (" = \"a::b\"", STR), (" = \"\"", STR), (" = \"1a\"", STR), (" = \"fn\"", STR), (" = \"_x1\"", STR | IDENT), (" = \" x\"", STR), (" = r\"foo\"", STR | IDENT), (" = r#\"foo\"#", STR | IDENT), (" = r\"a-b\"", STR), (" = \"a\\u{62}\"", STR | IDENT), (" = b\"foo\"", 0),
    (" = \"ws://a:99\"", STR | URL), (" = \"ws:/a\"", STR), (" = \"H11\"", STR | HEX), (" = \"H\"", STR), (" = \"H111\"", STR), (" = \"0xHaF\"", STR | HEX), (" = \"H1g\"", STR),
    (" = true", BOOL), (" = false", BOOL), (" = \"true\"", STR | 2048), (" = _", WILD), (" = @", AT), (" = foo", PATH), (" = a::b", PATH), (" = ::a::b", PATH), (" = crate::A", PATH), (" = foo()", 0), (" = a.b", 0), (" = !true", 0), (" = (1)", 0),
];
fn verdict(code: &str, v: Version, name: &str, arg: usize, end: usize, want: bool) {
    let d = Analysis::new(code, v).diagnostics();
    note_str(code);
    note(want as u64);
    let pre = format!("`{}` argument should", name);
    let (s, e) = (arg, end);
    let hits = d.iter().filter(|x| x.message.starts_with(&pre)).count();
    if want { chk!(hits == 0, "valid value of `{}` flagged ({:?})", name, v) } else {
        chk!(hits == 1, "wrong value of `{}` flagged {} times ({:?})", name, hits, v);
        for x in d.iter().filter(|x| x.message.starts_with(&pre)) { chk!(se(x.range) == (s, e), "value diagnostic of `{}` is not on the argument", name) }
    }
    for x in &d { chk!(!x.message.contains("nknown"), "known argument reported as unknown: {}", gist(&x.message)) }
}
fn versions(v: u8) -> Version { match v { 4 => Version::V4, 5 => Version::V5, _ => version(choose(2)) } }
pub static JOBS: &[Job] = &[
    Job { name: "c06_values", prop: "C06", tier: "quick", need: &["ok", "bad"], bound: "every argument of ARGS (30 argument/place/version combinations) x every value of VALS (53 literals of every kind)", f: || {
        let a = &ARGS[choose(ARGS.len())];
        let v = versions(a.v);
        let (val, class) = VALS[choose(VALS.len())];
        let class = if class & 2048 != 0 { STR } else { class };
        let val = val.replace('H', H62);
        let code = format!("{}{}{}{}", a.at.0, a.name, val, a.at.1);
        // "true" between quotes is a keyword, not an identifier: nothing is claimed about it
        let ok = a.ok & class != 0;
        reach(if ok { "ok" } else { "bad" });
        verdict(&code, v, a.name, a.at.0.len(), a.at.0.len() + a.name.len() + val.len(), ok);
    } },
    Job { name: "c06_layout", prop: "C06", tier: "quick", need: &["ok", "bad"], bound: "every argument of ARGS x 6 values x 5 layouts around the value, and a following argument separator", f: || {
        let a = &ARGS[choose(ARGS.len())];
        let v = versions(a.v);
        let (val, class) = pick(&[("1", U16 | U32), ("\"foo\"", STR | IDENT), ("true", BOOL), ("a :: b", PATH), ("_", WILD), ("\"H11\"", STR | HEX), ("\"x://y\"", STR | URL)]);
        let val = val.replace('H', H62);
        let (l, r) = pick(&[("=", ""), ("  =\n\t", "  "), (" /* = 5 */ = /* \"x\" */ ", " /* ) */ "), ("=", "// no\n"), (" = ", ",")]);
        let code = format!("{}{}{}{}{}{}", a.at.0, a.name, l, val, r, a.at.1);
        let ok = a.ok & class != 0;
        reach(if ok { "ok" } else { "bad" });
        verdict(&code, v, a.name, a.at.0.len(), a.at.0.len() + a.name.len() + l.len() + val.len(), ok);
    } },
    Job { name: "c06_int", prop: "C06", tier: "quick", need: &["ok", "bad"], bound: "selector (u32), extension (u32, u16) and function (u16): every hexadecimal literal of 4, 5, 8 or 9 digits and every decimal literal of 5 digits, or with a 6- or 7-digit prefix followed by 3 digits", f: || {
        let (name, v, at, max) = pick(&[("selector", Version::V5, MSG, u32::MAX as u64), ("extension", Version::V4, EXT4B, u32::MAX as u64), ("function", Version::V5, EXT5B, 65535), ("extension", Version::V5, EXT5C, 65535)]);
        let (val, n) = if choose(2) == 0 { let d = text(pick(&[4, 5, 8, 9]), b"0123456789abcdefABCDEF"); let n = u64::from_str_radix(&d, 16).unwrap(); (format!("0x{}", d), n) }
            else { let d = match choose(4) { 0 => text(5, b"0123456789"), 1 => format!("{}{}", "4294967", text(3, b"0123456789")), 2 => format!("{}{}", "000065", text(3, b"0123456789")), _ => format!("{}{}", "9999999", text(3, b"0123456789")) }; let n = d.parse::<u64>().unwrap(); (d, n) };
        let code = format!("{}{} = {}{}", at.0, name, val, at.1);
        let ok = n <= max;
        if ok { reach("ok") } else { reach("bad") }
        verdict(&code, v, name, at.0.len(), at.0.len() + name.len() + 3 + val.len(), ok);
    } },
    Job { name: "c06_ident", prop: "C06", tier: "quick", need: &["ok", "bad"], bound: "namespace: every string of 1..=3 characters over letters, digits, `_`, `-`, ` `, `:`, `.`, `'`", f: || {
        let at = pick(&[IMPL, TRAIT]);
        let n = 1 + choose(3);
        let s = ctext(n, b"ak_0- :'");
        let b = s.as_bytes();
        let ok = (b[0].is_ascii_alphabetic() || b[0] == b'_') && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && s != "_";
        let code = format!("{}namespace = \"{}\"{}", at.0, s, at.1);
        if ok { reach("ok") } else { reach("bad") }
        verdict(&code, version(choose(2)), "namespace", at.0.len(), at.0.len() + 14 + s.len(), ok);
    } },
];
