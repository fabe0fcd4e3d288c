//! C13: syntax of one ink! version is never suggested or accepted for the other.
use crate::c11::{CTX, version_of};
use crate::chk;
use crate::cur;
use crate::doc::*;
use crate::gen;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

/// ink! syntax of one version only, in a document that is otherwise fine in both; `«..»` marks the construct.
struct Only { v: Version, t: &'static str }
const P: &str = "#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n\n    impl C {\n        #[ink(constructor)]\n        pub fn new() -> Self { C {} }\n\n        #[ink(message)]\n        pub fn get(&self) {}\n";
static ONLY: &[Only] = &[
    Only { v: Version::V5, t: "«#[ink::event]»\npub struct E {\n    a: u8,\n}\n" },
    Only { v: Version::V5, t: "«#[ink::event(anonymous)]»\npub struct E {\n    #[ink(topic)]\n    a: u8,\n}\n" },
    Only { v: Version::V5, t: "«#[ink::event(signature_topic = \"H\")]»\npub struct E {\n    a: u8,\n}\n" },
    Only { v: Version::V5, t: "«#[ink::scale_derive(Encode, Decode)]»\npub struct E {\n    a: u8,\n}\n" },
    Only { v: Version::V5, t: "«#[ink::scale_derive(TypeInfo)]»\npub enum E {\n    A,\n}\n" },
    Only { v: Version::V5, t: "P\n        #[ink(message, selector = _)]\n        pub fn a(&self) {}\n\n        #[ink(message, «selector = @»)]\n        pub fn b(&self) {}\n    }\n}\n" },
    Only { v: Version::V5, t: "P    }\n\n    #[ink(event, «signature_topic = \"H\"»)]\n    pub struct E {\n        a: u8,\n    }\n}\n" },
    Only { v: Version::V5, t: "P    }\n\n    #[ink(event)]\n    #[ink(«signature_topic = \"H\"»)]\n    pub struct E {\n        a: u8,\n    }\n}\n" },
    Only { v: Version::V5, t: "#[ink::chain_extension«(extension = D)»]\npub trait X {\n    type ErrorCode = ();\n}\n" },
    Only { v: Version::V4, t: "«#[ink::chain_extension]»\npub trait X {\n    type ErrorCode = ();\n}\n" },
    Only { v: Version::V5, t: "#[ink::chain_extension(extension = 1)]\npub trait X {\n    type ErrorCode = ();\n\n    «#[ink(function = D)]\n    fn a();»\n}\n" },
    Only { v: Version::V4, t: "#[ink::chain_extension]\npub trait X {\n    type ErrorCode = ();\n\n    «#[ink(extension = D)]\n    fn a();»\n}\n" },
    Only { v: Version::V5, t: "#[ink_e2e::test(«backend(node)»)]\nasync fn t() {}\n" },
    Only { v: Version::V5, t: "#[ink_e2e::test(«backend(node(url = \"ws://127.0.0.1:9000\"))»)]\nasync fn t() {}\n" },
    Only { v: Version::V5, t: "#[ink_e2e::test(«backend(runtime_only)»)]\nasync fn t() {}\n" },
    Only { v: Version::V5, t: "#[ink_e2e::test(«backend(runtime_only(sandbox = ink_e2e::MinimalSandbox))»)]\nasync fn t() {}\n" },
    Only { v: Version::V4, t: "#[ink_e2e::test(«additional_contracts = \"a/Cargo.toml\"»)]\nasync fn t() {}\n" },
    Only { v: Version::V4, t: "#[ink_e2e::test(«keep_attr = \"a\"»)]\nasync fn t() {}\n" },
    Only { v: Version::V4, t: "#[ink_e2e::test(environment = ink::env::DefaultEnvironment, «keep_attr = \"a\"»)]\nasync fn t() {}\n" },
    Only { v: Version::V4, t: "#[ink_e2e::test(«additional_contracts = \"a/Cargo.toml\"», environment = ink::env::DefaultEnvironment)]\nasync fn t() {}\n" },
];
fn only() {
    let o = &ONLY[choose(ONLY.len())];
    let hex = "1111111111111111111111111111111111111111111111111111111111111111";
    let t = o.t.replace('P', P).replace('H', hex);
    let t = if t.contains("= D") { t.replace("= D", &format!("= {}", text(1, b"123456789"))) } else { t };
    let lay = choose(3);
    let t = layout(&t, [0, 2, 4][lay]);
    let (s, e) = (t.find('«').unwrap(), t.find('»').unwrap() - '«'.len_utf8());
    let code = t.replace('«', "").replace('»', "");
    note_str(&code);
    for k in 0..2 {
        let v = version(k);
        let d: Vec<Diagnostic> = Analysis::new(&code, v).diagnostics().into_iter().filter(|d| { let (a, b) = se(d.range); a < e && s < b && !d.message.contains("ErrorCode") }).collect();
        if v == o.v { for x in &d { chk!(false, "{:?} syntax rejected in {:?}: {}", o.v, v, gist(&x.message)) } reach("own") } else { chk!(!d.is_empty(), "{:?} syntax accepted in {:?}", o.v, v); reach("other") }
    }
}
/// Documents without version specific syntax get the same verdict in both versions.
fn specific(code: &str) -> bool { ["signature_topic", "ink::event", "scale_derive", "function", "backend", "extension", "additional_contracts", "selector = @", "selector = _", "handle_status", "ink_e2e"].iter().any(|w| code.contains(w)) }
fn same(f: &'static str, k: usize) {
    let g = gen::expand(gen::raw(f), Version::V4, k);
    assume(!specific(&g.code));
    note_str(&g.code);
    let get = |v: Version| -> Vec<(usize, usize, bool)> { let mut r: Vec<_> = Analysis::new(&g.code, v).diagnostics().iter().map(|d| { let (a, b) = se(d.range); (a, b, d.severity == Severity::Error) }).collect(); r.sort(); r.dedup(); r };
    let (a, b) = (get(Version::V4), get(Version::V5));
    for x in &a { if !b.contains(x) { note_str(&g.code[x.0..x.1]) } chk!(b.contains(x), "reported in ink! 4 only") }
    for x in &b { if !a.contains(x) { note_str(&g.code[x.0..x.1]) } chk!(a.contains(x), "reported in ink! 5 only") }
    if a.is_empty() { reach("none") } else { reach("some") }
}
/// Does `text` contain syntax that does not exist in version `v`?
fn foreign(v: Version, text: &str) -> Option<&'static str> {
    let t = text;
    if v == Version::V4 {
        for w in ["ink::event", "scale_derive", "signature_topic", "function =", "backend", "runtime_only", "selector = @", "chain_extension(extension"] { if t.contains(w) { return Some(w) } }
    } else {
        if t.contains("additional_contracts") { return Some("additional_contracts") }
        if t.contains("#[ink(extension") { return Some("#[ink(extension") }
    }
    None
}
fn suggestions(a: &Analysis, v: Version, s: usize, t: usize) {
    let mut texts: Vec<(String, &'static str)> = vec![];
    if choose(2) == 0 {
        for c in a.completions(at(t)) { texts.push((c.edit.text.clone(), "completion")); if let Some(x) = c.edit.snippet { texts.push((x, "completion")) } }
    } else {
        for c in a.actions(rng(s, t)) { if c.label.contains("Migrate") { continue } for e in c.edits { texts.push((e.text.clone(), "action")); if let Some(x) = e.snippet { texts.push((x, "action")) } } }
    }
    for (x, w) in &texts { reach(w); let f = foreign(v, x); if f.is_some() { note_str(x) } chk!(f.is_none(), "{} in {:?}: `{}` is not part of that version", w, v, f.unwrap_or("")) }
    reach("asked");
}
fn suggest(f: &'static str, k: usize) {
    let g = gen::family(f, k);
    note_str(&g.code);
    let a = Analysis::new(&g.code, g.v);
    let o = cur::anywhere(g.code.len());
    assume(g.code.is_char_boundary(o));
    suggestions(&a, g.v, o, o);
}
fn suggest_odd() {
    let d = cur::ODD[choose(cur::ODD.len())];
    let v = version(choose(2));
    note_str(d);
    let a = Analysis::new(d, v);
    let o = cur::anywhere(d.len());
    assume(d.is_char_boundary(o));
    suggestions(&a, v, o, o);
}
/// Arguments of the bare `#[ink(..)]` and macros at every kind of item.
fn suggest_ctx() {
    let c = &CTX[choose(CTX.len())];
    let v = version_of(c);
    let typed = pick(&["", "e", "f", "s", "a", "b", "k"]);
    let close = pick(&[")]", "]", ""]);
    let code = format!("{}{}{}{}{}", c.pre, c.open, typed, close, c.post);
    let o = c.pre.len() + c.open.len() + typed.len();
    note_str(&code);
    let a = Analysis::new(&code, v);
    for x in a.completions(at(o)) {
        let name = x.label.split(|ch: char| ch == ' ' || ch == '=' || ch == '(').next().unwrap_or("");
        let bad = if v == Version::V4 { matches!(name, "signature_topic" | "function" | "backend" | "Encode" | "Decode" | "TypeInfo" | "event]" ) && !(name == "event") || name == "extension" && c.open.contains("chain_extension") } else { name == "additional_contracts" || name == "keep_attr" && c.open.contains("e2e") || name == "extension" && c.open == "#[ink(" };
        chk!(!bad, "completion `{}` in {:?} at {}", name, v, c.name);
        reach("completion");
    }
    reach("asked");
}
fn fixes(f: &'static str, k: usize) {
    let g = gen::family(f, k);
    note_str(&g.code);
    for d in Analysis::new(&g.code, g.v).diagnostics() { for q in d.quickfixes.iter().flatten() {
        for e in &q.edits {
            let mut bad = foreign(g.v, &e.text);
            if bad.is_none() { bad = e.snippet.as_ref().and_then(|s| foreign(g.v, s)) }
            // text that was there already may be moved or kept
            if let Some(w) = bad { if g.code.contains(w) && w != "#[ink(extension" { bad = None } }
            if bad.is_some() { note_str(&e.text) }
            chk!(bad.is_none(), "quickfix in {:?}: `{}` is not part of that version [{} / {}]", g.v, bad.unwrap_or(""), gist(&d.message), gist(&q.label));
            reach("fix");
        }
    } }
}
macro_rules! fam { ($fun:ident, $need:expr, $bound:literal, $($n:literal, $f:literal, $k:literal, $tier:literal;)*) => { &[$(Job { name: $n, prop: "C13", tier: $tier, need: $need, bound: concat!("family ", $f, ", at most ", $k, " holes differ from the default; ", $bound), f: || $fun($f, $k) }),*] } }
pub static JOBS: &[Job] = &[
    Job { name: "c13_only", prop: "C13", tier: "quick", need: &["own", "other"], bound: "20 constructs of one version in 3 layouts (with a symbolic digit), analysed as both versions", f: only },
    Job { name: "c13_suggest_ctx", prop: "C13", tier: "quick", need: &["completion"], bound: "17 attribute places, 7 prefixes, 3 closings", f: suggest_ctx },
    Job { name: "c13_suggest_odd", prop: "C13", tier: "quick", need: &["completion", "action"], bound: "22 documents, every cursor offset (symbolic), both versions", f: suggest_odd },
];
pub static JOBS_SAME: &[Job] = fam!(same, &["some"], "V4 and V5 diagnostics of one document",
    "c13_same_message", "message", 1, "quick";
    "c13_same_constructor", "constructor", 1, "quick";
    "c13_same_contract", "contract", 1, "quick";
    "c13_same_event", "event", 1, "quick";
    "c13_same_trait_def", "trait_def", 1, "quick";
    "c13_same_impl", "impl", 1, "quick";
    "c13_same_trait_impl", "trait_impl", 1, "quick";
    "c13_same_place", "place", 1, "quick";
    "c13_same2_message", "message", 2, "thorough";
    "c13_same2_constructor", "constructor", 2, "thorough";
    "c13_same2_contract", "contract", 2, "thorough";
    "c13_same2_event", "event", 2, "thorough";
    "c13_same2_trait_def", "trait_def", 2, "thorough";
    "c13_same2_impl", "impl", 2, "thorough";
    "c13_same2_trait_impl", "trait_impl", 2, "thorough";
    "c13_same2_place", "place", 2, "thorough";
);
pub static JOBS_SUG: &[Job] = fam!(suggest, &["asked"], "every cursor offset (symbolic), completions and actions",
    "c13_sug_contract", "contract", 0, "quick";
    "c13_sug_event", "event", 0, "quick";
    "c13_sug_trait_def", "trait_def", 0, "quick";
    "c13_sug_chain4", "chain4", 0, "quick";
    "c13_sug_chain5", "chain5", 0, "quick";
    "c13_sug_misc", "misc", 0, "quick";
    "c13_sug_place", "place", 0, "quick";
    "c13_sug1_contract", "contract", 1, "thorough";
    "c13_sug1_misc", "misc", 1, "thorough";
    "c13_sug1_place", "place", 1, "thorough";
    "c13_sug1_chain4", "chain4", 1, "thorough";
    "c13_sug1_chain5", "chain5", 1, "thorough";
);
pub static JOBS_FIX: &[Job] = fam!(fixes, &["fix"], "every quickfix",
    "c13_fix_message", "message", 1, "quick";
    "c13_fix_contract", "contract", 1, "quick";
    "c13_fix_event", "event", 1, "quick";
    "c13_fix_event2", "event2", 1, "quick";
    "c13_fix_chain4", "chain4", 1, "quick";
    "c13_fix_chain5", "chain5", 1, "quick";
    "c13_fix_misc", "misc", 1, "quick";
    "c13_fix_place", "place", 1, "quick";
    "c13_fix2_misc", "misc", 2, "thorough";
    "c13_fix2_place", "place", 2, "thorough";
    "c13_fix2_chain4", "chain4", 2, "thorough";
    "c13_fix2_chain5", "chain5", 2, "thorough";
);
