//! C11: completions fit the prefix, position, version and existing arguments.
use crate::chk;
use crate::doc::*;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

/// A place for an ink! attribute: text before, opening of the attribute, text after, what ink! allows there.
pub struct Ctx { pub name: &'static str, pub v4: bool, pub v5: bool, pub pre: &'static str, pub open: &'static str, pub post: &'static str, pub args: fn(Version, &[&str]) -> Vec<&'static str> }

fn sub(all: &[&'static str], have: &[&str]) -> Vec<&'static str> { all.iter().copied().filter(|a| !have.contains(a)).collect() }
fn callable(_: Version, h: &[&str]) -> Vec<&'static str> {
    let both = h.contains(&"message") || h.contains(&"constructor");
    sub(if both { &["default", "payable", "selector"] } else { &["constructor", "default", "message", "payable", "selector"] }, h)
}
fn trait_fn(_: Version, h: &[&str]) -> Vec<&'static str> { sub(&["default", "message", "payable", "selector"], h) }
fn structs(v: Version, h: &[&str]) -> Vec<&'static str> {
    let v5 = v == Version::V5;
    if h.is_empty() { return if v5 { vec!["anonymous", "event", "signature_topic", "storage"] } else { vec!["anonymous", "event", "storage"] } }
    if h.contains(&"storage") { return vec![] }
    let mut r = vec!["event"];
    if !h.contains(&"anonymous") && !h.contains(&"signature_topic") { r.push("anonymous"); if v5 { r.push("signature_topic") } }
    sub(&r, h)
}
fn event_mac(_: Version, h: &[&str]) -> Vec<&'static str> { if h.is_empty() { vec!["anonymous", "signature_topic"] } else { vec![] } }
fn field(_: Version, h: &[&str]) -> Vec<&'static str> { sub(&["topic"], h) }
fn impls(_: Version, h: &[&str]) -> Vec<&'static str> { sub(&["impl", "namespace"], h) }
fn trait_impls(_: Version, h: &[&str]) -> Vec<&'static str> { sub(&["impl"], h) }
fn ext(v: Version, h: &[&str]) -> Vec<&'static str> { sub(if v == Version::V5 { &["function", "handle_status"] } else { &["extension", "handle_status"] }, h) }
fn contract_mac(_: Version, h: &[&str]) -> Vec<&'static str> { sub(&["env", "keep_attr"], h) }
fn trait_mac(_: Version, h: &[&str]) -> Vec<&'static str> { sub(&["keep_attr", "namespace"], h) }
fn item_mac(_: Version, h: &[&str]) -> Vec<&'static str> { sub(&["derive"], h) }
fn e2e_mac(v: Version, h: &[&str]) -> Vec<&'static str> { sub(if v == Version::V5 { &["backend", "environment"] } else { &["additional_contracts", "environment", "keep_attr"] }, h) }
fn ext_mac(v: Version, h: &[&str]) -> Vec<&'static str> { sub(if v == Version::V5 { &["extension"] } else { &[] }, h) }
fn scale_mac(_: Version, h: &[&str]) -> Vec<&'static str> { sub(&["Decode", "Encode", "TypeInfo"], h) }
fn nothing(_: Version, _: &[&str]) -> Vec<&'static str> { vec![] }

const C0: &str = "#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n\n";
pub static CTX: &[Ctx] = &[
    Ctx { name: "fn in impl of contract", v4: true, v5: true, pre: "#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct C {}\n\n    impl C {\n        ", open: "#[ink(", post: "\n        pub fn f(&self) {}\n    }\n}\n", args: callable },
    Ctx { name: "fn in trait definition", v4: true, v5: true, pre: "#[ink::trait_definition]\npub trait T {\n    ", open: "#[ink(", post: "\n    fn f(&self);\n}\n", args: trait_fn },
    Ctx { name: "struct in contract", v4: true, v5: true, pre: "#[ink::contract]\nmod c {\n    ", open: "#[ink(", post: "\n    pub struct C {}\n}\n", args: structs },
    Ctx { name: "field of event", v4: true, v5: true, pre: "#[ink::contract]\nmod c {\n    #[ink(event)]\n    pub struct E {\n        ", open: "#[ink(", post: "\n        a: u8,\n    }\n}\n", args: field },
    Ctx { name: "field of event macro", v4: false, v5: true, pre: "#[ink::event]\npub struct E {\n    ", open: "#[ink(", post: "\n    a: u8,\n}\n", args: field },
    Ctx { name: "impl in contract", v4: true, v5: true, pre: C0, open: "#[ink(", post: "\n    impl C {\n        #[ink(message)]\n        pub fn f(&self) {}\n    }\n}\n", args: impls },
    Ctx { name: "trait impl in contract", v4: true, v5: true, pre: C0, open: "#[ink(", post: "\n    impl Tr for C {\n        #[ink(message)]\n        fn f(&self) {}\n    }\n}\n", args: trait_impls },
    Ctx { name: "fn in chain extension", v4: true, v5: false, pre: "#[ink::chain_extension]\npub trait X {\n    type ErrorCode = E;\n\n    ", open: "#[ink(", post: "\n    fn f();\n}\n", args: ext },
    Ctx { name: "fn in chain extension", v4: false, v5: true, pre: "#[ink::chain_extension(extension = 1)]\npub trait X {\n    type ErrorCode = E;\n\n    ", open: "#[ink(", post: "\n    fn f();\n}\n", args: ext },
    Ctx { name: "contract macro", v4: true, v5: true, pre: "", open: "#[ink::contract(", post: "\nmod c {}\n", args: contract_mac },
    Ctx { name: "trait_definition macro", v4: true, v5: true, pre: "use a::b;\n", open: "#[ink::trait_definition(", post: "\npub trait T {}\n", args: trait_mac },
    Ctx { name: "storage_item macro", v4: true, v5: true, pre: "", open: "#[ink::storage_item(", post: "\nstruct S {}\n", args: item_mac },
    Ctx { name: "event macro", v4: false, v5: true, pre: "", open: "#[ink::event(", post: "\npub struct S {}\n", args: event_mac },
    Ctx { name: "e2e test macro", v4: true, v5: true, pre: "", open: "#[ink_e2e::test(", post: "\nasync fn t() {}\n", args: e2e_mac },
    Ctx { name: "chain_extension macro", v4: true, v5: true, pre: "", open: "#[ink::chain_extension(", post: "\npub trait X {}\n", args: ext_mac },
    Ctx { name: "scale_derive macro", v4: false, v5: true, pre: "", open: "#[ink::scale_derive(", post: "\npub struct S {}\n", args: scale_mac },
    Ctx { name: "test macro", v4: true, v5: true, pre: "", open: "#[ink::test(", post: "\nfn t() {}\n", args: nothing },
];
const H64: &str = "signature_topic = \"1111111111111111111111111111111111111111111111111111111111111111\"";
/// Arguments that may be there already.
pub fn spelled(a: &'static str) -> &'static str { match a { "selector" => "selector = 1", "signature_topic" => H64, "namespace" => "namespace = \"n\"", "keep_attr" => "keep_attr = \"a, b\"", "env" => "env = a::B", "environment" => "environment = a::B", "derive" => "derive = true", "extension" => "extension = 5", "function" => "function = 5", "handle_status" => "handle_status = false", "additional_contracts" => "additional_contracts = \"a/b.toml\"", "backend" => "backend(node)", x => x } }

pub fn version_of(c: &Ctx) -> Version { if c.v4 && c.v5 { version(choose(2)) } else { version(c.v5 as usize) } }

fn args_job(two: bool, sym: usize) {
    let c = &CTX[choose(CTX.len())];
    let v = version_of(c);
    // what is there already, one attribute or a sibling one
    let mut have: Vec<&'static str> = vec![];
    let n = if sym > 0 { 0 } else { choose(if two { 4 } else { 3 }) };
    for _ in 0..n { let l = (c.args)(v, &have); assume(!l.is_empty()); have.push(l[choose(l.len())]) }
    let many = n >= 2;
    let sibling = n > 0 && c.open == "#[ink(" && choose(2) == 1;
    let want = (c.args)(v, &have);
    // the typed prefix: of one of the allowed arguments, or something else
    let typed = if sym > 0 { text(1 + choose(sym), b"abcdefghijklmnopqrstuvwxyz_DET") } else { match choose(4) {
        0 => String::new(),
        1 => { assume(!want.is_empty()); want[choose(want.len())][..1].to_string() }
        2 => { assume(!want.is_empty()); let w = want[choose(want.len())]; w[..w.len().min(3)].to_string() }
        _ => "zz".to_string(),
    } };
    let close = if sym > 0 { ")]" } else if many { ")]" } else { pick(&[")]", " )]", "]", ""]) };
    let mut code = String::from(c.pre);
    let lead: Vec<&str> = have.iter().map(|a| spelled(a)).collect();
    if sibling { for l in &lead { code.push_str(&format!("#[ink({})]\n    ", l)) } code.push_str(c.open) } else {
        code.push_str(c.open);
        for l in &lead { code.push_str(l); code.push_str(", ") }
    }
    let s = code.len();
    code.push_str(&typed);
    let o = code.len();
    code.push_str(close);
    code.push_str(c.post);
    note_str(&format!("{}|{}", &code[..o], &code[o..]));
    let r = Analysis::new(&code, v).completions(at(o));
    let mut seen: Vec<&str> = vec![];
    for x in &r {
        note_str(&x.label);
        let name = x.label.split(|ch: char| ch == ' ' || ch == '=' || ch == '(').next().unwrap_or("");
        chk!(name.starts_with(&typed as &str), "{}: `{}` does not extend the typed prefix", c.name, name);
        // the item an unclosed attribute belongs to cannot be told, so what is particular to it is not required
        chk!(want.contains(&name) || name == "namespace" && c.name.starts_with("trait impl") && !close.ends_with(")]"), "{}: `{}` offered, not valid there ({:?})", c.name, name, v);
        chk!(!seen.contains(&name), "{}: `{}` offered twice", c.name, name);
        seen.push(name);
        chk!(x.range == x.edit.range, "{}: range of the edit differs from that of the completion", c.name);
        let (a, b) = se(x.edit.range);
        chk!(if typed.is_empty() { b <= o && a <= o && code[a..o].trim().is_empty() } else { (a, b) == (s, o) }, "{}: completion does not replace exactly the typed prefix", c.name);
        chk!(x.edit.text.trim_start().starts_with(name), "{}: text differs from the label", c.name);
        if let Some(sn) = &x.edit.snippet { chk!(snippet_agrees(sn, &x.edit.text), "{}: snippet differs from the text", c.name) }
    }
    for w in &want { if w.starts_with(&typed as &str) && *w != typed { chk!(seen.contains(w), "{}: `{}` is valid but not offered ({:?})", c.name, w, v) } }
    reach(if r.is_empty() { "nothing" } else { "offered" });
}
fn macros_of(item: &str, v: Version) -> Vec<&'static str> {
    let v5 = v == Version::V5;
    match item { "mod c {}" => vec!["ink::contract"], "pub trait T {}" => vec!["ink::chain_extension", "ink::trait_definition"], "struct S {}" => if v5 { vec!["ink::event", "ink::scale_derive", "ink::storage_item"] } else { vec!["ink::storage_item"] }, "enum S {}" => if v5 { vec!["ink::scale_derive", "ink::storage_item"] } else { vec!["ink::storage_item"] }, _ => vec!["ink::test", "ink_e2e::test"] }
}
pub static JOBS: &[Job] = &[
    Job { name: "c11_args", prop: "C11", tier: "quick", need: &["offered", "nothing"], bound: "17 places for an ink! attribute x versions x up to 2 arguments already present (same or sibling attribute) x typed prefix (empty, 1 or 3 letters of an allowed argument, none) x 4 endings (balanced or not)", f: || args_job(false, 0) },
    Job { name: "c11_args2", prop: "C11", tier: "quick", need: &["offered", "nothing"], bound: "as c11_args with up to 3 arguments already present", f: || args_job(true, 0) },
    Job { name: "c11_prefix", prop: "C11", tier: "quick", need: &["offered", "nothing"], bound: "17 places for an ink! attribute x versions x every typed prefix of 1..=2 bytes out of [a-z_DET] (symbolic)", f: || args_job(false, 2) },
    Job { name: "c11_prefix3", prop: "C11", tier: "thorough", need: &["offered", "nothing"], bound: "as c11_prefix with prefixes of 1..=3 bytes", f: || args_job(false, 3) },
    Job { name: "c11_macros", prop: "C11", tier: "quick", need: &["offered", "nothing"], bound: "attribute macro paths `ink::`/`ink_e2e::` + 0..=2 symbolic bytes of [a-z_] (all identifiers) or 7 longer prefixes on 5 kinds of items, both versions, 2 endings, with or without a foreign attribute or doc comment", f: || {
        let item = pick(&["mod c {}", "pub trait T {}", "struct S {}", "enum S {}", "fn t() {}", ""]);
        let v = version(choose(2));
        let krate = pick(&["ink", "ink_e2e"]);
        let all: Vec<&'static str> = if item.is_empty() { let mut a = vec!["ink::chain_extension", "ink::contract", "ink::storage_item", "ink::test", "ink::trait_definition", "ink_e2e::test"]; if v == Version::V5 { a.push("ink::event"); a.push("ink::scale_derive") } a } else { macros_of(item, v) };
        let symbolic; let typed: &str = if choose(2) == 1 { symbolic = text(1 + choose(2), b"abcdefghijklmnopqrstuvwxyz_"); &symbolic } else { pick(&["", "con", "cha", "tes", "sto", "zzz", "sca", "tra"]) };
        assume(!matches!(typed, "as" | "do" | "fn" | "if" | "in")); // keywords end the path
        let pre = pick(&["", "/// Doc.\n", "#[derive(Debug)]\n"]);
        let close = pick(&["]\n", "\n"]);
        let mut code = format!("{}#[{}::", pre, krate);
        let s = code.len();
        code.push_str(typed);
        let o = code.len();
        code.push_str(close); code.push_str(item); code.push('\n');
        note_str(&format!("{}|{}", &code[..o], &code[o..]));
        let r = Analysis::new(&code, v).completions(at(o));
        let want: Vec<&str> = all.iter().filter_map(|m| { let (k, n) = m.split_once("::").unwrap(); (k == krate && n.starts_with(typed)).then_some(n) }).collect();
        let mut seen: Vec<&str> = vec![];
        for x in &r {
            note_str(&x.label);
            let name = x.label.trim_start_matches("::");
            chk!(want.contains(&name), "macro `{}` offered, not valid there", name);
            chk!(!seen.contains(&name), "macro `{}` offered twice", name);
            seen.push(name);
            let (a, b) = se(x.edit.range);
            chk!(b == o && code[..a].ends_with(krate) || (a, b) == (s, o), "macro completion does not replace exactly the typed text");
            let new = apply(&code, std::slice::from_ref(&x.edit));
            chk!(new.contains(&format!("#[{}::{}{}", krate, name, &close[..1])), "completed attribute is not `{}`", name);
        }
        for w in &want { chk!(seen.contains(w), "macro `{}` is valid but not offered", w) }
        reach(if r.is_empty() { "nothing" } else { "offered" });
    } },
    Job { name: "c11_bracket", prop: "C11", tier: "quick", need: &["offered", "nothing"], bound: "cursor in a blank attribute `#[]` (white space around it, closed or not) on 6 kinds of items, both versions, alone or after another ink! attribute", f: || {
        let item = pick(&["mod c {}", "pub trait T {}", "struct S {}", "enum S {}", "fn t() {}", "const A: u8 = 0;"]);
        let v = version(choose(2));
        let other = choose(2) == 1;
        let (l, r_) = pick(&[("", "]"), (" ", "]"), (" ", " ]"), ("", " ]"), ("", "")]);
        let all = if item.starts_with("const") || other { vec![] } else { macros_of(item, v) };
        let mut code = if other { format!("#[{}]\n#[{}", match item { "mod c {}" => "ink::contract", "pub trait T {}" => "ink::trait_definition", "fn t() {}" => "ink::test", _ => "ink::storage_item" }, l) } else { format!("#[{}", l) };
        let o = code.len();
        code.push_str(r_); code.push('\n'); code.push_str(item); code.push('\n');
        note_str(&format!("{}|{}", &code[..o], &code[o..]));
        let r = Analysis::new(&code, v).completions(at(o));
        let mut seen: Vec<&str> = vec![];
        for x in &r {
            note_str(&x.label);
            let name = &x.label as &str;
            if name == "ink" || name == "ink_e2e" || name == "ink()" { continue }
            chk!(all.contains(&name), "macro `{}` offered in a blank attribute, not valid there", name);
            chk!(!seen.contains(&name), "macro `{}` offered twice", name);
            seen.push(name);
            let (a, b) = se(x.edit.range);
            chk!(a == b && code[a.min(o)..a.max(o)].trim().is_empty(), "macro completion replaces what was not typed");
            chk!(x.edit.text == name, "text differs from the label");
        }
        if r_.ends_with(']') { for w in &all { chk!(seen.contains(w), "macro `{}` is valid but not offered in a blank attribute", w) } }
        reach(if r.is_empty() { "nothing" } else { "offered" });
    } },
    Job { name: "c11_nested", prop: "C11", tier: "quick", need: &["offered"], bound: "cursor inside nested arguments (`backend(..)`, `backend(node(..))`, `backend(runtime_only(..))`) with 0..=3 letters typed, 3 surroundings, white space", f: || {
        let (outer, inner) = pick(&[("backend", &["node", "runtime_only"] as &[&str]), ("node", &["url"]), ("runtime_only", &["sandbox"])]);
        let w = inner[choose(inner.len())];
        let typed = &w[..choose(if w.len() > 3 { 4 } else { 3 })];
        let (o1, o2) = if outer == "backend" { ("", "") } else { ("backend(", ")") };
        let (b, a) = pick(&[("", ""), ("environment = a::B, ", ""), ("", ", environment = a::B")]);
        let sp = pick(&["", " "]);
        let mut code = format!("#[ink_e2e::test({}{}{}({}", b, o1, outer, sp);
        let s = code.len();
        code.push_str(typed);
        let o = code.len();
        code.push_str(sp); code.push(')'); code.push_str(o2); code.push_str(a); code.push_str(")]\nasync fn t() {}\n");
        note_str(&format!("{}|{}", &code[..o], &code[o..]));
        let r = Analysis::new(&code, Version::V5).completions(at(o));
        let mut seen: Vec<&str> = vec![];
        for x in &r {
            note_str(&x.label); note_str(&x.edit.text); 
            let name = x.label.split(|ch: char| ch == ' ' || ch == '=' || ch == '(').next().unwrap_or("");
            chk!(inner.contains(&name) && name.starts_with(typed), "nested `{}` offered, not valid there", name);
            chk!(!seen.contains(&name), "nested `{}` offered twice", name);
            seen.push(name);
            check_edits("nested completion", &code, true, std::slice::from_ref(&x.edit)).map(|n| { note_str(&n); chk!(n.contains(&format!("{}({}", outer, name)) || n.contains(&format!("{}({}{}", outer, sp, name)), "nested completion gives something else") });
        }
        for x in inner { if x.starts_with(typed) { chk!(seen.contains(x), "nested `{}` is valid but not offered", x) } }
        reach(if r.is_empty() { "nothing" } else { "offered" });
        let _ = s;
    } },
    Job { name: "c11_crate", prop: "C11", tier: "quick", need: &["offered", "nothing"], bound: "cursor on the crate name or separator of an attribute path (`in`, `ink`, `ink_`, `ink_e2e`, `ink:`, `ink::`) on 6 kinds of items or none, both versions, closed or not", f: || {
        let item = pick(&["", "mod c {}", "pub trait T {}", "struct S {}", "enum S {}", "fn t() {}"]);
        let v = version(choose(2));
        let typed = pick(&["i", "in", "ink", "ink_", "ink_e", "ink_e2e", "ink:", "ink_e2e:", "ink::", "ink_e2e::"]);
        let close = pick(&["]\n", "\n", ""]);
        assume(!(close.is_empty() && !item.is_empty()));
        let all: Vec<&'static str> = if item.is_empty() { let mut a = vec!["ink::chain_extension", "ink::contract", "ink::storage_item", "ink::test", "ink::trait_definition", "ink_e2e::test"]; if v == Version::V5 { a.push("ink::event"); a.push("ink::scale_derive") } a } else { macros_of(item, v) };
        let mut code = String::from("#[");
        code.push_str(typed);
        let o = code.len();
        code.push_str(close); code.push_str(item);
        note_str(&format!("{}|{}", &code[..o], &code[o..]));
        let r = Analysis::new(&code, v).completions(at(o));
        let mut seen: Vec<String> = vec![];
        for x in &r {
            note_str(&x.label); note_str(&x.edit.text);
            let (a, b) = se(x.edit.range);
            chk!(a >= 2 && a <= o && b == o, "completion of the crate name replaces what was not typed");
            let path = format!("{}{}", &code[2..a.max(2)], x.edit.text);
            let part = path == "ink" || path == "ink_e2e" || path == "ink()";
            chk!(part || all.iter().any(|m| *m == path), "`{}` completed, not valid there ({:?})", path, v);
            chk!(!seen.contains(&path), "`{}` completed twice", path);
            seen.push(path);
        }
        if typed == "ink" || typed == "ink::" || typed == "ink_e2e::" { for m in &all { if m.starts_with(typed) { chk!(seen.iter().any(|x| x == m), "`{}` is valid but not completed ({:?})", m, v) } } }
        reach(if r.is_empty() { "nothing" } else { "offered" });
    } },
];
