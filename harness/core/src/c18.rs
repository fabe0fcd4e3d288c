//! C18: suggested ids and names never collide with existing ones.
use crate::chk;
use crate::doc::*;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

/// The number after `key = ` in an edit text.
fn number(text: &str, key: &str) -> Option<u32> {
    let k = format!("{} = ", key);
    let i = text.find(&k)? + k.len();
    let d: String = text[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
/// The identifier after `key ` (`fn `, `struct `) in an edit text.
fn ident(text: &str, key: &str) -> Option<String> {
    let i = text.find(key)? + key.len();
    Some(text[i..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect())
}
fn id_ok(what: &str, text: &str, key: &str, used: &[u32]) {
    if let Some(n) = number(text, key) { reach("id"); note(n as u64); chk!(!used.contains(&n), "{}: suggested id is already in use", what) }
}
fn digit() -> u32 { concretize((byte(b"1234") - b'0') as u64) as u32 }
fn spell(n: u32, k: usize) -> String { if k == 0 { format!("{}", n) } else { format!("0x{:04X}", n) } }

/// Every suggestion of an argument for the function at `o` (inside its attribute), `f` (on its `fn` keyword).
fn ask(code: &str, v: Version, o: usize, f: usize, key: &str, used: &[u32]) {
    note_str(code);
    let a = Analysis::new(code, v);
    match choose(3) {
        0 => for c in a.completions(at(o)) { id_ok("completion", &c.edit.text, key, used) },
        1 => for c in a.actions(rng(f, f)) { for e in &c.edits { id_ok("action on the fn", &e.text, key, used) } },
        _ => for c in a.actions(rng(o, o)) { for e in &c.edits { id_ok("action on the attribute", &e.text, key, used) } },
    }
}
fn contract(full: bool) {
    let kind = choose(2);
    let (n, m) = (digit(), digit());
    assume(n <= m);
    let x = if full { digit() } else { 1 + (n + 1) % 4 };
    let (name, sig, osig) = if kind == 0 { ("message", "(&self)", "() -> Self") } else { ("constructor", "() -> Self", "(&self)") };
    let other = if kind == 0 { "constructor" } else { "message" };
    let attr = pick(&["#[ink(K, )]", "#[ink(K)]\n        #[ink()]", "#[ink()]\n        #[ink(K)]"]).replace("K", name);
    let target = format!("        {}\n        pub fn t{} {{}}\n", attr, sig);
    let sp = if full { choose(2) } else { m as usize % 2 };
    let e1 = format!("        #[ink({}, selector = {})]\n        pub fn a{} {{}}\n", name, spell(n, sp), sig);
    let e2 = format!("        #[ink({}, selector = {})]\n        pub fn b{} {{}}\n", name, spell(m, 1 - sp), sig);
    let e3 = format!("        #[ink({}, selector = {})]\n        pub fn c{} {{}}\n", other, x, osig);
    let code = match choose(3) {
        0 => format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct C {{}}\n\n    impl C {{\n{}{}{}{}    }}\n}}\n", target, e1, e2, e3),
        1 => format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct C {{}}\n\n    impl C {{\n{}    }}\n\n    impl C {{\n{}{}{}    }}\n}}\n", e1, e3, e2, target),
        _ => format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct C {{}}\n\n    impl C {{\n{}{}    }}\n\n    impl Tr for C {{\n{}    }}\n\n    #[ink(impl)]\n    impl C {{\n{}    }}\n}}\n", e1, target, e2.replace("pub ", ""), e3),
    };
    let v = version(if full { choose(2) } else { n as usize % 2 });
    let t = pos(&code, "pub fn t");
    let o = if let Some(i) = code.find(", )]") { i + 2 } else { pos(&code, "#[ink()") + 6 };
    ask(&code, v, o, t, "selector", &[n, m]);
}
fn trait_def() {
    let (n, m) = (digit(), digit());
    assume(n <= m);
    let sp = choose(2);
    let attr = pick(&["#[ink(message, )]", "#[ink(message)]\n    #[ink()]"]);
    let code = format!("#[ink::trait_definition]\npub trait T {{\n    #[ink(message, selector = {})]\n    fn a(&self);\n\n    {}\n    fn t(&self);\n\n    #[ink(message, selector = {})]\n    fn b(&self);\n}}\n", spell(n, sp), attr, spell(m, 1 - sp));
    let o = if let Some(i) = code.find(", )]") { i + 2 } else { pos(&code, "#[ink()") + 6 };
    let v = version(choose(2));
    ask(&code, v, o, pos(&code, "fn t("), "selector", &[n, m]);
}
fn chain_fn() {
    let (n, m) = (digit(), digit());
    assume(n <= m);
    let v5 = choose(2) == 1;
    let (h, k) = if v5 { ("#[ink::chain_extension(extension = 9)]", "function") } else { ("#[ink::chain_extension]", "extension") };
    let sp = choose(2);
    let attr = pick(&["#[ink()]", "#[ink(handle_status = true)]\n    #[ink()]", "#[ink(handle_status = true, )]", ""]);
    let fns = [format!("    #[ink({} = {})]\n    fn a();\n", k, spell(n, sp)), format!("    {}\n    fn t();\n", attr), format!("    #[ink(handle_status = false, {} = {})]\n    fn b();\n", k, spell(m, 1 - sp))];
    let order = pick(&[[0, 1, 2], [1, 0, 2], [0, 2, 1]]);
    let code = format!("{}\npub trait X {{\n    type ErrorCode = E;\n\n{}{}{}}}\n", h, fns[order[0]], fns[order[1]], fns[order[2]]);
    let v = version(v5 as usize);
    let f = pos(&code, "fn t(");
    let o = if let Some(i) = code.find(", )]") { i + 2 } else if let Some(i) = code.find("#[ink()") { i + 6 } else { f };
    match choose(3) {
        0 => ask(&code, v, o, f, k, &[n, m]),
        1 => {
            // diagnostics of the function without an id
            note_str(&code);
            for d in Analysis::new(&code, v).diagnostics() { for q in d.quickfixes.iter().flatten() { if q.label.starts_with("Add") { for e in &q.edits { id_ok("quickfix", &e.text, k, &[n, m]) } } } }
        }
        _ => {
            note_str(&code);
            let a = Analysis::new(&code, v);
            let h = pos(&code, "trait X");
            for c in a.actions(rng(h, h)) { for e in &c.edits { id_ok("new function", &e.text, k, &[n, m]) } }
        }
    }
}
/// The ids of the chain extensions of a file, suggested for one that has none.
fn chain_ext() {
    let (n, m) = (digit(), digit());
    assume(n <= m);
    let sp = choose(2);
    let attr = pick(&["#[ink::chain_extension()]", "#[ink::chain_extension]", "#[ink::chain_extension( )]"]);
    let ts = [format!("#[ink::chain_extension(extension = {})]\npub trait A {{\n    type ErrorCode = E;\n}}\n", spell(n, sp)), format!("{}\npub trait T {{\n    type ErrorCode = E;\n}}\n", attr), format!("#[ink::chain_extension(extension = {})]\npub trait B {{\n    type ErrorCode = E;\n}}\n", spell(m, 1 - sp))];
    let order = pick(&[[0, 1, 2], [1, 0, 2], [0, 2, 1]]);
    let code = format!("{}\n{}\n{}", ts[order[0]], ts[order[1]], ts[order[2]]);
    note_str(&code);
    let t = pos(&code, "trait T");
    match choose(4) {
        0 => { let o = pos(&code, attr) + 23; for c in Analysis::new(&code, Version::V5).completions(at(o)) { id_ok("completion", &c.edit.text, "extension", &[n, m]) } }
        1 => for c in Analysis::new(&code, Version::V5).actions(rng(t, t)) { for e in &c.edits { if !e.text.contains("trait ") { id_ok("action", &e.text, "extension", &[n, m]) } } },
        2 => for d in Analysis::new(&code, Version::V5).diagnostics() { for q in d.quickfixes.iter().flatten() { if q.label.starts_with("Add") { for e in &q.edits { id_ok("quickfix", &e.text, "extension", &[n, m]) } } } },
        _ => for e in Analysis::new(&code, Version::V4).migrate() { id_ok("migration", &e.text, "extension", &[n, m]) },
    }
}
/// Equal ids: the replacement is unused, and two replacements differ.
fn overlap(full: bool) {
    let d = if full { [digit(), digit(), digit(), digit()] } else { let a = [digit(), digit(), digit()]; [a[0], a[1], a[2], 1 + a[0] % 3] };
    assume(d[0] == d[1] || d[1] == d[2] || d[0] == d[2] || d[0] == d[3]);
    let sp = if full { choose(2) } else { d[1] as usize % 2 };
    let kind = choose(5);
    let v = if kind == 2 { Version::V4 } else if kind == 3 { Version::V5 } else { version(if full { choose(2) } else { d[2] as usize % 2 }) };
    let f = |i: usize| match kind {
        0 => format!("        #[ink(message, selector = {})]\n        pub fn f{}(&self) {{}}\n", spell(d[i], (i + sp) % 2), i),
        1 => format!("        #[ink(constructor, selector = {})]\n        pub fn f{}() -> Self {{}}\n", spell(d[i], (i + sp) % 2), i),
        2 => format!("    #[ink(extension = {})]\n    fn f{}();\n", spell(d[i], (i + sp) % 2), i),
        3 => format!("    #[ink(function = {})]\n    fn f{}();\n", spell(d[i], (i + sp) % 2), i),
        _ => format!("    #[ink(message, selector = {})]\n    fn f{}(&self);\n", spell(d[i], (i + sp) % 2), i),
    };
    let all = f(0) + &f(1) + &f(2) + &f(3);
    let code = match kind {
        0 | 1 => format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct C {{}}\n\n    impl C {{\n{}    }}\n}}\n", all),
        2 => format!("#[ink::chain_extension]\npub trait X {{\n    type ErrorCode = E;\n\n{}}}\n", all),
        3 => format!("#[ink::chain_extension(extension = 7)]\npub trait X {{\n    type ErrorCode = E;\n\n{}}}\n", all),
        _ => format!("#[ink::trait_definition]\npub trait X {{\n{}}}\n", all),
    };
    note_str(&code);
    let mut given: Vec<u32> = vec![];
    for x in Analysis::new(&code, v).diagnostics() {
        for q in x.quickfixes.iter().flatten() {
            if !q.label.contains("unique") { continue }
            for e in &q.edits {
                let n: u32 = match e.text.parse() { Ok(n) => n, _ => continue };
                reach("id");
                chk!(!d.contains(&n), "{}: suggested id is already in use", q.label);
                chk!(!given.contains(&n), "{}: one id suggested for two functions", q.label);
                given.push(n);
            }
        }
    }
}
/// Names of generated functions, events, topics and tests.
fn names() {
    let k = choose(8);
    let v = if k == 4 { Version::V4 } else if k == 5 { Version::V5 } else { version(choose(2)) };
    let base = ["my_message", "new", "Event", "my_topic", "my_extension", "my_function", "my_message", "it_works"][k];
    // names in use: the preferred one and successors, as a subset
    let mut used: Vec<String> = vec![];
    for i in 0..3 { if choose(2) == 1 { used.push(if i == 0 { base.to_string() } else { format!("{}{}", base, i + 1) }) } }
    let how = choose(3);
    let mut body = String::new();
    let mut alt = String::new();
    for (i, n) in used.iter().enumerate() {
        match k {
            0 | 1 => {
                let f = match how { 0 => format!("        #[ink(message)]\n        pub fn {}(&self) {{}}\n", n), 1 => format!("        #[ink(constructor)]\n        pub fn {}() -> Self {{}}\n", n), _ => format!("        fn {}() {{}}\n", n) };
                if i == 1 { alt.push_str(&f) } else { body.push_str(&f) }
            }
            2 => body.push_str(&match how { 0 => format!("    #[ink(event)]\n    pub struct {} {{}}\n", n), 1 => format!("    pub enum {} {{}}\n", n), _ => format!("    struct {};\n", n) }),
            3 => body.push_str(&match how { 0 => format!("        #[ink(topic)]\n        {}: u8,\n", n), _ => format!("        {}: u8,\n", n) }),
            4 | 5 => body.push_str(&match how { 0 => format!("    #[ink({} = {})]\n    fn {}();\n", if k == 4 { "extension" } else { "function" }, i + 1, n), _ => format!("    fn {}();\n", n) }),
            6 => body.push_str(&match how { 0 => format!("    #[ink(message)]\n    fn {}(&self);\n", n), _ => format!("    fn {}(&self);\n", n) }),
            _ => body.push_str(&match how { 0 => format!("    #[ink::test]\n    fn {}() {{}}\n", n), _ => format!("    fn {}() {{}}\n", n) }),
        }
    }
    let (code, target, key) = match k {
        0 | 1 => (format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct C {{}}\n\n    impl C {{\n{}    }}\n\n    impl C {{\n{}\n        \n    }}\n}}\n", alt, body), ["impl C", "mod c"][choose(2)], "fn "),
        2 => (format!("#[ink::contract]\nmod c {{\n{}\n    \n}}\n", body), "mod c", "struct "),
        3 => (format!("#[ink::contract]\nmod c {{\n    #[ink(event)]\n    pub struct E {{\n{}    \n    }}\n}}\n", body), "struct E", ""),
        4 | 5 => (format!("#[ink::chain_extension{}]\npub trait X {{\n    type ErrorCode = E;\n\n{}\n    \n}}\n", if k == 5 { "(extension = 1)" } else { "" }, body), "trait X", "fn "),
        6 => (format!("#[ink::trait_definition]\npub trait X {{\n{}\n    \n}}\n", body), "trait X", "fn "),
        _ => (format!("#[cfg(test)]\nmod tests {{\n{}\n    \n}}\n", body), "mod tests", "fn "),
    };
    note_str(&code);
    let a = Analysis::new(&code, v);
    let texts: Vec<String> = match choose(3) {
        0 => { let o = pos(&code, target); a.actions(rng(o, o)).into_iter().flat_map(|c| c.edits.into_iter().map(|e| e.text)).collect() }
        1 => { let o = code.rfind("    \n").unwrap() + 4; a.actions(rng(o, o)).into_iter().flat_map(|c| c.edits.into_iter().map(|e| e.text)).collect() }
        _ => { let o = code.rfind("    \n").unwrap() + 4; a.completions(at(o)).into_iter().map(|c| c.edit.text).collect() }
    };
    for t in &texts {
        // events 2.0 and other root level items are inserted outside of the focused one
        if t.contains("#[ink::event]") || t.contains("(storage)") { continue }
        if k != 3 && !t.contains(base) { continue }
        let n = if k == 3 { match t.find("my_topic") { Some(i) => Some(t[i..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()), _ => None } } else { ident(t, key) };
        if let Some(n) = n { reach("name"); note_str(&n); chk!(!used.contains(&n), "suggested name `{}..` is already in use", base) }
    }
}
/// The quickfix for functions whose derived selectors are equal suggests an unused name.
fn rename() {
    let n2 = choose(2);
    let other = pick(&["foo2", "foo3", "bar"]);
    let how = choose(3);
    let o = match how { 0 => format!("        #[ink(message)]\n        pub fn {}(&self) {{}}\n", other), 1 => format!("        #[ink(constructor)]\n        pub fn {}() -> Self {{}}\n", other), _ => format!("        fn {}() {{}}\n", other) };
    let kind = choose(2);
    let f = if kind == 0 { "        #[ink(message)]\n        pub fn foo(&self) {}\n" } else { "        #[ink(constructor)]\n        pub fn foo() -> Self {}\n" };
    let code = format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct C {{}}\n\n    impl C {{\n{}{}    }}\n\n    impl C {{\n{}{}    }}\n}}\n", f, if n2 == 0 { &o } else { "" }, f, if n2 == 1 { &o } else { "" });
    note_str(&code);
    let v = version(choose(2));
    for x in Analysis::new(&code, v).diagnostics() { for q in x.quickfixes.iter().flatten() { if q.label.contains("unique name") { for e in &q.edits {
        reach("name");
        chk!(e.text != other && e.text != "foo", "unique name: suggested name is already in use");
        chk!(e.text.starts_with("foo"), "unique name: not derived from the name");
    } } } }
}
pub static JOBS: &[Job] = &[
    Job { name: "c18_selector", prop: "C18", tier: "quick", need: &["id"], bound: "a contract with two messages (or constructors) with any explicit selectors in 1..4 (decimal and hexadecimal), one of the other kind, in one or two inherent impls or a trait impl; completion, action on the function, action on the attribute", f: || contract(false) },
    Job { name: "c18_selector_all", prop: "C18", tier: "thorough", need: &["id"], bound: "as c18_selector, with all combinations of notation, version and the selector of the other kind", f: || contract(true) },
    Job { name: "c18_trait_def", prop: "C18", tier: "quick", need: &["id"], bound: "a trait definition with two messages with any explicit selectors in 1..4", f: trait_def },
    Job { name: "c18_chain_fn", prop: "C18", tier: "quick", need: &["id"], bound: "a chain extension (ink! 4 and 5) with two functions with any ids in 1..4 and a third without, in 3 orders; completion, actions, quickfixes, new function", f: chain_fn },
    Job { name: "c18_chain_ext", prop: "C18", tier: "quick", need: &["id"], bound: "three chain extensions, two with any ids in 1..4; completion, action, quickfix, migration", f: chain_ext },
    Job { name: "c18_overlap", prop: "C18", tier: "quick", need: &["id"], bound: "four functions with any ids in 1..4, at least two equal; messages, constructors, trait messages, chain extension functions (the fourth id follows from the first)", f: || overlap(false) },
    Job { name: "c18_overlap_all", prop: "C18", tier: "thorough", need: &["id"], bound: "as c18_overlap, four free ids, both notations and versions", f: || overlap(true) },
    Job { name: "c18_names", prop: "C18", tier: "quick", need: &["name"], bound: "generated messages, constructors, events, topics, extension functions and tests; any subset of the first three preferred names in use, by ink! entities or other items, in the same or another impl", f: names },
    Job { name: "c18_rename", prop: "C18", tier: "quick", need: &["name"], bound: "two functions of one name and a third that uses a candidate name", f: rename },
];
