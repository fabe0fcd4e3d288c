//! C14: migration to ink! 5 gives version 5 code, keeps everything else, and is idempotent.
use crate::chk;
use crate::doc::*;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

/// Without white space and trailing commas.
fn squash(s: &str) -> String { s.split_whitespace().collect::<String>().replace(",}", "}").replace(",)", ")") }
/// Migrates `code`; the result must be `want` up to white space, parse, and migrate to itself.
/// `set`: lines that may appear in any order (imports).
fn migrated(code: &str, want: &str) {
    note_str(code);
    let clean = syntax_errors(code) == 0;
    chk!(clean, "template does not parse");
    let edits = Analysis::new(code, Version::V4).migrate();
    let new = match check_edits("migration", code, clean, &edits) { Some(n) => n, None => return };
    let (a, b) = (squash(&new), squash(want));
    if a != b { note_str(&new); note_str(want) }
    chk!(a == b, "migrated code differs from the ink! 5 form");
    let again = Analysis::new(&new, Version::V4).migrate();
    match edits_ok(&new, &again) {
        Err(e) => chk!(false, "second migration: {}", e),
        Ok(()) => { let t = apply(&new, &again); if t != new { note_str(&new); note_str(&t) } chk!(t == new, "migrating again changes the code") }
    }
    if edits.is_empty() { reach("nothing") } else { reach("migrated") }
}
/// Places for an expression.
static PLACES: &[&str] = &[
    "        let x = @;\n", "        @;\n", "        @\n", "        return @;\n", "        if @ { 1 } else { 2 };\n", "        if a { @ } else { 2 };\n", "        if a { 1 } else if @ { 2 } else { @ };\n",
    "        while @ { b() }\n", "        while let Some(y) = @ { }\n", "        if let Some(y) = @ { }\n", "        for i in @ { }\n", "        for i in 0..1 { @; }\n", "        loop { @; break }\n",
    "        match @ { _ => 1 };\n", "        match a { b if @ => 1, _ => 2 };\n", "        match a { b => @, _ => { @ } };\n", "        let Some(z) = @ else { return };\n", "        let Some(z) = a else { @; return };\n",
    "        f(1, @);\n", "        y.g(@, 2).h();\n", "        let c = |k| @;\n", "        let c = move || { @ };\n", "        (@, 1);\n", "        [@, 1];\n", "        [@; 2];\n", "        S { a: @, ..d };\n", "        S { ..@ };\n", "        &mut @;\n", "        !@;\n", "        -(@);\n", "        @? + 1;\n", "        1 + @;\n", "        @ as u8;\n", "        @.field;\n", "        v[@];\n", "        @..1;\n", "        unsafe { @ };\n", "        a = @;\n", "        { let q = { @ }; }\n", "        fn inner() { @; }\n", "        const { @ };\n", "        @.unwrap().k(1);\n", "        drop(@.unwrap());\n",
];
/// ink! 4 calls of host functions and their ink! 5 form (equal: not to be changed).
static CALLS: &[(&str, &str)] = &[
    ("ink::env::invoke_contract(&p)", "ink::env::invoke_contract_v1(&p)"),
    ("ink::env::instantiate_contract::<E, R>(&p)", "ink::env::instantiate_contract_v1::<E, R>(&p)"),
    ("self.env().invoke_contract(&p)", "self.env().invoke_contract_v1(&p)"),
    ("Self::env().instantiate_contract(&p)", "Self::env().instantiate_contract_v1(&p)"),
    ("build_call::<E>().call(id).gas_limit(1).invoke()", "build_call::<E>().call_v1(id).gas_limit(1).invoke()"),
    ("ink::env::call::build_call::<E>().exec_input(k).returns::<()>().call(id).params()", "ink::env::call::build_call::<E>().exec_input(k).returns::<()>().call_v1(id).params()"),
    ("build_create::<R>().endowment(1).params()", "build_create::<R>().instantiate_v1().endowment(1).params()"),
    ("ink_env::call::build_create::<R>()", "ink_env::call::build_create::<R>().instantiate_v1()"),
    ("build_call::<E>().call_type(Call::new(id)).invoke()", "build_call::<E>().call_type(ink::env::call::CallV1::new(id)).invoke()"),
    ("ink::env::invoke_contract(&build_call::<E>().call(id).params())", "ink::env::invoke_contract_v1(&build_call::<E>().call_v1(id).params())"),
    // not ink! 4 API
    ("other.invoke_contract(&p)", "other.invoke_contract(&p)"),
    ("self.other().invoke_contract(&p)", "self.other().invoke_contract(&p)"),
    ("my::invoke_contract(&p)", "my::invoke_contract(&p)"),
    ("x.call(id).invoke()", "x.call(id).invoke()"),
    ("self.env().transfer(a, b)", "self.env().transfer(a, b)"),
    ("Other::new(id)", "Other::new(id)"),
    ("\"build_create()\"", "\"build_create()\""),
    ("build_call::<E>().delegate(h).invoke()", "build_call::<E>().delegate(h).invoke()"),
    // already ink! 5
    ("build_create::<R>().instantiate_v1().params()", "build_create::<R>().instantiate_v1().params()"),
    ("build_call::<E>().call_v1(id).invoke()", "build_call::<E>().call_v1(id).invoke()"),
    ("self.env().invoke_contract_v1(&p)", "self.env().invoke_contract_v1(&p)"),
];
fn host(two: bool) {
    let (p, c) = if two { (PLACES[choose(PLACES.len())], &CALLS[choose(3) * 2]) } else { let p = choose(PLACES.len()); (PLACES[p], &CALLS[choose(CALLS.len())]) };
    let (q, d) = if two { (PLACES[choose(8)], &CALLS[choose(2) * 6]) } else { ("", &CALLS[0]) };
    let doc = |x: &str, y: &str| format!("#[ink::contract]\nmod c {{\n    use ink::env::call::{{build_call, build_create, Call}};\n\n    #[ink(storage)]\n    pub struct C {{}}\n\n    impl C {{\n        #[ink(message)]\n        pub fn m(&self) -> u8 {{\n{}{}        }}\n    }}\n}}\n", p.replace('@', x), q.replace('@', y));
    let code = doc(c.0, d.0);
    assume(syntax_errors(&code) == 0);
    migrated(&code, &doc(c.1, d.1));
}
/// Events: moved before the contract, imported, `#[ink(event)]` becomes `#[ink::event]`.
fn events() {
    let n = text(1, b"ABz_");
    let ev = |k: usize, name: &str| -> (String, String) {
        let body = ["{\n        #[ink(topic)]\n        a: u8,\n        b: [u8; 2],\n    }", "{}", "(#[ink(topic)] u8);", ";"][k % 4];
        let (pre, a4, mid, a5) = match k {
            0 => ("", "#[ink(event)]\n    ", "", "#[ink::event]"),
            1 => ("/// Docs: #[ink(event)]\n    ", "#[ink(event)]\n    ", "#[derive(Debug)]\n    ", "#[ink::event]"),
            2 => ("", "#[ink(event, anonymous)]\n    ", "", "#[ink::event(anonymous)]"),
            3 => ("#[derive(Debug)]\n    ", "#[ink(event)]\n    #[ink(anonymous)]\n    ", "// c\n    ", "#[ink::event(anonymous)]"),
            4 => ("#[cfg(a)]\n    ", "#[ink(anonymous)]\n    #[ink(event)]\n    ", "", "#[ink::event(anonymous)]"),
            _ => ("", "#[ink(anonymous, event)]\n    ", "", "#[ink::event(anonymous)]"),
        };
        (format!("    {}{}{}pub struct {} {}\n\n", pre, a4, mid, name, body), format!("{}{}\n{}pub struct {} {}\n\n", pre, a5, mid, name, body))
    };
    let name = format!("Ev{}", n);
    let k = choose(6);
    let (a4, a5) = ev(k, &name);
    let second = choose(3);
    let (b4, b5) = if second == 0 { (String::new(), String::new()) } else { ev((k + second) % 6, "Other") };
    let head = pick(&["", "#![cfg_attr(not(feature = \"std\"), no_std)]\n\n", "// c\n\nuse a::b;\n\n"]);
    let (u4, u5) = if choose(2) == 0 { ("    use b::c;\n\n", "    use b::c;\n") } else { ("", "") };
    let rest = "    #[ink(storage)]\n    pub struct C {}\n\n    impl C {\n        #[ink(message)]\n        pub fn m(&self) { self.env().emit_event(EvA {}); }\n    }\n\n    // #[ink(event)]\n    type T = u8;\n\n";
    let first = choose(2) == 0;
    let (r0, r1) = if first { ("", rest) } else { (rest, "") };
    let code = format!("{}#[ink::contract]\nmod c {{\n{}{}{}{}{}}}\n", head, u4, r0, a4, b4, r1);
    let uses = format!("{}{}", format!("    use super::{};\n", name), if second == 0 { "" } else { "    use super::Other;\n" });
    let want = format!("{}{}{}#[ink::contract]\nmod c {{\n{}{}{}{}}}\n", head, a5, b5, u5, uses, r0, r1);
    // the order of attributes within the moved event is kept, `#[ink(anonymous)]` is removed
    migrated(&code, &want);
}
fn chain() {
    let d = text(1, b"123456789");
    let (m4, m5) = pick(&[("", "(extension = 1)"), ("()", "(extension = 1)"), ("(extension = 1)", "(extension = 1)"), ("(extension = 7)", "(extension = 7)")]);
    let (f4, f5) = pick(&[("extension = @", "function = @"), ("extension=0x@", "function=0x@"), ("extension = @, handle_status = false", "function = @, handle_status = false"), ("handle_status = true, extension = @", "handle_status = true, function = @"), ("function = @", "function = @"), ("handle_status = false", "handle_status = false")]);
    let split = choose(2) == 1;
    let two = choose(3);
    let g = |f: &str| { let f = f.replace('@', &d); if split { match f.find(", ") { Some(i) => format!("    #[ink({})]\n    #[ink({})]\n", &f[..i], &f[i + 2..]), None => format!("    #[ink({})]\n", f) } } else { format!("    #[ink({})]\n", f) } };
    let doc = |m: &str, f: &str, k: &str, last: &str| format!("{}#[ink::chain_extension{}]\npub trait X {{\n    type ErrorCode = E; // extension = 1\n\n{}    fn extension(extension: u8) -> u8;\n\n    #[ink({} = 15)]\n    fn g();\n}}\n{}", if two == 1 { "#[ink::chain_extension(extension = 9)]\npub trait Y {}\n\n" } else { "" }, m, g(f), k, last);
    migrated(&doc(m4, f4, "extension", if two == 2 { "\n#[ink::chain_extension]\npub trait Z {}\n" } else { "" }),
        &doc(m5, f5, "function", if two == 2 { if m5.contains('7') { "\n#[ink::chain_extension(extension = 1)]\npub trait Z {}\n" } else { "\n#[ink::chain_extension(extension = 2)]\npub trait Z {}\n" } } else { "" }));
}
fn scale() {
    // (attributes before, after)
    let cases: &[(&str, &str)] = &[
        ("#[derive(scale::Encode, scale::Decode)]\n", "#[ink::scale_derive(Encode, Decode)]\n"),
        ("#[derive(scale::Decode, scale::Encode)]\n", "#[ink::scale_derive(Decode, Encode)]\n"),
        ("#[derive(Clone, scale::Encode, Copy)]\n", "#[ink::scale_derive(Encode)]\n#[derive(Clone, Copy)]\n"),
        ("#[derive(Clone, scale::Encode, scale::Decode)]\n#[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo))]\n", "#[ink::scale_derive(Encode, Decode, TypeInfo)]\n#[derive(Clone)]\n"),
        ("#[derive(Encode, Decode)]\n#[cfg_attr(feature = \"std\", derive(Debug, TypeInfo))]\n", "#[ink::scale_derive(Encode, Decode, TypeInfo)]\n#[cfg_attr(feature = \"std\", derive(Debug))]\n"),
        ("#[cfg_attr(feature = \"std\", derive(ink::scale_info::TypeInfo), allow(x))]\n", "#[ink::scale_derive(TypeInfo)]\n#[cfg_attr(feature = \"std\", allow(x))]\n"),
        ("#[cfg_attr(feature = \"std\", allow(x), derive(ink::scale_info::TypeInfo))]\n", "#[ink::scale_derive(TypeInfo)]\n#[cfg_attr(feature = \"std\", allow(x))]\n"),
        ("#[derive(PartialEq)]\n#[derive(ink::scale::Encode)]\n", "#[derive(PartialEq)]\n#[ink::scale_derive(Encode)]\n"),
        ("#[derive(PartialEq, Debug)]\n", "#[derive(PartialEq, Debug)]\n"),
        ("#[derive(my::Encode, scale::MaxEncodedLen)]\n", "#[derive(my::Encode, scale::MaxEncodedLen)]\n"),
        ("#[ink::scale_derive(Encode)]\n", "#[ink::scale_derive(Encode)]\n"),
        ("/// #[derive(scale::Encode)]\n#[derive(scale::Encode)]\n", "/// #[derive(scale::Encode)]\n#[ink::scale_derive(Encode)]\n"),
        ("#[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo, ink::storage::traits::StorageLayout))]\n#[derive(scale::Decode)]\n", "#[ink::scale_derive(TypeInfo, Decode)]\n#[cfg_attr(feature = \"std\", derive(ink::storage::traits::StorageLayout))]\n"),
    ];
    let (a, b) = pick(cases);
    let (c, d) = if choose(2) == 0 { ("", "") } else { pick(cases) };
    let item = pick(&["pub struct S { a: u8 }\n", "pub enum S { A, B(u8) }\n", "struct S(u8);\n"]);
    let n = text(1, b"TU_");
    let doc = |x: &str, y: &str| format!("use scale::{{Decode, Encode}};\nuse scale_info::TypeInfo;\n\n{}{}\n{}pub struct Q{} {{\n    b: u8,\n}}\n", x, item, y, n);
    migrated(&doc(a, c), &doc(b, d));
}
/// ink! 4 e2e client calls and their ink! 5 form; last: the backend trait the form needs.
static E2E: &[(&str, &str, &str)] = &[
    ("client.instantiate(\"c\", &ink_e2e::alice(), ctor, 0, None).await", "client.instantiate(\"c\", &ink_e2e::alice(), ctor).submit().await", "Contracts"),
    ("client.instantiate(\"c\", &a, ctor, 10, Some(5)).await", "client.instantiate(\"c\", &a, ctor).value(10).storage_deposit_limit(5).submit().await", "Contracts"),
    ("client.call(&ink_e2e::bob(), get, v, None).await", "client.call(&ink_e2e::bob(), get).value(v).submit().await", "Contracts"),
    ("client.call(&a, build_message::<Ref>(id.clone()).call(|c| c.flip(1)), 0, None).await", "client.call(&a, ink_e2e::create_call_builder::<Ref>(id.clone()).flip(1)).submit().await", "Contracts"),
    ("client.upload(\"c\", &a, None).await", "client.upload(\"c\", &a).submit().await", "Contracts"),
    ("client.upload(\"c\", &a, limit).await", "client.upload(\"c\", &a).storage_deposit_limit(limit).submit().await", "Contracts"),
    ("client.balance(acc).await", "client.free_balance(acc).await", "Chain"),
    ("client.create_and_fund_account(&a, 1).await", "client.create_and_fund_account(&a, 1).await", "Chain"),
    ("client.runtime_call(&a, \"b\", \"c\", d).await", "client.runtime_call(&a, \"b\", \"c\", d).await", "Chain"),
    ("build_message::<Ref>(id.clone()).call(|c| c.get())", "ink_e2e::create_call_builder::<Ref>(id.clone()).get()", ""),
    ("ink_e2e::build_message::<Ref>(id).call(|c| { return c.get(1, 2); })", "ink_e2e::create_call_builder::<Ref>(id).get(1, 2)", ""),
    ("MessageBuilder::<E, Ref>::from_account_id(id).call(|c| c.get())", "ink_e2e::create_call_builder::<Ref>(id).get()", ""),
    ("other.balance(acc).await", "other.balance(acc).await", ""),
    ("x.call(a, b, c, d)", "x.call(a, b, c, d)", ""),
    ("client.other(acc).await", "client.other(acc).await", ""),
    ("client.call(&a, get).submit().await", "client.call(&a, get).submit().await", ""),
];
/// Removes repeated signatures and imports (what migrating twice adds, a known finding).
fn dedup(s: &str) -> String {
    let mut s = squash(s);
    while s.contains("<Client:E2EBackend><Client:E2EBackend>") { s = s.replace("<Client:E2EBackend><Client:E2EBackend>", "<Client:E2EBackend>") }
    let mut o = s.replace("(mutclient:Client)(mutclient:Client)", "(mutclient:Client)");
    for t in ["useink_e2e::ContractsBackend;", "useink_e2e::ChainBackend;"] { if let Some(i) = o.find(t) { let j = i + t.len(); o = format!("{}{}", &o[..j], o[j..].replace(t, "")) } }
    o
}
/// As `migrated`; `known`: what known defects make of the code instead (with their tags).
fn migrated_e2e(code: &str, want: &str, known: &[(String, &str)], overlap: bool) {
    note_str(code);
    chk!(syntax_errors(code) == 0, "template does not parse");
    let edits = Analysis::new(code, Version::V4).migrate();
    reach("migrated");
    if let Err(e) = edits_ok(code, &edits) { if overlap && e == "overlapping edits" { chk!(false, "[e2e: adjacent arguments] migration: overlapping edits") } else { chk!(false, "migration: {}", e) } return }
    let new = apply(code, &edits);
    let mut ok = squash(&new) == squash(want);
    let mut tagged = false;
    if !ok { for (k, tag) in known { if squash(&new) == squash(k) { note_str(&new); chk!(false, "{} migrated code differs from the ink! 5 form", tag); ok = true; tagged = true; break } } }
    if !ok { note_str(&new); note_str(want) }
    chk!(ok, "migrated code differs from the ink! 5 form");
    if !tagged { chk!(syntax_errors(&new) == 0, "migration: result has syntax errors") }
    if !ok || tagged { return }
    let again = Analysis::new(&new, Version::V4).migrate();
    match edits_ok(&new, &again) {
        Err(e) => chk!(false, "second migration: {}", e),
        Ok(()) => {
            let t = apply(&new, &again);
            if t == new { return }
            note_str(&new); note_str(&t);
            if dedup(&t) == dedup(&new) { chk!(false, "[e2e: signature and imports repeated] migrating again changes the code") } else { chk!(false, "migrating again changes the code") }
        }
    }
}
fn e2e_body() {
    let p = pick(PLACES);
    let c = pick(E2E);
    // a nested function or a constant block is not part of the test
    assume(!p.contains("fn inner") && !p.contains("const {"));
    let n = text(1, b"abc");
    let doc = |x: &str, sig: &str, uses: &str| format!("#[cfg(all(test, feature = \"e2e-tests\"))]\nmod e2e_tests {{\n    use super::*;\n{}\n    #[ink_e2e::test]\n    async fn it_works_{}{} -> R {{\n        let contract = 1;\n{}    }}\n}}\n", uses, n, sig, p.replace('@', x));
    let dep = c.0.contains("build_message::<") && !c.0.contains("ink_e2e::build") || c.0.contains("MessageBuilder");
    let imp = if c.0.contains("MessageBuilder") { "    use ink_e2e::MessageBuilder;\n" } else { "    use ink_e2e::build_message;\n" };
    let code = doc(c.0, "(mut client: ink_e2e::Client<C, E>)", if dep { imp } else { "" });
    assume(syntax_errors(&code) == 0);
    let sig = "<Client: E2EBackend>(mut client: Client)";
    let want = doc(c.1, sig, &if c.2.is_empty() { String::new() } else { format!("    use ink_e2e::{}Backend;\n", c.2) });
    let uses = |t: &str| if t.is_empty() { String::new() } else { format!("    use ink_e2e::{}Backend;\n", t) };
    let mut known: Vec<(String, &str)> = vec![];
    if c.0.contains("build_message::<Ref>(id.clone()).call(|c| c.flip(1))") { known.push((doc("client.call(&a, build_message::<Ref>(id.clone()).call(|c| c.flip(1))).submit().await", sig, &uses("Contracts")), "[e2e: nested call]")) }
    if c.0.starts_with("other.") { known.push((doc("other.free_balance(acc).await", sig, &uses("Chain")), "[e2e: other receiver]")) }
    if c.0.starts_with("x.call(a") { known.push((doc("x.call(a, b).value(c).storage_deposit_limit(d).submit()", sig, &uses("Contracts")), "[e2e: other receiver]")) }
    migrated_e2e(&code, &want, &known, false);
}
fn e2e_attr(k: usize) {
    let w = vary(&[12, 4, 8, 2, 3, 2], k);
    let (a4, a5) = [
        ("", ""), ("()", "()"), ("(environment = crate::E)", "(environment = crate::E)"), ("(additional_contracts = \"a/Cargo.toml\")", ""), ("(keep_attr = \"x\")", ""),
        ("(additional_contracts = \"a\", keep_attr = \"x\")", ""), ("(keep_attr = \"x\", additional_contracts = \"a\",)", ""),
        ("(additional_contracts = \"a\", environment = crate::E)", "(environment = crate::E)"), ("(environment = crate::E, additional_contracts = \"a\")", "(environment = crate::E)"),
        ("(environment = crate::E, keep_attr = \"x\", additional_contracts = \"a\")", "(environment = crate::E,)"), ("(additional_contracts = \"a\", environment = crate::E, keep_attr = \"x\")", "(environment = crate::E)"),
        ("(keep_attr = \"x\", additional_contracts = \"a\", environment = crate::E)", "(environment = crate::E)"),
    ][w[0]];
    let s4 = ["(mut client: ink_e2e::Client<C, E>)", "(client: Client<C>)", "()", "<Client: E2EBackend>(mut client: Client)"][w[1]];
    let imports: &[(&str, &str)] = &[("", ""), ("    use ink_e2e::build_message;\n", ""), ("    use ink_e2e::{build_message, MessageBuilder};\n", ""), ("    use ink_e2e::{build_message, alice};\n", "    use ink_e2e::{alice};\n"), ("    use ink_e2e::{alice, MessageBuilder};\n", "    use ink_e2e::{alice, };\n"), ("    use ink_e2e::alice;\n", "    use ink_e2e::alice;\n"), ("    use other::build_message;\n", "    use other::build_message;\n"), ("    use ink_e2e::ContractsBackend;\n", "    use ink_e2e::ContractsBackend;\n")];
    let (i4, i5) = imports[w[2]];
    let call = w[3] == 1;
    let place = w[4];
    let two = w[5] == 1;
    let doc = |a: &str, s: &str, i: &str, c: &str, extra: &str| {
        let f = |n: usize| format!("    /// Docs\n    #[ink_e2e::test{}]\n    async fn t{}{} -> R {{\n        let x = 1; // client.balance(a)\n{}        Ok(())\n    }}\n", a, n, s, c);
        let fs = if two { f(1) + "\n" + &f(2) } else { f(1) };
        match place {
            0 => format!("#[cfg(all(test, feature = \"e2e-tests\"))]\nmod e2e_tests {{\n    use super::*;\n{}{}\n{}}}\n", i, extra, fs),
            1 => format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct C {{}}\n\n    #[cfg(all(test, feature = \"e2e-tests\"))]\n    mod e2e_tests {{\n    use super::*;\n{}{}\n{}}}\n}}\n", i, extra, fs),
            _ => format!("//! Docs\n#![allow(x)]\n{}\nuse super::*;\n{}\n{}", extra, i, fs),
        }
    };
    let (c4, c5) = if call { ("        client.upload(\"c\", &a, None).await;\n", "        client.upload(\"c\", &a).submit().await;\n") } else { ("", "") };
    let code = doc(a4, s4, i4, c4, "");
    let extra = if call && !i4.contains("ContractsBackend") { "    use ink_e2e::ContractsBackend;\n" } else { "" };
    let sig = "<Client: E2EBackend>(mut client: Client)";
    let overlap = a4.contains("keep_attr") && a4.contains("additional_contracts") && a4.contains("environment");
    let mut known: Vec<(String, &str)> = vec![];
    // what the known defects yield: imports repeated (once per test) or placed before inner attributes, signatures repeated
    for n in 0..3 {
        let imp = "    use ink_e2e::ContractsBackend;\n".repeat(n);
        for s in [sig, "<Client: E2EBackend><Client: E2EBackend>(mut client: Client)"] {
            for (x, y) in [("", ""), ("//! Docs\n#![allow(x)]\n", "//! Docs\n@#![allow(x)]\n")] {
                let d = doc(a5, s, i5, c5, if x.is_empty() { &imp } else { "" });
                let d = if x.is_empty() { d } else { d.replace(x, &y.replace('@', &imp)) };
                if (s == sig || w[1] == 3) && (x.is_empty() || place == 2) && n <= 1 + two as usize { known.push((d, if s != sig || x.is_empty() { "[e2e: signature and imports repeated]" } else { "[e2e: import before inner attributes]" })) }
            }
        }
    }
    migrated_e2e(&code, &doc(a5, sig, i5, c5, extra), &known, overlap);
}
pub static JOBS: &[Job] = &[
    Job { name: "c14_host", prop: "C14", tier: "quick", need: &["migrated", "nothing"], bound: "one of 21 calls (10 forms of ink! 4 host function calls, 11 to keep) in one of 43 expression positions", f: || host(false) },
    Job { name: "c14_host2", prop: "C14", tier: "thorough", need: &["migrated"], bound: "two calls in two statements", f: || host(true) },
    Job { name: "c14_events", prop: "C14", tier: "quick", need: &["migrated"], bound: "one or two legacy events in 6 attribute layouts and 4 bodies, a symbolic byte in the name, 3 file heads, with or without imports, before or after other items", f: events },
    Job { name: "c14_chain", prop: "C14", tier: "quick", need: &["migrated"], bound: "a chain extension with 4 macro argument forms, 6 function argument forms, one or two attributes, other chain extensions in the file, a symbolic id digit", f: chain },
    Job { name: "c14_scale", prop: "C14", tier: "quick", need: &["migrated", "nothing"], bound: "two items with any of 13 derive layouts each, 3 item kinds", f: scale },
    Job { name: "c14_e2e_body", prop: "C14", tier: "quick", need: &["migrated"], bound: "one of 16 client calls in one of 41 expression positions", f: e2e_body },
    Job { name: "c14_e2e_attr", prop: "C14", tier: "quick", need: &["migrated"], bound: "12 attribute argument lists x 4 signatures x 8 imports x with/without a migrated call x 3 places x one or two tests; at most 2 of these differ from the default", f: || e2e_attr(2) },
    Job { name: "c14_e2e_attr_all", prop: "C14", tier: "thorough", need: &["migrated"], bound: "as c14_e2e_attr, at most 4 differ", f: || e2e_attr(4) },
];
