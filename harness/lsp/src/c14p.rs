//! C14: migrating a project's manifest. C09/C18: extracting an event into a package of its own.
use crate::chk;
use crate::run::Job;
use crate::srv::*;
use crate::sym::*;
use ink_analyzer::{Analysis, Version};
use ink_analyzer_ir::syntax::SourceFile;
use lsp_server::{Message, RequestId};
use serde_json::{json, Value};
use toml::{Table, Value as T};

/// Byte offset of a position (UTF-16).
fn off(text: &str, p: &Value) -> usize {
    let (l, c) = (p["line"].as_u64().unwrap() as usize, p["character"].as_u64().unwrap() as usize);
    let start = if l == 0 { 0 } else { text.match_indices('\n').nth(l - 1).map_or(text.len(), |(i, _)| i + 1) };
    let (mut n, mut o) = (0, start);
    for ch in text[start..].chars() { if n >= c || ch == '\n' { break } n += ch.len_utf16(); o += ch.len_utf8() }
    chk!(n == c, "position outside the document");
    o
}
/// Applies LSP edits (they must not overlap).
fn patch(text: &str, edits: &Value) -> String {
    let mut es: Vec<(usize, usize, &str)> = edits.as_array().unwrap().iter().map(|e| (off(text, &e["range"]["start"]), off(text, &e["range"]["end"]), e["newText"].as_str().unwrap())).collect();
    es.sort_by_key(|e| (e.0, e.1));
    let (mut out, mut p) = (String::new(), 0);
    for (a, b, s) in es { chk!(a >= p && b >= a, "overlapping edits"); if a < p { continue } out.push_str(&text[p..a]); out.push_str(s); p = b }
    out.push_str(&text[p..]);
    out
}
fn command(uri: &str, text: &str, cmd: &str, arg: Value) -> Value {
    let (out, ok) = run(caps(0), vec![open(uri, "rust", 0, text), req(RequestId::from(1), "workspace/executeCommand", json!({ "command": cmd, "arguments": [arg] }))]);
    let rs = responses(&out);
    chk!(ok && rs.len() == 1, "no answer");
    if let Some(Message::Request(r)) = out.iter().find(|m| matches!(m, Message::Request(_))) { return json!({ "edits": r.params["edit"]["changes"] }) }
    match rs.first() { Some(r) if r.error.is_none() => r.result.clone().unwrap_or(Value::Null), e => { if let Some(e) = e.and_then(|r| r.error.as_ref()) { note_str(&e.message) } Value::Null } }
}
const CODE: &str = "#[ink::contract]\nmod c {\n    /* é */ #[ink(storage)]\n    pub struct C {}\n\n    impl C {\n        #[ink(message)]\n        pub fn m(&self) { self.env().invoke_contract(&p) }\n    }\n}\n";
fn cargo(all: bool) {
    let c = if all { (0..6).map(|_| 8).collect::<Vec<_>>() } else { vec![] };
    let sizes = [7, 5, 4, 4, 6, 3];
    let v = if all { c.iter().zip(sizes).map(|(_, n)| choose(n)).collect() } else { vary(&sizes, 2) };
    let ink = ["ink = { version = \"4.3.0\", default-features = false }\n", "ink = \"4.3\"\n", "ink = { version = \"4\", features = [\"a\"] } # é\n", "ink = { version = \"=4.2.1\", default-features = true, optional = true }\n", "", "ink = { git = \"https://x/y\", version = \"4.3.0\" }\n", "ink = { version = '4.0.1', package = \"ink\" }\n"][v[0]];
    let scale = ["scale = { package = \"parity-scale-codec\", version = \"3\", default-features = false, features = [\"derive\"] }\nscale-info = { version = \"2.6\", default-features = false, optional = true }\n", "", "scale = \"3\"\n", "scale-info = \"2\"\n", ""][v[1]];
    let tables = ["", "[dependencies.ink]\nversion = \"4.3.0\"\nfeatures = [\"b\"]\n\n", "[dependencies.scale]\npackage = \"parity-scale-codec\"\nversion = \"3\"\n\n", "[dependencies.other-x]\nversion = \"4.3.0\"\n\n"][v[2]];
    assume((v[0] == 4) == (v[2] == 1) && (v[1] != 0 && v[1] != 2 || v[2] != 2));
    let dev = ["[dev-dependencies]\nink_e2e = \"4.3.0\"\n\n", "", "[dev-dependencies]\nink_e2e = { version = \"4.3.0\" }\nscale = \"3\"\n\n", "[dev-dependencies]\nother = \"4.3.0\"\n\n"][v[3]];
    let feat = ["[features]\ndefault = [\"std\"]\nstd = [\n    \"ink/std\",\n    \"scale/std\",\n    \"scale-info/std\",\n]\nink-as-dependency = []\n", "", "[features]\nstd = [\"scale-info/std\", \"other/std\", \"scale/std\", \"ink/std\"]\n", "[features]\nstd = [\"ink/std\", \"x-scale/std\", \"scale/foo\"]\n", "[features]\nx = [\"a\"]\n", "[features]\nstd = [\"scale/std\"] # z\n"][v[4]];
    let head = ["[package]\nname = \"c\"\nversion = \"4.3.0\"\n\n", "# é top\n[package]\nname = \"scale\" # 4.3.0\n\n[lib]\npath = \"lib.rs\"\n\n", "[package]\nname = \"c\"\n\n[package.metadata]\nscale = { ink = \"4.0\" }\n\n"][v[5]];
    let m = format!("{head}[dependencies]\nfirst = \"1\" # kept\n{ink}{scale}last = {{ path = \"../last\" }}\n\n{tables}{dev}{feat}");
    note_str(&m);
    let mut want: Table = match toml::from_str(&m) { Ok(t) => t, Err(_) => { chk!(false, "template"); return } };
    {
        let deps = want["dependencies"].as_table_mut().unwrap();
        let mut i = match &deps["ink"] { T::Table(t) => t.clone(), _ => Table::new() };
        i.insert("version".into(), T::String("5.0.0".into()));
        if !i.contains_key("default-features") { i.insert("default-features".into(), T::Boolean(false)); }
        deps.insert("ink".into(), T::Table(i));
        deps.remove("scale"); deps.remove("scale-info");
    }
    if let Some(d) = want.get_mut("dev-dependencies").and_then(T::as_table_mut) { if d.contains_key("ink_e2e") { d.insert("ink_e2e".into(), T::String("5.0.0".into())); } }
    if let Some(s) = want.get_mut("features").and_then(T::as_table_mut).and_then(|f| f.get_mut("std")).and_then(T::as_array_mut) { s.retain(|x| !matches!(x.as_str(), Some("scale/std" | "scale-info/std"))) }
    file("Cargo.toml", &m);
    file("lib.rs", "");
    let uri = format!("file://{}/lib.rs", dir());
    let toml_uri = format!("file://{}/Cargo.toml", dir());
    let r = command(&uri, CODE, "migrateProject", json!({ "uri": uri }));
    chk!(r["edits"].as_object().map_or(false, |e| e.len() == 2), "project not migrated");
    if r.is_null() { return }
    let new = patch(&m, &r["edits"][&toml_uri]);
    match toml::from_str::<Table>(&new) { Err(_) => { note_str(&new); chk!(false, "migrated manifest is no TOML") } Ok(t) => { if t != want { note_str(&new) } chk!(t == want, "migrated manifest") } }
    for l in m.lines().filter(|l| l.contains('#') && !l.starts_with("ink") && !l.starts_with("std")) { chk!(new.lines().any(|x| x == l), "other lines of the manifest are not kept") }
    // the code
    let a = Analysis::new(CODE, Version::V4);
    let mut t = CODE.to_string();
    let mut es = a.migrate(); es.sort_by_key(|e| e.range.start());
    for e in es.iter().rev() { t.replace_range(usize::from(e.range.start())..usize::from(e.range.end()), &e.text) }
    chk!(patch(CODE, &r["edits"][&uri]) == t, "edits of the code");
    // again
    file("Cargo.toml", &new);
    let r = command(&uri, &t, "migrateProject", json!({ "uri": uri }));
    chk!(!r.is_null() && patch(&new, &r["edits"][&toml_uri]) == new && patch(&t, &r["edits"][&uri]) == t, "migrating the project again changes it");
    reach("migrated");
}
/// Own rendering of "FooBar" as a package name.
fn crate_of(name: &str) -> String { let mut o = String::new(); let mut up = true; for c in name.chars() { if c.is_uppercase() && !up { o.push('_') } o.push_str(&c.to_lowercase().to_string()); up = c.is_uppercase() } o }
fn extract() {
    let v = vary(&[6, 5, 4, 4, 3, 4], 2);
    let name = ["Event", "MyEvent", "Transfer2", "ABc", "É", "X"][v[0]];
    let attrs = [("#[ink(event)]\n    ", "#[ink::event]"), ("/// Docs.\n    #[ink(event, anonymous)]\n    #[derive(Debug)]\n    ", "#[ink::event(anonymous)]"), ("// c\n    #[ink::event]\n    ", "#[ink::event]"), ("#[ink::event(signature_topic = \"1111111111111111111111111111111111111111111111111111111111111111\")]\n    ", "#[ink::event(signature_topic = \"1111111111111111111111111111111111111111111111111111111111111111\")]"), ("#[derive(Clone)]\n    #[ink(event)]\n    #[ink(anonymous)]\n    #[cfg(a)]\n    ", "#[ink::event(anonymous)]")][v[1]];
    let body = [" {\n        #[ink(topic)]\n        a: u8,\n        /// é\n        b: [u8; 2],\n    }", " {}", ";", "(#[ink(topic)] u8);"][v[2]];
    let (pre, post) = [("    use ink::env;\n\n", "\n\n    impl C {}\n"), ("", "\n"), ("    // é\n    #[ink(storage)]\n    pub struct C {}\n\n", ""), (" #![x] ", " fn f() {} ")][v[3]];
    let taken = v[4];
    let deps = ["[dependencies]\nink = \"5.0\"\n", "[package]\nname = \"é\" # c\n[dependencies]\nink = { version = \"5.0.0\", default-features = false } # d\nother = \"1\"\n\n[features]\nstd = [\"ink/std\"]\n", "[dependencies]\n", "[dependencies.ink]\nversion = \"5.0\"\n"][v[5]];
    let code = format!("#[ink::contract]\nmod c {{\n{pre}    {}pub struct {name}{body}{post}}}\n", attrs.0);
    note_str(&code);
    chk!(SourceFile::parse(&code).errors().is_empty(), "template");
    let krate = crate_of(name);
    let package = krate.replace('_', "-");
    file("Cargo.toml", deps);
    file("src/lib.rs", "");
    for i in 0..taken { file(&format!("{package}{}/x", if i == 0 { String::new() } else { i.to_string() }), "") }
    let at = code.find("pub struct ").unwrap();
    let at = code[at..].find(name).map_or(at, |i| at + i);
    let uri = format!("file://{}/src/lib.rs", dir());
    let r = command(&uri, &code, "extractEvent", json!({ "uri": uri, "range": { "start": at, "end": at } }));
    if r.is_null() { chk!(false, "event not extracted"); return }
    chk!(r["name"] == json!(package), "name of the package");
    let new = patch(&code, &r["edits"][&uri]);
    let bad = !SourceFile::parse(&new).errors().is_empty();
    let flat = |s: &str| s.split_whitespace().collect::<String>();
    let kept = format!("{}{}", pre, post);
    let mut want = flat(&format!("#[ink::contract]mod c {{{kept}}}"));
    let u = flat(&format!("use {krate}::{name};"));
    let got = flat(&new);
    if bad || !got.contains(&u) { note_str(&new) }
    chk!(!bad, "extraction: result has syntax errors");
    chk!(got.contains(&u), "extraction: import missing");
    if v[1] == 2 { want = want.replace("//c", "") }
    let g = got.replacen(&u, "", 1).replace("//c", "");
    if g != want { note_str(&new) }
    chk!(g == want, "extraction: rest of the contract changed");
    let dirn = if taken == 0 { package.clone() } else { format!("{package}{taken}") };
    let files = r["files"].as_object().unwrap();
    chk!(files.len() == 2, "files of the package");
    let enc = |s: &str| lsp_types::Url::from_file_path(format!("{}/{}", dir(), s)).unwrap().to_string();
    let lib = files.get(&enc(&format!("{dirn}/src/lib.rs"))).and_then(Value::as_str);
    let man = files.get(&enc(&format!("{dirn}/Cargo.toml"))).and_then(Value::as_str);
    match lib { None => chk!(false, "no source file in a new folder"), Some(l) => {
        let ok = SourceFile::parse(l).errors().is_empty() && l.contains(attrs.1) && flat(l).contains(&flat(&format!("pub struct {name}{body}"))) && l.matches("ink::event").count() == 1 && !l.contains("ink(event") && ["Debug", "Clone", "cfg(a)", "/// Docs."].iter().all(|x| l.contains(x) == attrs.0.contains(x));
        if !ok { note_str(l) }
        chk!(ok, "extracted event");
    } }
    match man.and_then(|m| toml::from_str::<Table>(m).ok()) { None => chk!(false, "no manifest in a new folder"), Some(t) => chk!(t["package"]["name"].as_str() == Some(&package) && t["dependencies"]["ink"]["version"].as_str().map_or(false, |v| v.starts_with('5')), "manifest of the package") }
    let c = patch(deps, &r["edits"][&format!("file://{}/Cargo.toml", dir())]);
    let mut want: Table = toml::from_str(deps).unwrap();
    let mut d = Table::new(); d.insert("path".into(), T::String(dirn)); d.insert("default-features".into(), T::Boolean(false));
    want["dependencies"].as_table_mut().unwrap().insert(package, T::Table(d));
    let ok = toml::from_str::<Table>(&c).ok() == Some(want);
    if !ok { note_str(&c) }
    chk!(ok, "manifest of the contract");
    for l in deps.lines().filter(|l| l.contains('#')) { chk!(c.lines().any(|x| x == l), "other lines of the manifest are not kept") }
    reach("extracted");
}
pub static JOBS: &[Job] = &[
    Job { name: "c14_cargo", prop: "C14", tier: "thorough", need: &["migrated"], bound: "manifests: 7 forms of the ink dependency, 5 of scale/scale-info, 4 further tables, 4 dev-dependencies, 6 features, 3 heads; at most 2 of these differ from the default; migrateProject through the server, twice", f: || cargo(false) },
    Job { name: "c14_cargo_all", prop: "C14", tier: "thorough", need: &["migrated"], bound: "as c14_cargo, all combinations", f: || cargo(true) },
    Job { name: "c09_extract", prop: "C09", tier: "quick", need: &["extracted"], bound: "extractEvent through the server: 6 names, 5 attribute forms, 4 bodies, 4 surroundings, 0..=2 folders taken, 4 manifests; at most 2 of these differ from the default", f: extract },
];
