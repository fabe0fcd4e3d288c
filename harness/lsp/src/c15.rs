//! C15: project creation.
use crate::chk;
use crate::run::Job;
use crate::srv::*;
use crate::sym::*;
use ink_analyzer::{new_project, Analysis, Version};
use lsp_server::RequestId;
use serde_json::{json, Value};

const KEYWORDS: &[&str] = &["as", "async", "await", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "try", "type", "unsafe", "use", "where", "while", "yield"];
fn ver(k: usize) -> Version { if k == 0 { Version::V4 } else { Version::V5 } }
fn module(name: &str) -> String { name.chars().map(|c| if c == '-' { '_' } else { c }).collect() }
fn pascal(name: &str) -> String {
    let mut s = String::new();
    let mut up = true;
    for c in name.chars() { if c == '_' || c == '-' { up = true } else if up { s.push(c.to_ascii_uppercase()); up = false } else { s.push(c) } }
    s
}
fn valid(name: &str) -> bool {
    let mut first = true;
    for c in name.chars() {
        let alpha = if c.is_ascii() { c.is_ascii_alphabetic() } else { c.is_alphabetic() };
        let ok = if first { alpha } else { alpha || c.is_ascii_digit() || c == '_' || c == '-' };
        if !ok { return false }
        first = false;
    }
    !first && !KEYWORDS.contains(&module(name).as_str()) && !KEYWORDS.contains(&pascal(name).as_str())
}
/// The project for `name` is that for another name, with the names replaced.
fn uniform(name: &str, v: Version) {
    let ok = valid(name);
    match new_project(name.to_string(), v) {
        Err(_) => { chk!(!ok, "valid name rejected"); reach("rejected") }
        Ok(p) => {
            chk!(ok, "invalid name accepted");
            let q = new_project("zq-wx".to_string(), v).unwrap();
            let f = |t: &str, plain: &str| t.replace("zq_wx", plain).replace("zq-wx", plain).replace("ZqWx", &pascal(name));
            chk!(p.lib.plain == f(&q.lib.plain, &module(name)), "lib.rs does not derive from the name");
            chk!(p.cargo.plain == f(&q.cargo.plain, name), "Cargo.toml does not derive from the name");
            chk!(p.lib.snippet == q.lib.snippet.map(|t| f(&t, &module(name))), "snippet of lib.rs does not derive from the name");
            chk!(p.cargo.snippet == q.cargo.snippet.map(|t| f(&t, name)), "snippet of Cargo.toml does not derive from the name");
            reach("accepted");
        }
    }
}
/// Every name of `n` ASCII characters.
fn ascii(n: usize) {
    let name = text(n, &core::array::from_fn::<u8, 128, _>(|i| i as u8));
    uniform(&name, ver(choose(2)));
}
fn words() {
    let v = ver(choose(2));
    let name = match choose(4) {
        0 => KEYWORDS[choose(KEYWORDS.len())].to_string(),
        1 => { let k = KEYWORDS[choose(KEYWORDS.len())]; match choose(4) { 0 => format!("{k}_"), 1 => format!("{k}-a"), 2 => format!("a_{k}"), _ => format!("{k}1") } }
        2 => pick(&["é", "aé", "漢字", "a💝", "💝", "a漢-b", "ünï_ö"]).to_string(),
        _ => pick(&["my_contract", "MyContract", "my-contract", "xMyContract", "amy_contract", "a--b", "a__b", "a-", "A", "self_", "Self-", "a b", "a.b", "a/b", "a\"b", "../a", "zq", "contract", "ink", "a$b", "${1:a}"]).to_string(),
    };
    note_str(&name);
    uniform(&name, v);
}
/// The generated contract and manifest are what they should be.
fn content() {
    let v = ver(choose(2));
    let name = pick(&["flipper", "my-token", "a_b_c", "X1", "Ab-cD"]);
    let p = new_project(name.to_string(), v).unwrap();
    chk!(Analysis::new(&p.lib.plain, v).diagnostics().is_empty(), "generated contract has diagnostics");
    chk!(p.lib.plain.contains(&format!("pub mod {} {{", module(name))), "module name");
    chk!(p.lib.plain.contains(&format!("pub struct {} {{", pascal(name))) && p.lib.plain.contains(&format!("impl {} {{", pascal(name))), "contract type name");
    match toml::from_str::<toml::Table>(&p.cargo.plain) {
        Err(_) => chk!(false, "manifest is not TOML"),
        Ok(t) => {
            chk!(t["package"]["name"].as_str() == Some(name), "package name");
            chk!(t["lib"]["path"].as_str() == Some("lib.rs"), "library path");
            let dep = t["dependencies"]["ink"]["version"].as_str().unwrap_or("");
            chk!(dep.starts_with(if v == Version::V5 { "5." } else { "4." }), "ink! version of the manifest");
            let std = t["features"]["std"].as_array().unwrap();
            for f in std { let f = f.as_str().unwrap_or(""); let d = f.split('/').next().unwrap(); chk!(t["dependencies"].get(d).is_some(), "feature of a missing dependency") }
            reach("manifest");
        }
    }
}
/// The `createProject` command.
fn command() {
    let root = pick(&["file:///w/p", "file:///w/p/", "untitled:x", "nope"]);
    let name = pick(&["flipper", "my-token", "x_1", "", "1a", "a b", "fn", "é"]);
    let k = choose(2);
    let (out, ok) = run(caps(k), vec![req(RequestId::from(1), "workspace/executeCommand", json!({ "command": "createProject", "arguments": [{ "name": name, "root": root }] }))]);
    let rs = responses(&out);
    chk!(ok && rs.len() == 1, "no answer");
    let good = valid(name) && root.starts_with("file");
    chk!(rs[0].error.is_none() == good, "project created for an invalid name or root, or not for a valid one");
    let edits: Vec<&lsp_server::Request> = out.iter().filter_map(|m| match m { lsp_server::Message::Request(r) => Some(r), _ => None }).collect();
    if !good { chk!(edits.is_empty(), "files created for an invalid name"); reach("rejected"); return }
    let p = new_project(name.to_string(), Version::V5).unwrap();
    let mut want = vec![("file:///w/p/Cargo.toml", p.cargo.plain), ("file:///w/p/lib.rs", p.lib.plain)];
    let mut got: Vec<(String, String)> = vec![];
    if k == 0 {
        let r = rs[0].result.clone().unwrap_or(Value::Null);
        chk!(r["name"] == json!(name) && r["uri"] == json!("file:///w/p/"), "name or URI of the response");
        for (u, c) in r["files"].as_object().unwrap() { got.push((u.clone(), c.as_str().unwrap().to_string())) }
    } else {
        chk!(edits.len() == 1, "not one workspace edit");
        for c in edits[0].params["edit"]["documentChanges"].as_array().unwrap() {
            if c.get("kind").is_some() { chk!(c["kind"] == json!("create"), "not created"); continue }
            got.push((c["textDocument"]["uri"].as_str().unwrap().to_string(), c["edits"][0]["newText"].as_str().unwrap().to_string()));
        }
    }
    got.sort();
    want.sort();
    chk!(got.len() == 2 && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.1 == w.1), "files of the project");
    reach("created");
}
pub static JOBS: &[Job] = &[
    Job { name: "c15_ascii_1", prop: "C15", tier: "quick", need: &["accepted", "rejected"], bound: "every name of 1 ASCII byte (symbolic), both versions", f: || ascii(1) },
    Job { name: "c15_ascii_2", prop: "C15", tier: "quick", need: &["accepted", "rejected"], bound: "every name of 2 ASCII bytes (symbolic), both versions", f: || ascii(2) },
    Job { name: "c15_ascii_3", prop: "C15", tier: "quick", need: &["accepted", "rejected"], bound: "every name of 3 ASCII bytes (symbolic), both versions", f: || ascii(3) },
    Job { name: "c15_ascii_4", prop: "C15", tier: "thorough", need: &["accepted", "rejected"], bound: "every name of 4 ASCII bytes (symbolic), both versions", f: || ascii(4) },
    Job { name: "c15_words", prop: "C15", tier: "quick", need: &["accepted", "rejected"], bound: "keywords and variations, names with other scripts, names that resemble the templates", f: words },
    Job { name: "c15_content", prop: "C15", tier: "quick", need: &["manifest"], bound: "5 names, both versions: the contract has no diagnostics, the manifest is consistent", f: content },
    Job { name: "c15_command", prop: "C15", tier: "quick", need: &["created", "rejected"], bound: "8 names, 4 roots, with and without workspace edits", f: command },
];
