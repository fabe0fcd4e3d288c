//! C04: answers and published diagnostics follow the document history.
use crate::chk;
use crate::run::Job;
use crate::srv::*;
use crate::sym::*;
use ink_analyzer::{Analysis, Version};
use ink_lsp_server::translator::{to_lsp, PositionTranslationContext};
use line_index::LineIndex;
use lsp_server::{Message, RequestId};
use serde_json::{json, Value};

const URIS: [&str; 2] = ["untitled:a.rs", "untitled:b.rs"];
const TEXTS: [&str; 3] = ["#[ink::contract]\nmod c {}\n", "é\n#[ink::event]\nstruct E;\n", "fn f() {}\n"];
fn diags(text: &str, v: Version) -> Value {
    let c = PositionTranslationContext { encoding: lsp_types::PositionEncodingKind::UTF16, line_index: LineIndex::new(text) };
    serde_json::to_value(Analysis::new(text, v).diagnostics().into_iter().filter_map(|d| to_lsp::diagnostic(d, &c)).collect::<Vec<_>>()).unwrap()
}
fn ver() -> i32 { i32::from_le_bytes([byte(&[]), byte(&[]), byte(&[]), byte(&[])]) }
fn question(k: usize, id: i32, uri: &str) -> Message {
    let id = RequestId::from(id);
    match k {
        0 => req(id, "textDocument/hover", at(uri, json!(0), json!(8))),
        1 => req(id, "textDocument/codeAction", over(uri, (json!(1), json!(0)), (json!(1), json!(0)))),
        2 => req(id, "textDocument/completion", at(uri, json!(1), json!(7))),
        _ => req(id, "textDocument/inlayHint", over(uri, (json!(0), json!(0)), (json!(1), json!(0)))),
    }
}
/// The model: open documents with their text and version, what was published.
fn history(n: usize, k: usize) {
    let mut open_docs: [Option<(usize, i32)>; 2] = [None, None];
    let mut want: Vec<(usize, Option<(usize, i32)>)> = vec![];
    let mut msgs = vec![];
    for _ in 0..n {
        let d = choose(2);
        match choose(7) {
            0 | 1 => { let (t, v) = (choose(3), ver()); msgs.push(open(URIS[d], "rust", v, TEXTS[t])); open_docs[d] = Some((t, v)); want.push((d, Some((t, v)))); assume(choose(2) == 0) }
            2 => msgs.push(open(URIS[d], "toml", ver(), TEXTS[0])),
            3 => { let (t, v) = (choose(3), ver()); msgs.push(change(URIS[d], v, &[TEXTS[t]])); if open_docs[d].is_some() { open_docs[d] = Some((t, v)); want.push((d, Some((t, v)))) } }
            4 => { let (t, v) = (choose(3), ver()); msgs.push(change(URIS[d], v, &[TEXTS[(t + 1) % 3], TEXTS[t]])); if open_docs[d].is_some() { open_docs[d] = Some((t, v)); want.push((d, Some((t, v)))) } }
            5 => msgs.push(change(URIS[d], ver(), &[])),
            _ => { msgs.push(close(URIS[d])); if open_docs[d].take().is_some() { want.push((d, None)) } }
        }
    }
    for d in 0..2 { msgs.push(question(k, d as i32, URIS[d])) }
    let (out, ok) = run(caps(0), msgs);
    chk!(ok, "the server stopped");
    let got = published(&out);
    chk!(got.len() == want.len(), "diagnostics not published exactly once per change");
    for (g, (d, w)) in got.iter().zip(&want) {
        chk!(g["uri"] == json!(URIS[*d]), "diagnostics published for another document");
        match w {
            Some((t, v)) => { chk!(g["version"] == json!(v), "version of published diagnostics"); chk!(g["diagnostics"] == diags(TEXTS[*t], Version::V4), "published diagnostics are not those of the latest text"); reach("published") }
            None => { chk!(g["diagnostics"] == json!([]), "diagnostics of a closed document not cleared"); chk!(g.get("version").map_or(true, |x| x.is_null()), "version of a closed document"); reach("cleared") }
        }
    }
    let rs = responses(&out);
    chk!(rs.len() == 2, "questions not answered");
    for d in 0..2 {
        let r = match rs.iter().find(|r| r.id == RequestId::from(d as i32)) { Some(r) => r, _ => { chk!(false, "question not answered"); continue } };
        match open_docs[d] {
            None => { chk!(r.result == Some(Value::Null), "answer for a document that is not open"); reach("closed") }
            Some((t, _)) => {
                let (fresh, _) = run(caps(0), vec![open(URIS[d], "rust", 0, TEXTS[t]), question(k, d as i32, URIS[d])]);
                let f = responses(&fresh);
                chk!(f.len() == 1 && f[0].result == r.result && f[0].error.is_none() == r.error.is_none(), "answer is not that of the latest text");
                reach("open");
            }
        }
    }
}
/// The language version is the one the project's manifest asks for.
fn project() {
    let major = concretize(byte(b"3456") as u64) as u8 as char;
    let five = major == '5' || major == '6';
    let lead = choose(9);
    assume(major != '6' || lead < 4);
    let req_ = match lead { 0 => format!("{major}.0.0"), 1 => format!("^{major}.1"), 2 => format!("={major}.2.3"), 3 => format!("~{major}.0"), 4 => format!("{major}"), 5 => format!(">= {major}.0, < {}", (major as u8 + 1) as char), 6 => format!("{major}.5.5"), 7 => format!("{major}.0.0-rc.5"), _ => format!(" {major}.*") };
    assume(major != '6');
    let inline = match choose(4) { 0 => format!("ink = \"{req_}\"\n"), 1 => format!("ink = {{ version = \"{req_}\", default-features = false }}\n"), 2 => format!("\n[dependencies.ink]\nversion = \"{req_}\"\n"), _ => format!("ink-x = \"5.0.0\"\nink = {{ default-features = false, package = \"ink\", version = \"{req_}\" }}\nink_e2e = \"4.0\"\n") };
    let place = choose(4);
    let body = format!("[package]\nname = \"a\"\n\n[dependencies]\n{inline}");
    let rel = match place { 0 => { file("Cargo.toml", &body); "lib.rs" } 1 => { file("Cargo.toml", &body); "src/lib.rs" } 2 => { file("w/Cargo.toml", &body); file("Cargo.toml", "[package]\nname = \"b\"\n[dependencies]\nink = \"3.0\"\n"); "w/src/x/mod.rs" } _ => { file("m/Cargo.toml", "[package]\nname = \"a\"\n[dependencies]\nink = { workspace = true }\n"); file("Cargo.toml", &format!("[workspace]\nmembers = [\"m\"]\n[workspace.dependencies]\n{}", inline.replace("[dependencies.ink]", "[workspace.dependencies.ink]"))); "m/src/lib.rs" } };
    file(rel, "");
    let v = if five { Version::V5 } else { Version::V4 };
    note_str(&body);
    asked(rel, v);
}
fn asked(rel: &str, v: Version) {
    let uri = format!("file://{}/{}", dir(), rel);
    let (out, ok) = run(caps(0), vec![open(&uri, "rust", 0, TEXTS[1]), change(&uri, 1, &[TEXTS[1]])]);
    let got = published(&out);
    chk!(ok && got.len() == 2, "diagnostics not published");
    for g in got { chk!(g["diagnostics"] == diags(TEXTS[1], v), "not analysed in the version of the project ({:?})", v); reach("version") }
}
fn other_projects() {
    let (m, v) = match choose(6) {
        0 => ("[dependencies]\nink = { git = \"https://x\" }\n", Version::V5),
        1 => ("[dependencies]\nink = { path = \"../ink\", default-features = false }\n", Version::V5),
        2 => ("[dependencies]\nink = { git = \"https://x\", version = \"4.3.0\" }\n", Version::V4),
        3 => ("[dependencies]\nother = \"5.0.0\"\n", Version::V4),
        4 => ("[package]\nname = \"x\"\nversion = \"5.0.0\"\n", Version::V4),
        _ => ("not toml [\n", Version::V4),
    };
    let rel = pick(&["lib.rs", "src/lib.rs"]);
    file("Cargo.toml", m);
    file(rel, "");
    asked(rel, v);
}
macro_rules! hist { ($($n:literal, $k:literal, $q:literal, $t:literal;)*) => { &[$(Job { name: $n, prop: "C04", tier: $t, need: &["published", "cleared", "closed", "open"], bound: concat!("every history of ", $k, " didOpen/didChange/didClose notifications over 2 documents and 3 texts (several or no content changes, other languages, any 32-bit versions), then a request to each document"), f: || history($k, $q) }),*] } }
pub static JOBS: &[Job] = hist! {
    "c04_history_2_hover", 2, 0, "quick";
    "c04_history_2_actions", 2, 1, "quick";
    "c04_history_2_completion", 2, 2, "quick";
    "c04_history_2_hints", 2, 3, "quick";
    "c04_history_3", 3, 1, "thorough";
    "c04_history_3_hover", 3, 0, "thorough";
};
pub static JOBS2: &[Job] = &[
    Job { name: "c04_project", prop: "C04", tier: "quick", need: &["version"], bound: "9 forms of version requirements for majors 3-5, 4 forms of the dependency, 4 project layouts (also workspaces)", f: project },
    Job { name: "c04_other_projects", prop: "C04", tier: "quick", need: &["version"], bound: "6 manifests without a version of ink!, 2 layouts", f: other_projects },
];
