//! C02: what the server answers (all features) is the analysis of the bytes the client means, in the negotiated encoding.
use crate::chk;
use crate::run::Job;
use crate::srv::*;
use crate::sym::*;
use ink_analyzer::{ActionKind, Analysis, TextRange, TextSize, Version};
use lsp_server::{Connection, Message, RequestId};
use serde_json::{json, Value};

/// Documents; `§` marks cursors.
const DOCS: [&str; 6] = [
    "/* é🦀 */ #[ink::contract(§env = crate::É§, ke§)]\r\nmod ✓c§ {}\n",
    "#[ink::contract]\nmod c { /* 🦀✓ */ #[ink(storage)] struct S; /*é*/ impl S { /*🦀*/ #[ink(§mes§sage, selector = 1§, )]§ fn m(&self) { /*é*/§ } #[ink(constructor)] pub fn n() -> Self {} } }",
    "// é\n/*🦀*/ #[ink::chain_extension] /*✓*/ pub trait X§ { type ErrorCode = É; /*é*/ #[ink(extension§ = 1)] fn f(é: u8);\r\n/*é🦀*/ #[ink(§)] fn g(&self); #[ink(extension = 0x1)] fn h(); }\n",
    "#[ink::contract]\nmod c {\n/*é*/ #[ink(§event, anonymous)] /*🦀*/ pub struct É { /*✓*/ #[ink(§)] a: u8,§ b: u16 }\n /*é*/ #[§] fn x() {} }\r\n/*🦀*/ #[ink::§",
    "/*✓*/ #[ink::trait_definition(namespace = \"é🦀\", keep_attr§ = \"é\")] pub trait T { /*🦀*/ #[ink(message,§ payable, selector = \"é\")] fn m(§); }",
    "#[cfg(test)]\nmod t {\n /*é🦀*/ #[ink_e2e::test(§additional_contracts = \"é\", §environment = É)] async fn x() {§} /*✓*/ #[ink::test(§)] fn y(é: u8) {} }\n",
];
fn units(s: &str, k: &str) -> u32 { match k { "utf-8" => s.len() as u32, "utf-16" => s.chars().map(|c| c.len_utf16() as u32).sum(), _ => s.chars().count() as u32 } }
struct C<'a> { text: &'a str, enc: &'a str }
impl C<'_> {
    fn pos(&self, o: TextSize) -> Value {
        let b = &self.text[..usize::from(o)];
        let s = b.rfind('\n').map_or(0, |i| i + 1);
        json!({ "line": b.matches('\n').count(), "character": units(&b[s..], self.enc) })
    }
    fn range(&self, r: TextRange) -> Value { json!({ "start": self.pos(r.start()), "end": self.pos(r.end()) }) }
}
fn server(d: &str) {
    let encs: &[&str] = match choose(6) { 0 => &[], 1 => &["utf-8"], 2 => &["utf-16"], 3 => &["utf-32", "utf-16"], 4 => &["utf-16", "utf-8"], _ => &["utf-7"] };
    let rich = choose(2) == 1;
    let (mut text, mut cur) = (String::new(), vec![]);
    for (i, p) in d.split('§').enumerate() { if i > 0 { cur.push(TextSize::of(text.as_str())) } text.push_str(p) }
    let mut general = json!({});
    if !encs.is_empty() { general = json!({ "positionEncodings": encs }) }
    let mut td = json!({});
    if rich { td = json!({ "completion": { "completionItem": { "snippetSupport": true } }, "codeAction": { "resolveSupport": { "properties": ["edit"] } }, "signatureHelp": { "signatureInformation": { "activeParameterSupport": true, "parameterInformation": { "labelOffsetSupport": true } } } }) }
    let caps = json!({ "general": general, "textDocument": td });
    // the encoding the server announces
    let (server, client) = Connection::memory();
    client.sender.send(req(RequestId::from(0), "initialize", json!({ "capabilities": caps }))).unwrap();
    client.sender.send(not("initialized", json!({}))).unwrap();
    let (server, params) = match ink_lsp_server::initialize(server) { Ok(x) => x, Err(_) => { chk!(false, "initialization failed"); return } };
    let hello: Vec<Message> = client.receiver.try_iter().collect();
    let enc = match &hello[..] { [Message::Response(r)] => r.result.as_ref().map_or(String::new(), |r| r["capabilities"]["positionEncoding"].as_str().unwrap_or("utf-16").to_string()), _ => String::new() };
    chk!(if encs.is_empty() { enc == "utf-16" } else { encs.contains(&enc.as_str()) || enc == "utf-16" }, "negotiated encoding is none the client knows");
    let cx = C { text: &text, enc: &enc };
    let uri = "untitled:é.rs";
    let ask = |o: TextSize| json!({ "textDocument": { "uri": uri }, "position": cx.pos(o) });
    let over = |r: TextRange| json!({ "textDocument": { "uri": uri }, "range": cx.range(r), "context": { "diagnostics": [] } });
    client.sender.send(open(uri, "rust", 1, &text)).unwrap();
    let mut id = 0;
    let mut send = |m: &str, p: Value| { id += 1; client.sender.send(req(RequestId::from(id), m, p)).unwrap() };
    let whole = TextRange::new(TextSize::new(0), TextSize::of(text.as_str()));
    for (i, o) in cur.iter().enumerate() {
        let r = TextRange::new(*o, *cur.get(i + 1).unwrap_or(o));
        send("textDocument/hover", ask(*o)); send("textDocument/completion", ask(*o)); send("textDocument/signatureHelp", ask(*o));
        send("textDocument/codeAction", over(TextRange::empty(*o))); send("textDocument/codeAction", over(r)); send("textDocument/inlayHint", over(r));
    }
    send("textDocument/inlayHint", over(whole));
    let Connection { sender, receiver } = client;
    drop(sender);
    chk!(ink_lsp_server::main_loop(server, params.capabilities).is_ok(), "the server stopped");
    let out: Vec<Message> = receiver.try_iter().collect();
    let a = Analysis::new(&text, Version::V4);
    let uri = match published(&out)[..] { [p] => {
        let want: Vec<Value> = a.diagnostics().iter().map(|d| json!([cx.range(d.range), d.message, if matches!(d.severity, ink_analyzer::Severity::Error) { 1 } else { 2 }])).collect();
        let got: Vec<Value> = p["diagnostics"].as_array().unwrap().iter().map(|d| json!([d["range"], d["message"], d["severity"]])).collect();
        chk!(got == want, "published diagnostics");
        if !got.is_empty() { reach("diagnostic") }
        p["uri"].as_str().unwrap_or("").to_string()
    } _ => { chk!(false, "diagnostics not published"); return } };
    let mut id = 0;
    let mut next = || { id += 1; let r = responses(&out).into_iter().filter(|r| r.id == RequestId::from(id)).collect::<Vec<_>>(); chk!(r.len() == 1 && r[0].error.is_none(), "request not answered"); r.first().and_then(|r| r.result.clone()).unwrap_or(Value::Null) };
    let hints = |v: Value, r: TextRange| {
        let want: Vec<Value> = a.inlay_hints(Some(r)).iter().map(|h| json!([cx.pos(h.position), format!(": {}", h.label)])).collect();
        let got: Vec<Value> = v.as_array().map_or(vec![], |v| v.iter().map(|h| json!([h["position"], h["label"]])).collect());
        chk!(got == want, "inlay hints"); if !got.is_empty() { reach("hint") }
    };
    let actions = |v: Value, r: TextRange| {
        let want: Vec<Value> = a.actions(r).iter().map(|x| if matches!(x.kind, ActionKind::Migrate | ActionKind::Extract) { json!([x.label, null, { "start": u32::from(x.range.start()), "end": u32::from(x.range.end()) }]) } else { json!([x.label, x.edits.iter().map(|e| json!({ "range": cx.range(e.range), "newText": e.text })).collect::<Vec<_>>(), null]) }).collect();
        let got: Vec<Value> = v.as_array().map_or(vec![], |v| v.iter().map(|x| json!([x["title"], x["edit"]["changes"][&uri], if x["command"].is_null() { x["data"]["range"].clone() } else { x["command"]["arguments"][0]["range"].clone() }])).collect());
        chk!(got == want, "code actions"); if !got.is_empty() { reach("action") }
    };
    for (i, o) in cur.iter().enumerate() {
        let r = TextRange::new(*o, *cur.get(i + 1).unwrap_or(o));
        let v = next();
        match a.hover(TextRange::empty(*o)) { None => chk!(v.is_null(), "hover without content"), Some(h) => { chk!(v["range"] == cx.range(h.range) && v["contents"] == json!(h.content), "hover"); reach("hover") } }
        let v = next();
        let want: Vec<Value> = a.completions(*o).iter().map(|c| json!([c.label, cx.range(c.range), match &c.edit.snippet { Some(s) if rich => s, _ => &c.edit.text }])).collect();
        let got: Vec<Value> = v["items"].as_array().map_or(vec![], |v| v.iter().map(|c| json!([c["label"], c["textEdit"]["range"], c["textEdit"]["newText"]])).collect());
        chk!(got == want, "completions"); if !got.is_empty() { reach("completion") }
        if rich { for (g, c) in v["items"].as_array().map_or(&[][..], |v| v).iter().zip(a.completions(*o)) { chk!((g["insertTextFormat"] == json!(2)) == c.edit.snippet.is_some(), "completion format") } } else { for g in v["items"].as_array().map_or(&[][..], |v| v) { chk!(g["insertTextFormat"] != json!(2), "snippet for a client without snippets") } }
        let v = next();
        let want: Vec<Value> = a.signature_help(*o).iter().map(|s| json!([s.label, s.parameters.iter().map(|p| { let (b, e) = (usize::from(p.range.start()), usize::from(p.range.end())); if rich { json!([units(&s.label[..b], &enc), units(&s.label[..e], &enc)]) } else { json!(s.label[b..e]) } }).collect::<Vec<_>>(), if rich { json!(s.active_parameter) } else { Value::Null }])).collect();
        let got: Vec<Value> = v["signatures"].as_array().map_or(vec![], |v| v.iter().map(|s| json!([s["label"], s["parameters"].as_array().map_or(vec![], |p| p.iter().map(|p| p["label"].clone()).collect()), s["activeParameter"]])).collect());
        chk!(got == want, "signature help"); if !got.is_empty() { reach("signature"); chk!(v["activeParameter"] == json!(a.signature_help(*o)[0].active_parameter), "active parameter") }
        actions(next(), TextRange::empty(*o)); actions(next(), r); hints(next(), r);
    }
    hints(next(), whole);
}
macro_rules! srv { ($($n:literal, $i:literal, $need:expr;)*) => { &[$(Job { name: $n, prop: "C02", tier: "quick", need: $need, bound: "a document with characters of 1..=4 bytes before every construct, 6 lists of client encodings, 2 sets of client capabilities; hover, completion, signature help, code actions, inlay hints at every marked cursor and range, published diagnostics", f: || server(DOCS[$i]) }),*] } }
pub static JOBS: &[Job] = srv! {
    "c02_server_macro", 0, &["diagnostic", "completion", "hover"];
    "c02_server_contract", 1, &["diagnostic", "hover", "action"];
    "c02_server_chain", 2, &["diagnostic", "completion", "hint", "action"];
    "c02_server_event", 3, &["completion", "action"];
    "c02_server_trait", 4, &["diagnostic", "hint", "hover"];
    "c02_server_test", 5, &["hint", "hover"];
};
