//! C03: every request gets exactly one response with its id, and nothing but shutdown/exit ends the server.
use crate::chk;
use crate::run::Job;
use crate::srv::*;
use crate::sym::*;
use lsp_server::{Message, RequestId, Response};
use serde_json::{json, Value};

pub const METHODS: &[&str] = &["textDocument/completion", "textDocument/hover", "textDocument/codeAction", "codeAction/resolve", "textDocument/inlayHint", "textDocument/signatureHelp", "workspace/executeCommand", "textDocument/definition"];
pub const CODE: &str = "#[ink::contract]\nmod c {\n    #[ink(event)]\n    pub struct E { a: u8 }\n\n    #[ink(storage)]\n    pub struct é {}\n}\n";
const A: &str = "untitled:a.rs";

/// Every request id gets one response with a result or an error, in the order of the requests.
fn answered(out: &[Message], ok: bool, ids: &[RequestId]) {
    let r = responses(out);
    for i in ids { chk!(r.iter().filter(|x| x.id == *i).count() == 1, "request without exactly one response") }
    chk!(r.len() == ids.len(), "response without a request");
    for x in &r { chk!(x.result.is_some() != x.error.is_some(), "response with neither or both of result and error"); reach(if x.error.is_some() { "error" } else { "result" }) }
    chk!(ok, "the server stopped with an error");
    chk!(r.last().map(|x| &x.id) == ids.last(), "last request not answered");
}
fn id(k: usize) -> RequestId { match k { 0 => RequestId::from(i32::from_le_bytes([byte(&[]), byte(&[]), byte(&[]), byte(&[])])), 1 => RequestId::from("x".to_string()), _ => RequestId::from("initialize-project::file:///p/".to_string()) } }
fn number() -> Value { match choose(6) { 0 => json!(byte(b"\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09") as u64), 1 => json!(u32::MAX), 2 => json!(u32::MAX as u64 + 1), 3 => json!(-1), 4 => json!(1.5), _ => Value::Null } }
fn uri() -> &'static str { pick(&[A, "untitled:b.rs", "file:///nonexistent-inksym-x/lib.rs", "no uri"]) }
fn malformed() -> Value { match choose(7) { 0 => Value::Null, 1 => json!({}), 2 => json!([]), 3 => json!("x"), 4 => json!(7), 5 => json!({ "textDocument": { "uri": A } }), _ => json!({ "textDocument": {}, "position": { "line": 0, "character": 0 } }) } }
fn command() -> Value {
    match choose(9) {
        0 => json!({ "command": "nope", "arguments": [] }),
        1 => json!({ "command": 7 }),
        2 => json!({ "command": "createProject" }),
        3 => json!({ "command": "createProject", "arguments": [{ "name": pick(&["a", "", "1", "a b"]), "root": pick(&["file:///p", "p", ""]) }] }),
        4 => json!({ "command": "migrateProject", "arguments": [{ "uri": uri() }] }),
        5 => json!({ "command": "migrateProject", "arguments": [] }),
        6 => json!({ "command": "extractEvent", "arguments": [{ "uri": A, "range": span() }] }),
        7 => json!({ "command": "extractEvent", "arguments": [{ "uri": A }] }),
        _ => json!({ "command": "extractEvent", "arguments": ["x", { "uri": A }] }),
    }
}
fn num() -> Value { match choose(5) { 0 => json!(u32::from_le_bytes([byte(&[]), byte(b"\x00\x01"), byte(b"\x00\xff"), byte(b"\x00\xff")])), 1 => json!(u64::MAX), 2 => json!(1u64 << 32), 3 => json!(-1), _ => json!("1") } }
fn span() -> Value { if choose(2) == 0 { json!({ "start": num(), "end": 66 }) } else { json!({ "start": 60, "end": num() }) } }
fn resolve() -> Value {
    let data = match choose(6) {
        0 => Value::Null,
        1 => json!({ "command": "migrateProject", "uri": uri() }),
        2 => json!({ "command": "extractEvent", "uri": A, "range": span() }),
        3 => json!({ "command": "extractEvent", "uri": A }),
        4 => json!({ "command": "nope" }),
        _ => json!([1]),
    };
    json!({ "title": "t", "data": data })
}
fn params(m: usize) -> Value {
    match m {
        0 | 1 | 5 => match choose(3) { 0 => at(uri(), json!(2), json!(9)), 1 => at(A, number(), json!(byte(b"\x00\x05\x0a\x0f\x14\xff"))), _ => at(A, json!(byte(b"\x00\x01\x02\x03\x06\x09\xff")), number()) },
        2 | 4 => { let u = |k: usize| json!(3 * k); match choose(5) { 0 => over(uri(), (u(0), u(0)), (u(1), u(3))), 1 => over(A, (number(), u(0)), (u(1), u(2))), 2 => over(A, (u(0), number()), (u(0), u(1))), 3 => over(A, (u(0), u(2)), (number(), u(1))), _ => over(A, (u(1), u(1)), (u(1), number())) } }
        3 => resolve(),
        6 => command(),
        _ => malformed(),
    }
}
fn canary() -> Message { req(RequestId::from(987654321), "textDocument/hover", at(A, json!(0), json!(8))) }
/// One arbitrary request to a server with an open document, then another one.
fn one(m: usize) {
    let k = choose(3);
    let c = caps(k);
    let i = id(k % 2);
    assume(i != RequestId::from(987654321));
    let p = if choose(4) == 3 { malformed() } else { params(m) };
    let (out, ok) = run(c, vec![open(A, "rust", 1, CODE), req(i.clone(), METHODS[m], p.clone()), canary()]);
    if !ok || responses(&out).len() != 2 { note_str(&p.to_string()) }
    answered(&out, ok, &[i, RequestId::from(987654321)]);
}
fn notif() -> Message {
    match choose(9) {
        0 => open(A, "rust", 2, ""),
        1 => close(A),
        2 => change(A, 3, &[]),
        3 => change("untitled:b.rs", 3, &["x"]),
        4 => not(pick(&["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"]), malformed()),
        5 => not("textDocument/didSave", malformed()),
        6 => not("$/cancelRequest", json!({ "id": 1 })),
        7 => not("", Value::Null),
        _ => Message::Response(Response { id: id(1 + choose(2)), result: if choose(2) == 0 { Some(Value::Null) } else { None }, error: None }),
    }
}
/// A sequence of notifications, client responses and requests.
fn sequence(n: usize) {
    let k = choose(2);
    let c = caps(k);
    let mut msgs = vec![];
    let mut ids = vec![];
    if k == 1 { msgs.push(open(A, "rust", 1, CODE)) }
    for k in 0..n {
        if choose(2) == 0 { msgs.push(notif()) } else {
            let i = RequestId::from(k as i32);
            let m = choose(METHODS.len());
            let p = if choose(2) == 0 { Value::Null } else { match m { 2 | 4 => over(A, (json!(0), json!(0)), (json!(1), json!(0))), 3 => json!({ "title": "t", "data": { "command": "extractEvent", "uri": A, "range": { "start": 60, "end": 66 } } }), 6 => json!({ "command": "createProject", "arguments": [{ "name": "a", "root": "file:///p" }] }), _ => at(A, json!(1), json!(2)) } };
            msgs.push(req(i.clone(), METHODS[m], p));
            ids.push(i);
        }
    }
    msgs.push(canary());
    ids.push(RequestId::from(987654321));
    let (out, ok) = run(c, msgs);
    answered(&out, ok, &ids);
}
fn shutdown() {
    let n = notif();
    let i = id(choose(2));
    let (out, ok) = run(caps(0), vec![open(A, "rust", 1, CODE), n, req(i.clone(), "shutdown", Value::Null), not("exit", Value::Null), canary()]);
    answered(&out, ok, &[i]);
    let (out, ok) = run(caps(0), vec![not("exit", Value::Null), canary()]);
    answered(&out, ok, &[]);
}
macro_rules! one { ($($n:literal, $m:literal;)*) => { &[$(Job { name: $n, prop: "C03", tier: "quick", need: &["result"], bound: "one request of this method to a server with an open document: 4 documents/URIs, symbolic and extreme positions and ranges (also inverted, negative, fractional, too large), 7 malformed parameters, any 32-bit id, 3 client configurations; then a second request", f: || one($m) }),*] } }
pub static JOBS: &[Job] = one! {
    "c03_completion", 0;
    "c03_hover", 1;
    "c03_code_action", 2;
    "c03_resolve", 3;
    "c03_inlay_hint", 4;
    "c03_signature", 5;
    "c03_command", 6;
    "c03_unknown", 7;
};
pub static JOBS2: &[Job] = &[
    Job { name: "c03_sequence_2", prop: "C03", tier: "quick", need: &["result", "error"], bound: "every sequence of 2 messages from 9 kinds of notifications and client responses (well-formed and not) and 8 request methods with 2 parameters, with or without an open document, then a request", f: || sequence(2) },
    Job { name: "c03_sequence_3", prop: "C03", tier: "thorough", need: &["result", "error"], bound: "as c03_sequence_2, 3 messages", f: || sequence(3) },
    Job { name: "c03_shutdown", prop: "C03", tier: "quick", need: &["result"], bound: "a notification, shutdown, exit; exit alone", f: shutdown },
];
