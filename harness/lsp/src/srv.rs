//! A client for the real server loop: all messages are queued, the loop runs until the queue is empty.
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use lsp_types::ClientCapabilities;
use serde_json::{json, Value};

pub fn caps(k: usize) -> ClientCapabilities {
    serde_json::from_value(match k {
        0 => json!({}),
        1 => json!({ "general": { "positionEncodings": ["utf-8"] }, "workspace": { "applyEdit": true, "workspaceEdit": { "documentChanges": true, "resourceOperations": ["create"] } }, "textDocument": { "completion": { "completionItem": { "snippetSupport": true } }, "codeAction": { "resolveSupport": { "properties": ["edit"] } } } }),
        _ => json!({ "general": { "positionEncodings": ["utf-32", "utf-16"] }, "textDocument": { "signatureHelp": { "signatureInformation": { "activeParameterSupport": true, "parameterInformation": { "labelOffsetSupport": true } } } } }),
    }).unwrap()
}
/// Runs the server on `msgs`; the messages it sends and whether it ended normally.
pub fn run(caps: ClientCapabilities, msgs: Vec<Message>) -> (Vec<Message>, bool) {
    let (server, client) = Connection::memory();
    let Connection { sender, receiver } = client;
    for m in msgs { sender.send(m).unwrap() }
    drop(sender);
    let ok = ink_lsp_server::main_loop(server, caps).is_ok();
    (receiver.try_iter().collect(), ok)
}
pub fn req(id: RequestId, method: &str, params: Value) -> Message { Message::Request(Request { id, method: method.to_string(), params }) }
pub fn not(method: &str, params: Value) -> Message { Message::Notification(Notification { method: method.to_string(), params }) }
pub fn open(uri: &str, lang: &str, version: i32, text: &str) -> Message { not("textDocument/didOpen", json!({ "textDocument": { "uri": uri, "languageId": lang, "version": version, "text": text } })) }
pub fn change(uri: &str, version: i32, texts: &[&str]) -> Message { not("textDocument/didChange", json!({ "textDocument": { "uri": uri, "version": version }, "contentChanges": texts.iter().map(|t| json!({ "text": t })).collect::<Vec<_>>() })) }
pub fn close(uri: &str) -> Message { not("textDocument/didClose", json!({ "textDocument": { "uri": uri } })) }
pub fn responses(out: &[Message]) -> Vec<&Response> { out.iter().filter_map(|m| match m { Message::Response(r) => Some(r), _ => None }).collect() }
pub fn published(out: &[Message]) -> Vec<&Value> { out.iter().filter_map(|m| match m { Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => Some(&n.params), _ => None }).collect() }
pub fn at(uri: &str, line: Value, character: Value) -> Value { json!({ "textDocument": { "uri": uri }, "position": { "line": line, "character": character } }) }
pub fn over(uri: &str, a: (Value, Value), b: (Value, Value)) -> Value { json!({ "textDocument": { "uri": uri }, "range": { "start": { "line": a.0, "character": a.1 }, "end": { "line": b.0, "character": b.1 } }, "context": { "diagnostics": [] } }) }
