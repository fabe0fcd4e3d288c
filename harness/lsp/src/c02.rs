//! C02: LSP positions and byte offsets.
use crate::chk;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::{TextRange, TextSize};
use ink_lsp_server::translator::{from_lsp, to_lsp, PositionTranslationContext};
use line_index::LineIndex;
use lsp_types::{Position, PositionEncodingKind, Range};

fn enc(k: usize) -> PositionEncodingKind { [PositionEncodingKind::UTF8, PositionEncodingKind::UTF16, PositionEncodingKind::UTF32][k].clone() }
fn units(s: &str, k: usize) -> u32 { match k { 0 => s.len() as u32, 1 => s.chars().map(|c| c.len_utf16() as u32).sum(), _ => s.chars().count() as u32 } }
/// A document of `n` pieces: line breaks, ASCII (a symbolic byte), characters of 2, 3 and 4 bytes.
fn text_of(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { match choose(6) { 0 => s.push('\n'), 1 => s.push_str("\r\n"), 2 => s.push(byte(b"az #\t") as char), 3 => s.push('é'), 4 => s.push('✓'), _ => s.push('🦀') } }
    s
}
fn ctx(code: &str, k: usize) -> PositionTranslationContext { PositionTranslationContext { encoding: enc(k), line_index: LineIndex::new(code) } }
/// A 32-bit number, every value.
fn any32() -> u32 { u32::from_le_bytes([any(), any(), any(), any()]) }
fn any() -> u8 { let all: [u8; 256] = core::array::from_fn(|i| i as u8); byte(&all) }
fn round(n: usize) { round_of(text_of(n)) }
/// Long lines: the pieces straddle the 16-byte chunks that line breaks are searched in.
fn long() { let k = 13 + choose(5); round_of(format!("{}{}", &"0123456789abcdefghij"[..k], text_of(2))) }
fn round_of(code: String) {
    let k = choose(3);
    note_str(&code);
    let c = ctx(&code, k);
    let mut o = 0;
    loop {
        let p = to_lsp::position(TextSize::new(o as u32), &c);
        let before = &code[..o];
        let start = before.rfind('\n').map_or(0, |i| i + 1);
        let want = Position::new(before.matches('\n').count() as u32, units(&before[start..], k));
        chk!(p == Some(want), "position of an offset");
        chk!(from_lsp::offset(want, &c) == Some(TextSize::new(o as u32)), "offset of a position");
        reach("offset");
        for e in o..=code.len() {
            if !code.is_char_boundary(e) { continue }
            let r = TextRange::new(TextSize::new(o as u32), TextSize::new(e as u32));
            let l = to_lsp::range(r, &c);
            chk!(l.is_some() && from_lsp::text_range(l.unwrap(), &c) == Some(r), "range and back");
        }
        if o == code.len() { break }
        o += 1;
        while !code.is_char_boundary(o) { o += 1 }
    }
}
/// Any position at all: rejected, or an offset on a character boundary of that line.
fn wild(n: usize) {
    let code = text_of(n);
    let k = choose(3);
    note_str(&code);
    let c = ctx(&code, k);
    let (line, col) = (any32(), any32());
    let lines = code.matches('\n').count() as u32 + 1;
    match from_lsp::offset(Position::new(line, col), &c) {
        None => { reach("rejected") }
        Some(o) => {
            let o = concretize(u32::from(o) as u64) as usize;
            chk!(o <= code.len(), "offset outside the document");
            chk!(code.is_char_boundary(o), "offset inside a character");
            let l = code[..o].matches('\n').count() as u32;
            chk!(line == l && line < lines, "offset on another line");
            let start = code[..o].rfind('\n').map_or(0, |i| i + 1);
            let end = code[o..].find('\n').map_or(code.len(), |i| o + i);
            let content = if code[..end].ends_with('\r') && end < code.len() { end - 1 } else { end };
            let u = units(&code[start..o], k);
            chk!(u == col || (o == end || o == content) && col > u, "position past the end of the line is not its end");
            reach("accepted");
        }
    }
}
fn wild_range() {
    let code = pick(&["ab\néf\r\n", "", "🦀\n\n✓x", "a"]);
    let k = choose(3);
    let c = ctx(code, k);
    let r = Range::new(Position::new(any32(), any32()), Position::new(any32(), any32()));
    match from_lsp::text_range(r, &c) {
        None => { reach("rejected") }
        Some(t) => { chk!(t.start() <= t.end() && u32::from(t.end()) as usize <= code.len(), "range outside the document"); reach("accepted") }
    }
}
fn out_of_range() {
    let code = text_of(2);
    let k = choose(3);
    note_str(&code);
    let c = ctx(&code, k);
    let o = any32();
    if let Some(p) = to_lsp::position(TextSize::new(o), &c) {
        let o = concretize(o as u64) as usize;
        chk!(o <= code.len() && code.is_char_boundary(o), "position for an offset that is none");
        note(p.line as u64); note(p.character as u64);
        reach("inside");
    } else { chk!(o as usize > code.len() || !code.is_char_boundary(concretize(o as u64) as usize), "no position for an offset"); reach("outside") }
}
/// Label offsets in another encoding.
fn label() {
    let code = text_of(3);
    let k = choose(3);
    note_str(&code);
    for o in 0..=code.len() { if code.is_char_boundary(o) { chk!(to_lsp::offset(TextSize::new(o as u32), &enc(k), &code) == units(&code[..o], k), "offset in a label"); reach("offset") } }
}
pub static JOBS: &[Job] = &[
    Job { name: "c02_round_3", prop: "C02", tier: "quick", need: &["offset"], bound: "documents of up to 3 pieces (LF, CR LF, a symbolic ASCII byte, characters of 2, 3, 4 bytes), 3 encodings, every offset and every range", f: || round(choose(4)) },
    Job { name: "c02_round_4", prop: "C02", tier: "quick", need: &["offset"], bound: "documents of 4 pieces, 3 encodings, every offset and every range", f: || round(4) },
    Job { name: "c02_long", prop: "C02", tier: "quick", need: &["offset"], bound: "documents of 13..=17 ASCII bytes and 2 pieces, 3 encodings, every offset and every range", f: long },
    Job { name: "c02_wild_4", prop: "C02", tier: "quick", need: &["rejected", "accepted"], bound: "documents of 4 pieces, 3 encodings, every line and column (two symbolic 32-bit numbers)", f: || wild(4) },
    Job { name: "c02_round_6", prop: "C02", tier: "thorough", need: &["offset"], bound: "documents of 6 pieces, 3 encodings, every offset and every range", f: || round(6) },
    Job { name: "c02_wild_3", prop: "C02", tier: "quick", need: &["rejected", "accepted"], bound: "documents of up to 3 pieces, 3 encodings, every line and column (two symbolic 32-bit numbers)", f: || wild(choose(4)) },
    Job { name: "c02_wild_5", prop: "C02", tier: "thorough", need: &["rejected", "accepted"], bound: "documents of 5 pieces, 3 encodings, every line and column (two symbolic 32-bit numbers)", f: || wild(5) },
    Job { name: "c02_wild_range", prop: "C02", tier: "quick", need: &["rejected", "accepted"], bound: "4 documents, 3 encodings, every range (four symbolic 32-bit numbers)", f: wild_range },
    Job { name: "c02_no_offset", prop: "C02", tier: "quick", need: &["inside", "outside"], bound: "documents of 2 pieces, 3 encodings, every 32-bit offset", f: out_of_range },
    Job { name: "c02_label", prop: "C02", tier: "quick", need: &["offset"], bound: "labels of 3 pieces, 3 encodings, every offset", f: label },
];
