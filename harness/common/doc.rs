//! Helpers shared by the property modules: applying edits, syntax errors, snippets.
#![allow(dead_code)]
use crate::chk;
use crate::sym::*;
use ink_analyzer::*;
use ink_analyzer_ir::syntax::SourceFile;

pub fn at(o: usize) -> TextSize { TextSize::from(o as u32) }
pub fn rng(a: usize, b: usize) -> TextRange { TextRange::new(at(a), at(b)) }
pub fn se(r: TextRange) -> (usize, usize) { (r.start().into(), r.end().into()) }
pub fn syntax_errors(code: &str) -> usize { SourceFile::parse(code).errors().len() }

/// Are the edits applicable to `code` (inside, on character boundaries, not overlapping)?
pub fn edits_ok(code: &str, edits: &[TextEdit]) -> Result<(), &'static str> {
    let mut v: Vec<(usize, usize)> = vec![];
    for e in edits {
        let (s, t) = se(e.range);
        if t > code.len() { return Err("range outside the document") }
        if !code.is_char_boundary(s) || !code.is_char_boundary(t) { return Err("range not on a character boundary") }
        if let Some(sn) = &e.snippet { if !snippet_agrees(sn, &e.text) { return Err("snippet differs from plain text") } }
        v.push((s, t));
    }
    v.sort();
    for w in v.windows(2) { if w[1].0 < w[0].1 { return Err("overlapping edits") } }
    Ok(())
}
/// Applies non-overlapping edits (LSP semantics: all ranges refer to the original; equal inserts keep their order).
pub fn apply(code: &str, edits: &[TextEdit]) -> String {
    let mut ix: Vec<usize> = (0..edits.len()).collect();
    ix.sort_by_key(|i| (edits[*i].range.start(), edits[*i].range.end()));
    let mut out = String::with_capacity(code.len() + 256);
    let mut pos = 0;
    for i in ix {
        let (s, t) = se(edits[i].range);
        let (s, t) = (concretize(s as u64) as usize, concretize(t as u64) as usize);
        out.push_str(&code[pos..s]);
        out.push_str(&edits[i].text);
        pos = t;
    }
    out.push_str(&code[pos..]);
    out
}
/// Expands an LSP snippet to the text it inserts when every placeholder keeps its default.
pub fn expand_snippet(s: &str) -> String {
    let b = s.as_bytes();
    let mut out: Vec<u8> = Vec::with_capacity(b.len());
    let mut i = 0;
    let mut depth = 0;
    while i < b.len() {
        match b[i] {
            b'\\' if i + 1 < b.len() && matches!(b[i + 1], b'$' | b'}' | b'\\') => { out.push(b[i + 1]); i += 2 }
            b'$' if i + 1 < b.len() && b[i + 1].is_ascii_digit() => { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1 } }
            b'$' if i + 1 < b.len() && b[i + 1] == b'{' => {
                i += 2;
                while i < b.len() && b[i].is_ascii_digit() { i += 1 }
                if i < b.len() && b[i] == b':' { i += 1; depth += 1 } else if i < b.len() && b[i] == b'}' { i += 1 }
            }
            b'}' if depth > 0 => { depth -= 1; i += 1 }
            c => { out.push(c); i += 1 }
        }
    }
    unsafe { String::from_utf8_unchecked(out) }
}
/// The snippet, with every placeholder at its default, is the plain text up to white space.
pub fn snippet_agrees(sn: &str, text: &str) -> bool {
    let e = expand_snippet(sn);
    e == text || e.split_whitespace().flat_map(|w| w.chars()).eq(text.split_whitespace().flat_map(|w| w.chars()))
}

/// C09 for one list of edits; returns the resulting document if they can be applied.
pub fn check_edits(what: &str, code: &str, clean: bool, edits: &[TextEdit]) -> Option<String> {
    match edits_ok(code, edits) {
        Err(e) => { chk!(false, "{}: {}", what, e); None }
        Ok(()) => {
            let new = apply(code, edits);
            if clean { let n = syntax_errors(&new); if n > 0 { note_str(&new) } chk!(n == 0, "{}: result has syntax errors", what) }
            Some(new)
        }
    }
}
/// Message/label with the quoted source fragments and names removed (keeps violations of one kind together).
pub fn gist(m: &str) -> String {
    let mut out = String::new();
    let mut q = false;
    for c in m.chars() { if c == '`' { q = !q; if q { out.push('`') } continue } if !q && c != '\n' { out.push(c) } }
    out
}
pub fn pos(code: &str, pat: &str) -> usize { code.find(pat).unwrap() }
/// Layouts of a template whose lines are separated by '\n'.
pub fn layout(code: &str, k: usize) -> String {
    match k {
        1 => { let mut o = String::new(); for l in code.lines() { if !o.is_empty() { o.push(' ') } o.push_str(l.trim_start()) } o }
        2 => { let mut o = String::new(); for l in code.lines() { o.push_str(l); o.push_str("\n\n") } o }
        3 => { let mut o = String::new(); for l in code.lines() { o.push_str(l); o.push_str("\r\n") } o }
        4 => { let mut o = String::new(); for l in code.lines() { o.push_str("\t"); o.push_str(l); o.push_str(" // é✓ \n") } o }
        _ => code.to_string(),
    }
}
pub fn version(k: usize) -> Version { if k == 0 { Version::V4 } else { Version::V5 } }
