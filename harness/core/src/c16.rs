//! C16: analysis results move with the code: inserted trivia shifts ranges and changes no verdict, neither does renaming.
use crate::chk;
use crate::doc::*;
use crate::gen;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

/// How offsets of one document relate to those of the other: (offset in the original, bytes replaced there, bytes put there).
struct Moved { at: Vec<(usize, usize, usize)> }
impl Moved {
    fn start(&self, o: usize) -> usize { let mut d = 0isize; for &(p, old, new) in &self.at { if p + old <= o { d += new as isize - old as isize } else if p < o { return usize::MAX } } (o as isize + d) as usize }
    fn end(&self, o: usize) -> usize { let mut d = 0isize; for &(p, old, new) in &self.at { if p < o { if p + old > o { return usize::MAX } d += new as isize - old as isize } } (o as isize + d) as usize }
}
fn edit(code: &str, at: &[(usize, usize, usize)], text: &str) -> String {
    let mut out = String::with_capacity(code.len() + at.len() * text.len());
    let mut pos = 0;
    for &(p, old, _) in at { out.push_str(&code[pos..p]); out.push_str(text); pos = p + old }
    out.push_str(&code[pos..]);
    out
}
/// Is the text of the new document between the offsets nothing but inserted trivia and white space?
fn blank(m: &Moved, code: &str, s: usize, t: usize) -> bool {
    let mut o = 0; // offset in the original
    let mut n = 0; // offset in the new document
    let b = code.as_bytes();
    for &(p, old, new) in &m.at {
        while o < p { if n >= s && n < t && !b[o].is_ascii_whitespace() { return false } o += 1; n += 1 }
        if old > 0 && n + new > s && n < t { return false }
        o += old; n += new;
    }
    while o < b.len() { if n >= s && n < t && !b[o].is_ascii_whitespace() { return false } o += 1; n += 1 }
    true
}
/// Comments directly before an item are part of it in Rust's syntax tree: a range may start there.
fn shifted(what: &str, m: &Moved, code: &str, a: TextRange, b: TextRange) { moved(what, m, code, a, b, false) }
/// The range of a fix that removes something may extend over the trivia after it.
fn moved(what: &str, m: &Moved, code: &str, a: TextRange, b: TextRange, fix: bool) {
    let ((s, t), (u, w)) = (se(a), se(b));
    let (es, et) = (m.start(s), m.end(t));
    let ok = if s == t { u == w && (u == es || u == et || (et <= u && u <= es)) || (u, w) == (et, es) || (u < es && blank(m, code, u, es)) } else { (u == es || u < es && blank(m, code, u, es)) && (w == et || fix && w > et && blank(m, code, et, w)) };
    chk!(ok, "{}: range does not move with the code", what);
}
fn compare(a: &str, b: &str, v: Version, m: &Moved, same: &dyn Fn(&str, &str) -> bool) {
    let (x, y) = (Analysis::new(a, v), Analysis::new(b, v));
    let (dx, dy) = (x.diagnostics(), y.diagnostics());
    for (p, q) in dx.iter().zip(dy.iter()) {
        chk!(same(&p.message, &q.message), "verdict changes: {} / {}", gist(&p.message), gist(&q.message));
        chk!(p.severity == q.severity, "severity changes: {}", gist(&p.message));
        shifted(&gist(&p.message), m, a, p.range, q.range);
        let (fp, fq) = (p.quickfixes.as_deref().unwrap_or(&[]), q.quickfixes.as_deref().unwrap_or(&[]));
        chk!(fp.len() == fq.len(), "number of quickfixes changes: {}", gist(&p.message));
        for (f, g) in fp.iter().zip(fq.iter()) {
            chk!(same(&f.label, &g.label), "quickfix changes: {} / {}", gist(&f.label), gist(&g.label));
            chk!(f.kind == g.kind, "quickfix kind changes: {}", gist(&f.label));
            moved(&gist(&f.label), m, a, f.range, g.range, true);
            chk!(f.edits.len() == g.edits.len(), "number of edits changes: {}", gist(&f.label));
        }
    }
    chk!(dx.len() == dy.len(), "verdict changes: {}", gist(dx.get(dy.len()).or(dy.get(dx.len())).map_or("", |d| &d.message)));
    if !dx.is_empty() { reach("diagnostic") }
    let (hx, hy) = (x.inlay_hints(None), y.inlay_hints(None));
    chk!(hx.len() == hy.len(), "number of inlay hints changes");
    for (p, q) in hx.iter().zip(hy.iter()) {
        chk!(p.label == q.label && p.detail == q.detail, "inlay hint changes: {}", p.label);
        shifted("inlay hint", m, a, p.range, q.range);
        let (o, n): (usize, usize) = (p.position.into(), q.position.into());
        chk!(n == m.start(o) || n == m.end(o), "position of inlay hint does not move with the code");
        reach("hint");
    }
    let mut from = 0;
    while let Some(i) = a[from..].find("#[ink") {
        let o = from + i;
        from = o + 5;
        // inside the attribute's path, and inside the name of its first argument
        let e = o + a[o..].find(|c| c == '(' || c == ']').unwrap_or(3);
        for p in [o + 3, if a[e..].starts_with('(') { e + 2 } else { o + 4 }] {
            let q = m.start(p);
            if q == usize::MAX { continue }
            match (x.hover(rng(p, p)), y.hover(rng(q, q))) {
                (Some(h), Some(k)) => { chk!(h.content == k.content, "hover content changes"); shifted("hover", m, a, h.range, k.range); reach("hover") }
                (None, None) => {}
                _ => chk!(false, "hover appears or disappears"),
            }
        }
    }
}
/// Meaningless text: blank lines, white space and comments with symbolic contents.
fn trivia(few: bool) -> String {
    let k = choose(if few { 3 } else { 6 });
    let mut s: Vec<u8> = vec![];
    match k {
        0 => { s.push(b'\n'); if !few { for _ in 0..2 { s.push(byte(b" \t\n\r")) } } }
        1 => { s.extend(b"/* "); let b = byte(b"azAZ09_#[](){}!:;\"'\\ =,\n"); s.push(b); s.extend(b" */") }
        2 => { s.extend(b"// "); let b = byte(b"azAZ09_#[](){}!/:;\"'\\ =,"); s.push(b); s.extend(b"\n") }
        3 => s.extend("/* é /* nested */ #[ink(storage)] */".as_bytes()),
        4 => s.extend(b"// #[ink(message)]\n"),
        _ => s.extend("\r\n\u{2028}\t".as_bytes()),
    }
    unsafe { String::from_utf8_unchecked(s) }
}
/// Offsets where a token starts and trivia may be inserted.
pub fn gaps(code: &str) -> Vec<usize> {
    let f = ink_analyzer_ir::syntax::SourceFile::parse(code).tree();
    let mut out = vec![];
    let b = code.as_bytes();
    use ink_analyzer_ir::syntax::AstNode;
    let mut t = f.syntax().first_token();
    while let Some(x) = t {
        let o: usize = x.text_range().start().into();
        let joint = o > 0 && b":->=&|.<!#'".contains(&b[o - 1]) && b":->=&|.<!#[".contains(&b[o]);
        let trivia = x.kind().is_trivia() && x.text().starts_with('/');
        if !joint && !trivia && !(o > 0 && (b[o - 1] == b'\'' )) { out.push(o) }
        t = x.next_token();
    }
    out.push(code.len());
    out
}
fn lines(code: &str) -> Vec<usize> {
    let mut out = vec![];
    for (i, c) in code.bytes().enumerate() { if c == b'\n' { out.push(i + 1) } }
    out
}
fn everywhere(f: &str, k: usize) {
    let g = gen::family(f, k);
    let text = trivia(true);
    let n = text.len();
    let at: Vec<_> = lines(&g.code).into_iter().map(|o| (o, 0, n)).collect();
    let b = edit(&g.code, &at, &text);
    note_str(&b);
    compare(&g.code, &b, g.v, &Moved { at }, &|s, t| gist(s) == gist(t));
}
fn anywhere(f: &str, k: usize) {
    let g = gen::family(f, k);
    let l = gaps(&g.code);
    let o = l[pick_of(l.len())];
    let text = trivia(false);
    let at = vec![(o, 0, text.len())];
    let b = edit(&g.code, &at, &text);
    note_str(&b);
    compare(&g.code, &b, g.v, &Moved { at }, &|s, t| gist(s) == gist(t));
}
/// A case among more than 64.
pub fn pick_of(n: usize) -> usize { let i = choose((n + 63) / 64) * 64; i + choose((n - i).min(64)) }
fn word(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'_' || b >= 0x80 }
fn occurrences(code: &str, w: &str) -> Vec<usize> {
    let b = code.as_bytes();
    code.match_indices(w).map(|(i, _)| i).filter(|&i| (i == 0 || !word(b[i - 1])) && (i + w.len() == b.len() || !word(b[i + w.len()]))).collect()
}
fn rename(s: &str, old: &str, new: &str) -> String {
    let mut out = String::new();
    let mut pos = 0;
    for i in occurrences(s, old) { out.push_str(&s[pos..i]); out.push_str(new); pos = i + old.len() }
    out.push_str(&s[pos..]);
    out
}
const NAMES: &[&str] = &["c", "C", "x", "get", "new", "a", "b", "T", "X", "E", "G", "H", "S", "D", "Z", "Env", "it_works", "helper", "inner", "m", "z", "f"];
fn renamed(f: &str, k: usize) {
    let g = gen::family(f, k);
    let names: Vec<&&str> = NAMES.iter().filter(|n| !occurrences(&g.code, n).is_empty()).collect();
    let old = *names[choose(names.len())];
    let new = ["zq", "Renamed_name_1", "ñé"][choose(3)];
    let at: Vec<_> = occurrences(&g.code, old).into_iter().map(|o| (o, old.len(), new.len())).collect();
    // `extern "C"`
    assume(!(old == "C" && g.code.contains("\"C\"")));
    // the selector of `new` is the reserved one
    assume(!(old == "new" && g.code.contains("selector = @")));
    let b = edit(&g.code, &at, new);
    note_str(&b);
    compare(&g.code, &b, g.v, &Moved { at }, &|s, t| t == s.split('`').enumerate().map(|(i, x)| if i % 2 == 1 { rename(x, old, new) } else { x.to_string() }).collect::<Vec<_>>().join("`"));
}
macro_rules! jobs { ($p:literal, $f:ident, $tier:literal, $k:literal, $b:literal; $($fam:literal),*) => { &[$(Job { name: concat!("c16_", $p, "_", $fam), prop: "C16", tier: $tier, need: &[], bound: concat!("family ", $fam, ", at most ", $k, " holes differ from the default; ", $b), f: || $f($fam, $k) }),*] } }
pub static JOBS: &[Job] = jobs!("lines", everywhere, "quick", 1, "blank line or comment (one symbolic byte) inserted before every line but the first"; "message", "constructor", "contract", "event", "event2", "trait_def", "impl", "chain4", "chain5", "misc", "place");
pub static JOBS_T: &[Job] = jobs!("lines", everywhere, "thorough", 1, "blank line or comment (one symbolic byte) inserted before every line but the first"; "trait_impl");
pub static JOBS_GAP: &[Job] = jobs!("gap", anywhere, "quick", 0, "blank lines, white space or comments (symbolic bytes) inserted between any two tokens"; "event2", "trait_def", "chain5", "misc");
pub static JOBS_GAP1: &[Job] = jobs!("gap1", anywhere, "thorough", 1, "blank lines, white space or comments (symbolic bytes) inserted between any two tokens"; "message", "constructor", "contract", "event", "event2", "trait_def", "impl", "trait_impl", "chain4", "chain5", "misc", "place");
pub static JOBS_NAME: &[Job] = jobs!("rename", renamed, "quick", 1, "one user-chosen name consistently replaced by one of 3 others"; "contract", "event2", "trait_def", "chain4", "misc");
pub static JOBS_NAME0: &[Job] = jobs!("rename0", renamed, "quick", 0, "one user-chosen name consistently replaced by one of 3 others"; "message", "constructor", "event", "impl", "trait_impl", "chain5", "place");
pub static JOBS_NAME1: &[Job] = jobs!("rename", renamed, "thorough", 1, "one user-chosen name consistently replaced by one of 3 others"; "message", "constructor", "event", "impl", "trait_impl", "chain5", "place");
