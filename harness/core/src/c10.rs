//! C09/C10: edits are applicable; a quickfix resolves its diagnostic.
use crate::chk;
use crate::doc::*;
use crate::gen;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

/// Every diagnostic's range and quickfixes; C09 or C10 depending on `resolve`.
pub fn quickfixes(code: &str, v: Version, resolve: bool) {
    let clean = syntax_errors(code) == 0;
    let before = Analysis::new(code, v).diagnostics();
    note_str(code);
    for (i, d) in before.iter().enumerate() {
        let (s, t) = se(d.range);
        chk!(s <= t && t <= code.len() && code.is_char_boundary(s) && code.is_char_boundary(t), "diagnostic range outside the document: {}", gist(&d.message));
        let fixes = match &d.quickfixes { Some(f) => f, None => continue };
        if fixes.is_empty() { continue }
        reach("fix");
        // choose one: the cases are independent
        let f = &fixes[choose(fixes.len())];
        let mut what = format!("{} / {}", gist(&d.message), gist(&f.label));
        // classes of recorded findings get a message of their own, so that anything else is still reported
        if what.contains("self reference receiver") && f.edits.len() == 1 {
            let (_, e) = se(f.edits[0].range);
            let rest = &code[e..];
            if rest.starts_with("self") || rest.starts_with("mut self") { what.push_str(" [by-value receiver is kept]") }
        }
        note_str(&what);
        if !resolve { check_edits(&what, code, clean, &f.edits); continue }
        if edits_ok(code, &f.edits).is_err() { continue }
        let new = apply(code, &f.edits);
        // "Add .. argument value" may leave an empty placeholder that the user has to fill in
        if f.label.contains("argument value") && f.edits.iter().any(|e| e.text.ends_with("= \"\"") || e.text.ends_with("(\"\")")) { reach("placeholder"); continue }
        let after = Analysis::new(&new, v).diagnostics();
        // a report about missing traits is the same whichever of them it names
        let same = |x: &Diagnostic| x.message == d.message || d.message.contains("must implement the `scale") && x.message.contains("must implement the `scale") && x.message.split(" must").next() == d.message.split(" must").next();
        let n0 = before.iter().filter(|x| same(x)).count();
        let n1 = after.iter().filter(|x| same(x)).count();
        if n1 >= n0 { note_str(&new) }
        chk!(n1 < n0, "not resolved: {}", what);
        let _ = i;
    }
}
macro_rules! jobs { ($p:literal, $r:literal, $($n:literal, $f:literal, $k:literal, $tier:literal;)*) => { &[$(Job { name: $n, prop: $p, tier: $tier, need: &["fix"], bound: concat!("family ", $f, " (harness/core/src/gen.rs), at most ", $k, " holes differ from the default; every quickfix"), f: || { let g = gen::family($f, $k); quickfixes(&g.code, g.v, $r) } }),*] } }
pub static JOBS9: &[Job] = jobs!("C09", false,
    "c09_message", "message", 2, "quick";
    "c09_constructor", "constructor", 1, "quick";
    "c09_constructor_2", "constructor", 2, "thorough";
    "c09_contract", "contract", 2, "quick";
    "c09_event", "event", 2, "quick";
    "c09_event2", "event2", 2, "quick";
    "c09_trait_def", "trait_def", 2, "quick";
    "c09_impl", "impl", 2, "quick";
    "c09_trait_impl", "trait_impl", 1, "quick";
    "c09_trait_impl_2", "trait_impl", 2, "thorough";
    "c09_chain4", "chain4", 1, "quick";
    "c09_chain4_2", "chain4", 2, "thorough";
    "c09_chain5", "chain5", 2, "quick";
    "c09_misc", "misc", 2, "quick";
    "c09_place", "place", 2, "quick";
);
pub static JOBS10: &[Job] = jobs!("C10", true,
    "c10_message", "message", 1, "quick";
    "c10_message_2", "message", 2, "thorough";
    "c10_constructor", "constructor", 1, "quick";
    "c10_constructor_2", "constructor", 2, "thorough";
    "c10_contract", "contract", 2, "quick";
    "c10_event", "event", 2, "quick";
    "c10_event2", "event2", 2, "quick";
    "c10_trait_def", "trait_def", 2, "quick";
    "c10_impl", "impl", 2, "quick";
    "c10_trait_impl", "trait_impl", 1, "quick";
    "c10_trait_impl_2", "trait_impl", 2, "thorough";
    "c10_chain4", "chain4", 2, "quick";
    "c10_chain5", "chain5", 2, "quick";
    "c10_misc", "misc", 2, "quick";
    "c10_place", "place", 1, "quick";
    "c10_place_2", "place", 2, "thorough";
);
