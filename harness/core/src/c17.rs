//! C17: structural rules are reported exactly when broken.
use crate::chk;
use crate::doc::*;
use crate::gen::{self, Gen};
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

pub fn rules(g: &Gen) {
    let d = Analysis::new(&g.code, g.v).diagnostics();
    note_str(&g.code);
    for x in &d { note_str(&gist(&x.message)) }
    if g.bad.is_empty() {
        reach("valid");
        for x in &d { chk!(false, "valid code reported ({:?}): {}", g.v, gist(&x.message)) }
        check(d.is_empty(), "valid code reported");
    } else {
        reach("invalid");
        for w in &g.bad { chk!(d.iter().any(|x| x.message.contains(w)), "broken rule not reported ({:?}): {}", g.v, w) }
        check(!d.is_empty(), "broken rule not reported");
    }
    for x in &d {
        let (s, t) = se(x.range);
        chk!(s <= t && t <= g.code.len(), "range outside the document: {}", gist(&x.message));
    }
}
macro_rules! job { ($n:literal, $f:literal, $k:literal, $tier:literal) => { Job { name: $n, prop: "C17", tier: $tier, need: &["valid", "invalid"], bound: concat!("family ", $f, " (harness/core/src/gen.rs), at most ", $k, " holes differ from the default, both versions where applicable"), f: || rules(&gen::family($f, $k)) } } }
pub static JOBS: &[Job] = &[
    job!("c17_message", "message", 2, "quick"),
    job!("c17_constructor", "constructor", 2, "quick"),
    job!("c17_contract", "contract", 2, "quick"),
    job!("c17_event", "event", 2, "quick"),
    job!("c17_event2", "event2", 2, "quick"),
    job!("c17_trait_def", "trait_def", 2, "quick"),
    job!("c17_impl", "impl", 2, "quick"),
    job!("c17_trait_impl", "trait_impl", 2, "quick"),
    job!("c17_chain4", "chain4", 2, "quick"),
    job!("c17_chain5", "chain5", 2, "quick"),
    job!("c17_misc", "misc", 2, "quick"),
    job!("c17_place", "place", 2, "quick"),
];
