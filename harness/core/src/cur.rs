//! Cursor-driven properties: C01 (no entry point panics), C09 (edits of completions, code actions, migration and
//! extraction are applicable), for every cursor and selection (symbolic offsets) in the document families.
use crate::chk;
use crate::doc::*;
use crate::gen;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

/// A symbolic offset anywhere in `0..=len` (block of 64 as a case, position in the block symbolic).
pub fn anywhere(len: usize) -> usize { within(0, len) }
pub fn within(lo: usize, hi: usize) -> usize {
    let n = (hi - lo) / 64 + 1;
    assume(n <= 64);
    let k = choose(n);
    let all: [u8; 64] = core::array::from_fn(|i| i as u8);
    let m = (hi - lo + 1 - 64 * k).min(64);
    lo + 64 * k + byte(&all[..m]) as usize
}
/// Every entry point at one selection.
pub fn all(a: &Analysis, code: &str, s: usize, t: usize) {
    let n = code.len();
    for c in a.completions(at(t)) { let (x, y) = se(c.range); chk!(x <= y && y <= n, "completion range outside the document") }
    for c in a.actions(rng(s, t)) { let (x, y) = se(c.range); chk!(x <= y && y <= n, "action range outside the document") }
    if let Some(h) = a.hover(rng(s, t)) { let (x, y) = se(h.range); chk!(x <= y && y <= n, "hover range outside the document") }
    for h in a.signature_help(at(t)) { let (x, y) = se(h.range); chk!(x <= y && y <= n, "signature range outside the document") }
    for h in a.inlay_hints(Some(rng(s, t))) { let (x, y) = se(h.range); chk!(x <= y && y <= n, "inlay hint range outside the document") }
    let _ = a.extract(rng(s, t));
    reach("done");
}
pub fn whole(a: &Analysis) { let _ = a.diagnostics(); let _ = a.inlay_hints(None); let _ = a.migrate(); }

fn cursor(f: &str, k: usize) {
    let g = gen::family(f, k);
    note_str(&g.code);
    let a = Analysis::new(&g.code, g.v);
    let o = anywhere(g.code.len());
    assume(o == g.code.len() || g.code.is_char_boundary(o));
    all(&a, &g.code, o, o);
}
fn select(f: &str, k: usize) { select_of(f, k, &[1, 9, 70]) }
fn select_all(f: &str, k: usize) { select_of(f, k, &[1, 2, 4, 9, 17, 33, 70, 150]) }
fn select_of(f: &str, k: usize, lens: &[usize]) {
    let g = gen::family(f, k);
    note_str(&g.code);
    let a = Analysis::new(&g.code, g.v);
    let s = anywhere(g.code.len());
    assume(g.code.is_char_boundary(s));
    let t = s + lens[choose(lens.len())];
    assume(t <= g.code.len() && g.code.is_char_boundary(t));
    all(&a, &g.code, s, t);
}
/// C09 at a cursor: completions or actions.
fn edits(f: &str, k: usize) {
    let g = gen::family(f, k);
    let code: &str = &g.code;
    note_str(code);
    let clean = syntax_errors(code) == 0;
    let a = Analysis::new(code, g.v);
    let o = anywhere(code.len());
    assume(code.is_char_boundary(o));
    edits_at(&a, code, clean, o, o);
}
pub fn edits_at(a: &Analysis, code: &str, clean: bool, s: usize, o: usize) {
    if s == o && choose(2) == 0 {
        for c in a.completions(at(o)) {
            let what = format!("completion {}", gist(&c.label));
            note_str(&what);
            if let Err(e) = edits_ok(code, std::slice::from_ref(&c.edit)) { chk!(false, "{}: {}", what, e) }
            reach("completion");
        }
    } else {
        for c in a.actions(rng(s, o)) {
            let what = format!("action {}", gist(&c.label));
            note_str(&what);
            check_edits(&what, code, clean, &c.edits);
            reach("action");
        }
    }
}
/// Further documents for the cursor: comments, tuple structs, unusual white space, test modules, unfinished code.
pub static ODD: &[&str] = &[
    "",
    " \u{2028}  \n",
    "// only a comment",
    "/* é */ // x\n\n",
    "//! inner docs\n\n\n",
    "use a::b;\n\n",
    "#![cfg_attr(not(feature = \"std\"), no_std)]\n\n\n",
    "#[ink::event]\npub struct E(u8);\n",
    "#[ink::event]\npub struct E;\n",
    "#[ink::event]\npub struct E { a: u8 }\n",
    "#[ink::event]\npub struct E {\n    // c\n    a: u8 // d\n    , /* e */\n}\n",
    "#[ink::contract]\nmod c {\n    #[ink(event)]\n    struct E(#[ink(topic)] u8, u8);\n}\n",
    "#[ink::contract]\nmod c {}\n",
    "#[ink::contract]\nmod c;\n",
    "#[ink::contract] mod c { #[ink(storage)] struct C; impl C { #[ink(constructor)] #[ink(payable)] pub fn n() -> Self {} /* a */ #[ink(message, selector = 0x1)] #[ink(default)] pub fn m(&self) {} } }",
    "#[ink::contract]\nmod c {\n    // comment\n\n    /// Docs\n    #[ink(storage)]\n    pub struct C {\n        a: u8, // b\n    }\n\n    impl C {\n        // comment\n\n        /// Docs\n        #[ink(message)]\n        #[cfg(a)]\n        pub fn get(&self) { let x = 1; } // d\n    }\n}\n",
    "#[ink::contract]\r\nmod c {\r\n    impl C {\r\n\r\n        pub fn f() {}\r\n    }\r\n    struct D {}\r\n\r\n}\r\n",
    "#[cfg(test)]\nmod tests {\n    use super::*;\n\n    #[ink::test]\n    fn t() {}\n}\n\n#[cfg(all(test, feature = \"e2e-tests\"))]\nmod e2e {\n    #[ink_e2e::test]\n    async fn t() {}\n}\n",
    "#[ink::trait_definition]\npub trait T {}\n\n#[ink::chain_extension]\npub trait X { // a\n}\n\n#[ink::chain_extension(extension = 1)]\npub trait Y {\n    type ErrorCode = ();\n    // b\n}\n",
    "#[ink::storage_item]\nenum A { B }\n\n#[ink::storage_item]\nunion U { a: u8 }\n\ntrait P {}\nfn f() {}\nenum Q { R(u8) }\nimpl Q {}\nmod m { mod n {} }\n",
    "#[ink::contract]\nmod c {\n    #[ink(message)]\n    #[ink(payable, selector = 1)]\n    pub fn a() {}\n    #[ink(impl)]\n    #[ink(namespace = \"n\")]\n    impl C {}\n    #[ink(selector = 1, message)]\n    fn b() {}\n}\n",
    "const A: u8 = 1;\nstatic B: u8 = 2;\ntype C = u8;\nm! { a }\nextern crate x;\nmacro_rules! r { () => {} }\n",
];
fn odd() -> (&'static str, Version) { let d = ODD[choose(ODD.len())]; (d, version(choose(2))) }
fn odd_sel(lens: &[usize]) {
    let (code, v) = odd();
    note_str(code);
    let a = Analysis::new(code, v);
    let n = lens[choose(lens.len())];
    let s = anywhere(code.len());
    assume(s + n <= code.len() && code.is_char_boundary(s) && code.is_char_boundary(s + n));
    all(&a, code, s, s + n);
}
macro_rules! cur { ($p:literal, $fun:ident, $need:expr, $bound:literal, $($n:literal, $f:literal, $k:literal, $tier:literal;)*) => { &[$(Job { name: $n, prop: $p, tier: $tier, need: $need, bound: concat!("family ", $f, ", at most ", $k, " holes differ from the default; ", $bound), f: || $fun($f, $k) },)*] } }
pub static JOBS1: &[Job] = cur!("C01", cursor, &["done"], "every cursor offset (symbolic); completions, actions, hover, signature help, inlay hints, extract",
    "c01_cur_message", "message", 0, "quick";
    "c01_cur_constructor", "constructor", 0, "thorough";
    "c01_cur_contract", "contract", 0, "quick";
    "c01_cur_event", "event", 0, "quick";
    "c01_cur_event2", "event2", 0, "quick";
    "c01_cur_trait_def", "trait_def", 0, "quick";
    "c01_cur_impl", "impl", 0, "quick";
    "c01_cur_trait_impl", "trait_impl", 0, "thorough";
    "c01_cur_chain4", "chain4", 0, "quick";
    "c01_cur_chain5", "chain5", 0, "quick";
    "c01_cur_misc", "misc", 0, "quick";
    "c01_cur_place", "place", 0, "quick";
    "c01_cur1_message", "message", 1, "thorough";
    "c01_cur1_contract", "contract", 1, "thorough";
    "c01_cur1_misc", "misc", 1, "thorough";
    "c01_cur1_place", "place", 1, "thorough";
    "c01_cur1_impl", "impl", 1, "thorough";
    "c01_cur1_event", "event", 1, "thorough";
    "c01_cur1_trait_def", "trait_def", 1, "thorough";
);
pub static JOBS1S: &[Job] = cur!("C01", select, &["done"], "every selection of 1, 9 or 70 bytes (symbolic start)",
    "c01_sel_contract", "contract", 0, "thorough";
    "c01_sel_event2", "event2", 0, "quick";
    "c01_sel_trait_def", "trait_def", 0, "quick";
    "c01_sel_chain5", "chain5", 0, "quick";
    "c01_sel_message", "message", 0, "thorough";
    "c01_sel_misc", "misc", 0, "quick";
    "c01_sel_place", "place", 0, "thorough";
    "c01_sel_trait_impl", "trait_impl", 0, "thorough";
);
pub static JOBS1T: &[Job] = cur!("C01", select_all, &["done"], "every selection of 1, 2, 4, 9, 17, 33, 70 or 150 bytes (symbolic start)",
    "c01_sel8_message", "message", 0, "thorough";
    "c01_sel8_contract", "contract", 0, "thorough";
    "c01_sel8_event", "event", 0, "thorough";
    "c01_sel8_event2", "event2", 0, "thorough";
    "c01_sel8_trait_def", "trait_def", 0, "thorough";
    "c01_sel8_chain4", "chain4", 0, "thorough";
    "c01_sel8_chain5", "chain5", 0, "thorough";
    "c01_sel8_misc", "misc", 0, "thorough";
    "c01_sel8_place", "place", 0, "thorough";
);
pub static JOBS9: &[Job] = cur!("C09", edits, &["action"], "every cursor offset (symbolic); the edits of every completion and code action",
    "c09_cur_message", "message", 0, "quick";
    "c09_cur_constructor", "constructor", 0, "quick";
    "c09_cur_contract", "contract", 0, "quick";
    "c09_cur_event", "event", 0, "quick";
    "c09_cur_event2", "event2", 0, "quick";
    "c09_cur_trait_def", "trait_def", 0, "quick";
    "c09_cur_impl", "impl", 0, "quick";
    "c09_cur_trait_impl", "trait_impl", 0, "quick";
    "c09_cur_chain4", "chain4", 0, "quick";
    "c09_cur_chain5", "chain5", 0, "quick";
    "c09_cur_misc", "misc", 0, "quick";
    "c09_cur_place", "place", 0, "quick";
);
fn docs(f: &str, k: usize) {
    let g = gen::family(f, k);
    note_str(&g.code);
    whole(&Analysis::new(&g.code, g.v));
    reach("done");
}
/// Half-typed code: the document ends, or continues after a missing token, at any token.
fn typing(f: &str, k: usize) {
    let g = gen::family(f, k);
    let l = crate::c16::gaps(&g.code);
    let i = crate::c16::pick_of(l.len() - 1);
    let (o, e) = (l[i], l[i + 1]);
    let mut code = g.code[..o].to_string();
    if choose(2) == 0 { code.push_str(&g.code[e..]) }
    note_str(&code);
    let a = Analysis::new(&code, g.v);
    whole(&a);
    all(&a, &code, o, o);
}
/// Any one character (symbolic) typed between two tokens.
fn stray(f: &str, k: usize) {
    let g = gen::family(f, k);
    let l = crate::c16::gaps(&g.code);
    let o = l[crate::c16::pick_of(l.len())];
    let b = byte(b"#[](){}<>\"'/*!:,;=&|.@_$\\ \na0r-");
    let mut s: Vec<u8> = g.code.as_bytes()[..o].to_vec();
    s.push(b);
    s.extend(&g.code.as_bytes()[o..]);
    let code = unsafe { String::from_utf8_unchecked(s) };
    note_str(&code);
    let a = Analysis::new(&code, g.v);
    whole(&a);
    all(&a, &code, o + 1, o + 1);
}
pub static JOBS_DOC: &[Job] = cur!("C01", docs, &["done"], "diagnostics, inlay hints and migration of the whole document",
    "c01_doc_message", "message", 1, "quick";
    "c01_doc_constructor", "constructor", 1, "quick";
    "c01_doc_contract", "contract", 1, "quick";
    "c01_doc_event", "event", 1, "quick";
    "c01_doc_event2", "event2", 1, "quick";
    "c01_doc_trait_def", "trait_def", 1, "quick";
    "c01_doc_impl", "impl", 1, "quick";
    "c01_doc_trait_impl", "trait_impl", 1, "quick";
    "c01_doc_chain4", "chain4", 1, "quick";
    "c01_doc_chain5", "chain5", 1, "quick";
    "c01_doc_misc", "misc", 1, "quick";
    "c01_doc_place", "place", 1, "quick";
    "c01_doc_names", "names", 1, "quick";
    "c01_doc3_names", "names", 3, "thorough";
);
pub static JOBS_TYPE: &[Job] = cur!("C01", typing, &["done"], "cut off at any token, or with any token missing; every entry point there",
    "c01_type_message", "message", 0, "quick";
    "c01_type_constructor", "constructor", 0, "thorough";
    "c01_type_contract", "contract", 0, "quick";
    "c01_type_event", "event", 0, "quick";
    "c01_type_event2", "event2", 0, "quick";
    "c01_type_trait_def", "trait_def", 0, "quick";
    "c01_type_impl", "impl", 0, "thorough";
    "c01_type_trait_impl", "trait_impl", 0, "thorough";
    "c01_type_chain4", "chain4", 0, "quick";
    "c01_type_chain5", "chain5", 0, "quick";
    "c01_type_misc", "misc", 0, "quick";
    "c01_type_place", "place", 0, "thorough";
    "c01_type1_message", "message", 1, "thorough";
    "c01_type1_event", "event", 1, "thorough";
    "c01_type1_chain5", "chain5", 1, "thorough";
    "c01_type1_misc", "misc", 1, "thorough";
);
pub static JOBS_STRAY: &[Job] = cur!("C01", stray, &["done"], "one further character (symbolic, of 34) between any two tokens; every entry point there",
    "c01_stray_event2", "event2", 0, "quick";
    "c01_stray_trait_def", "trait_def", 0, "thorough";
    "c01_stray_contract", "contract", 0, "thorough";
    "c01_stray_chain5", "chain5", 0, "thorough";
    "c01_stray_misc", "misc", 0, "thorough";
);
pub static JOBS_ODD: &[Job] = &[
    Job { name: "c01_odd", prop: "C01", tier: "quick", need: &["done"], bound: "22 further documents (cur.rs ODD: comments, tuple structs, unusual white space, CR LF, test modules, files without ink!) x versions x every cursor offset (symbolic); every entry point", f: || {
        let (code, v) = odd();
        note_str(code);
        let a = Analysis::new(code, v);
        if choose(2) == 0 { whole(&a); reach("whole"); return }
        let o = anywhere(code.len());
        assume(code.is_char_boundary(o));
        all(&a, code, o, o);
    } },
    Job { name: "c01_odd_sel", prop: "C01", tier: "quick", need: &["done"], bound: "22 further documents x versions x every selection of 17 bytes (symbolic start); every entry point", f: || odd_sel(&[17]) },
    Job { name: "c01_odd_sel8", prop: "C01", tier: "thorough", need: &["done"], bound: "22 further documents x versions x every selection of 1, 2, 3, 4, 9, 33, 60, 70 or 150 bytes (symbolic start); every entry point", f: || odd_sel(&[1, 2, 3, 4, 9, 33, 60, 70, 150]) },
    Job { name: "c09_odd", prop: "C09", tier: "quick", need: &["completion", "action"], bound: "22 further documents (cur.rs ODD) x versions x every cursor offset (symbolic) and every selection of 9 or 40 bytes; the edits of every completion and code action", f: || {
        let (code, v) = odd();
        note_str(code);
        let clean = syntax_errors(code) == 0;
        let a = Analysis::new(code, v);
        let s = anywhere(code.len());
        let t = s + pick(&[0usize, 9, 40]);
        assume(t <= code.len() && code.is_char_boundary(s) && code.is_char_boundary(t));
        edits_at(&a, code, clean, s, t);
    } },
];
