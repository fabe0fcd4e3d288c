//! C08: attribute meaning is independent of argument order and layout.
use crate::chk;
use crate::doc::*;
use crate::gen;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;
use ink_analyzer_ir::syntax::{ast, AstNode, AstToken, SourceFile};
use ink_analyzer_ir::*;

fn attr(code: &str) -> Option<InkAttribute> { SourceFile::parse(code).tree().syntax().descendants().filter_map(ast::Attr::cast).find_map(InkAttribute::cast) }

const ENTITY: &[(&str, &str)] = &[("message", ""), ("constructor", ""), ("event", ""), ("extension", "1"), ("function", "0x2"), ("impl", ""), ("storage", ""), ("topic", "")];
const EXTRA: &[(&str, &str)] = &[("payable", ""), ("default", ""), ("selector", "0xdeadBEEF"), ("selector", "_"), ("selector", "@"), ("anonymous", ""), ("signature_topic", "\"11, = (\""), ("handle_status", "true"), ("namespace", "\"n\""), ("keep_attr", "\"a,b\""), ("env", "a::b::C"), ("derive", "false"), ("unknown_arg", "")];
const NAMES: &[&str] = &["additional_contracts", "anonymous", "backend", "constructor", "Decode", "default", "derive", "Encode", "env", "environment", "event", "extension", "function", "handle_status", "impl", "keep_attr", "message", "namespace", "node", "payable", "runtime_only", "sandbox", "selector", "signature_topic", "storage", "topic", "TypeInfo", "url"];
const MACROS: &[&str] = &["chain_extension", "contract", "event", "scale_derive", "storage_item", "test", "trait_definition"];

/// Arguments of an attribute: kinds, names, values, ranges, in source order.
fn check_args(code: &str, a: &InkAttribute, args: &[(&str, &str, usize, usize)]) {
    chk!(a.args().len() == args.len(), "number of arguments: {} instead of {}", a.args().len(), args.len());
    for (x, (n, v, s, e)) in a.args().iter().zip(args) {
        let known = NAMES.contains(n);
        chk!(x.name().map(|m| m.to_string()).as_deref() == Some(*n), "name of argument `{}`", n);
        chk!((*x.kind() != InkArgKind::Unknown) == known && (!known || x.kind().to_string() == *n), "kind of argument `{}`", n);
        let got = x.value().map(|v| v.to_string());
        chk!(got.as_deref().unwrap_or("") == *v, "value of argument `{}`", n);
        chk!(se(x.text_range()) == (*s, *e), "range of argument `{}`", n);
    }
    let _ = code;
}
/// Multiset of diagnostics without ranges and quoted text.
fn verdicts(code: &str, v: Version) -> Vec<String> { let mut r: Vec<String> = Analysis::new(code, v).diagnostics().iter().map(|d| gist(&d.message)).collect(); r.sort(); r }

macro_rules! lay { ($n:literal, $f:literal, $k:literal, $tier:literal) => { Job { name: $n, prop: "C08", tier: $tier, need: &["same"], bound: concat!("family ", $f, " with at most ", $k, " holes differing from the default x 4 layouts of the whole document (joined lines, blank lines, CRLF, tabs and non-ASCII comments)"), f: || {
    let g = gen::family($f, $k);
    let k = 1 + choose(4);
    // joining lines would let a line comment swallow code
    assume(!(k == 1 && g.code.contains("//")));
    let re = layout(&g.code, k);
    let (a, b) = (verdicts(&g.code, g.v), verdicts(&re, g.v));
    note_str(&re);
    if a != b { note_str(&a.join("|")); note_str(&b.join("|")) }
    check(a == b, "verdict depends on the layout");
    reach("same");
} } } }

pub static JOBS: &[Job] = &[
    Job { name: "c08_order", prop: "C08", tier: "quick", need: &["first", "later"], bound: "one entity argument of 8 with 2 of 13 other arguments in each of the 6 orders, 4 layouts", f: || {
        let e = ENTITY[choose(ENTITY.len())];
        let (i, j) = (choose(EXTRA.len()), choose(EXTRA.len()));
        assume(i != j);
        let (x, y) = (EXTRA[i], EXTRA[j]);
        let p = choose(6);
        let o = [[e, x, y], [e, y, x], [x, e, y], [y, e, x], [x, y, e], [y, x, e]][p];
        let (sep, eq, open, close) = pick(&[(", ", " = ", "(", ")"), (",", "=", "(", ",)"), (" , /* a, b = c */ ", "\n= // d\n", "( ", " )"), ("\n,\r\n", "  =\t", "(\n", "\n)")]);
        let mut code = format!("#[ink{}", open);
        let mut args = vec![];
        for (k, (n, v)) in o.iter().enumerate() {
            if k > 0 { code.push_str(sep) }
            let s = code.len();
            code.push_str(n);
            if !v.is_empty() { code.push_str(eq); code.push_str(v) }
            args.push((*n, *v, s, code.len()));
        }
        code.push_str(close);
        code.push_str("]\nfn f() {}");
        note_str(&code);
        let a = match attr(&code) { Some(a) => a, None => { check(false, "attribute not recognised"); return } };
        chk!(matches!(a.kind(), InkAttributeKind::Arg(k) if k.to_string() == e.0), "kind of the attribute is not `{}`", e.0);
        chk!(a.ink_arg_name().map(|n| n.to_string()).as_deref() == Some(e.0), "primary argument name is not `{}`", e.0);
        check_args(&code, &a, &args);
        reach(if p < 2 { "first" } else { "later" });
    } },
    Job { name: "c08_many", prop: "C08", tier: "quick", need: &["last"], bound: "one entity argument of 8 at any place among 4..=9 arguments (3..=8 consecutive ones of 14 others, 5 of these choices, including a nested one), 4 layouts of the end", f: || {
        let e = ENTITY[choose(ENTITY.len())];
        let n = 4 + choose(6);
        let p = choose(n);
        let off = choose(5) * 3;
        let close = pick(&[")", ",)", ", // c\n )", " ,\n)"]);
        let mut code = String::from("#[ink(");
        let mut args: Vec<(&str, &str, usize, usize)> = vec![];
        for k in 0..n {
            if k > 0 { code.push_str(", ") }
            let i = (off + k) % (EXTRA.len() + 1);
            let (name, v) = if k == p { e } else if i == EXTRA.len() { ("backend", "") } else { EXTRA[i] };
            let s = code.len();
            code.push_str(name);
            if !v.is_empty() { code.push_str(" = "); code.push_str(v) }
            if name == "backend" { code.push_str("( node, )") }
            args.push((name, v, s, code.len()));
        }
        code.push_str(close);
        code.push_str("]\nfn f() {}");
        note_str(&code);
        let a = match attr(&code) { Some(a) => a, None => { check(false, "attribute not recognised"); return } };
        chk!(matches!(a.kind(), InkAttributeKind::Arg(k) if k.to_string() == e.0), "kind of the attribute is not `{}`", e.0);
        chk!(a.ink_arg_name().map(|n| n.to_string()).as_deref() == Some(e.0), "primary argument name is not `{}`", e.0);
        check_args(&code, &a, &args);
        for (x, w) in a.args().iter().zip(&args) { if w.0 == "backend" { chk!(x.nested().is_some_and(|y| y.kind().to_string() == "node"), "nested argument") } }
        if p == n - 1 { reach("last") }
    } },
    Job { name: "c08_siblings", prop: "C08", tier: "quick", need: &["ok"], bound: "a callable with its entity argument and up to two other arguments split over 1..=3 attributes in any order, with doc comments and foreign attributes between", f: || {
        let e = pick(&["message", "constructor"]);
        let lists: [&[&str]; 5] = [&["E, payable, selector = 5"], &["E", "payable", "selector = 5"], &["payable, E", "selector = 5"], &["selector = 5", "E, payable"], &["selector = 5", "payable", "E"]];
        let l = lists[choose(5)];
        let mut code = String::from("impl C {\n");
        for a in l { code.push_str(&format!("    #[ink({})]\n{}", a.replace('E', e), pick(&["", "    /// #[ink(event)]\n", "    #[cfg(unix)]\n"]))) }
        code.push_str("    pub fn go(&self) {}\n}\n");
        note_str(&code);
        let f = SourceFile::parse(&code).tree();
        let m = f.syntax().descendants().find_map(Message::cast);
        let c = f.syntax().descendants().find_map(Constructor::cast);
        check(m.is_some() == (e == "message"), "message recognised");
        check(c.is_some() == (e == "constructor"), "constructor recognised");
        let (s, p, sel) = match (m, c) { (Some(m), _) => (m.selector_arg().and_then(|a| a.as_u32()), m.payable_arg().is_some(), m.composed_selector()), (_, Some(c)) => (c.selector_arg().and_then(|a| a.as_u32()), c.payable_arg().is_some(), c.composed_selector()), _ => return };
        check(s == Some(5), "selector argument found in any attribute");
        check(p, "payable argument found in any attribute");
        check(sel.map(|s| s.into_be_u32()) == Some(5), "selector");
        reach("ok");
    } },
    Job { name: "c08_names", prop: "C08", tier: "quick", need: &["known", "unknown"], bound: "argument names: every identifier of the 13 lengths that ink! arguments have, over letters and `_`", f: || {
        let lens = [3usize, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 20];
        let n = lens[choose(lens.len())];
        let s = text(n, b"ADEITabcdefghijklmnoprstuvwxy_");
        let kind = InkArgKind::from(s.as_str());
        let mut want = "unknown";
        for x in NAMES { if *x == s { want = x } }
        if want == "unknown" { reach("unknown") } else { reach("known") }
        check(kind.to_string() == want, "argument name taken for another one");
        check((kind == InkArgKind::Unknown) == (want == "unknown"), "argument name taken for unknown");
        note_str(want);
    } },
    Job { name: "c08_macros", prop: "C08", tier: "quick", need: &["known", "unknown", "e2e"], bound: "attribute macro names: every identifier of the lengths of ink! macros (4..=16), for `ink::` and `ink_e2e::`", f: || {
        let lens = [4usize, 5, 8, 12, 15, 16];
        let n = lens[choose(lens.len())];
        let s = text(n, b"abcdefghiklmnorstuvx_");
        let e2e = choose(2) == 1;
        let kind = InkMacroKind::from((if e2e { "ink_e2e" } else { "ink" }, s.as_str()));
        let mut want = "";
        if e2e { if s == "test" { want = "ink_e2e::test" } } else { for (x, p) in MACROS.iter().zip(["ink::chain_extension", "ink::contract", "ink::event", "ink::scale_derive", "ink::storage_item", "ink::test", "ink::trait_definition"]) { if *x == s { want = p } } }
        check(kind.path_as_str() == want, "macro name taken for another one");
        reach(if want.is_empty() { "unknown" } else if e2e { "e2e" } else { "known" });
        note_str(want);
    } },
    Job { name: "c08_macro_attr", prop: "C08", tier: "quick", need: &["ok"], bound: "attribute macros with 0..=2 arguments, 3 layouts of the path, both crates, deeper paths", f: || {
        let (path, want) = pick(&[("ink::contract", "ink::contract"), ("ink::chain_extension", "ink::chain_extension"), ("ink::event", "ink::event"), ("ink::scale_derive", "ink::scale_derive"), ("ink::storage_item", "ink::storage_item"), ("ink::test", "ink::test"), ("ink::trait_definition", "ink::trait_definition"), ("ink_e2e::test", "ink_e2e::test"), ("ink_e2e::contract", ""), ("ink::message", ""), ("ink::contract::x", ""), ("ink_e2e::test::test", ""), ("inks::contract", "-"), ("a::ink::contract", "-")]);
        let path = path.replace("::", pick(&["::", " :: ", "/* x */::\n"]));
        let (x, y) = (EXTRA[choose(EXTRA.len())], choose(3));
        let mut code = format!("#[{}(", path);
        let mut args = vec![];
        for k in 0..y { if k > 0 { code.push_str(", ") } let (n, v) = if k == 0 { x } else { ("keep_attr", "\"k\"") }; let s = code.len(); code.push_str(n); if !v.is_empty() { code.push_str(" = "); code.push_str(v) } args.push((n, v, s, code.len())) }
        code.push_str(")]\nmod m {}");
        note_str(&code);
        let a = attr(&code);
        if want == "-" { check(a.is_none(), "foreign attribute taken for ink!"); reach("ok"); return }
        let a = match a { Some(a) => a, None => { check(false, "attribute not recognised"); return } };
        chk!(matches!(a.kind(), InkAttributeKind::Macro(k) if k.path_as_str() == want), "kind of the attribute macro is not `{}`", want);
        check_args(&code, &a, &args);
        reach("ok");
    } },
    lay!("c08_lay_message", "message", 1, "quick"),
    lay!("c08_lay_contract", "contract", 1, "quick"),
    lay!("c08_lay_event", "event", 1, "quick"),
    lay!("c08_lay_event2", "event2", 1, "quick"),
    lay!("c08_lay_trait_def", "trait_def", 1, "quick"),
    lay!("c08_lay_impl", "impl", 1, "quick"),
    lay!("c08_lay_trait_impl", "trait_impl", 1, "quick"),
    lay!("c08_lay_chain4", "chain4", 1, "quick"),
    lay!("c08_lay_chain5", "chain5", 1, "quick"),
    lay!("c08_lay_misc", "misc", 1, "quick"),
    lay!("c08_lay_place", "place", 1, "quick"),
];
