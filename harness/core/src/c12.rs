//! C12: hover, inlay hints and signature help describe the construct at the cursor.
use crate::c11::{spelled, version_of, Ctx, CTX};
use crate::chk;
use crate::doc::*;
use crate::run::Job;
use crate::sym::*;
use ink_analyzer::*;

pub struct Arg { pub name: &'static str, pub n: (usize, usize), pub full: (usize, usize) }
/// A document with one attribute under study, and where its parts are.
pub struct Doc { pub code: String, pub v: Version, pub ctx: &'static Ctx, pub attr: (usize, usize), pub path: (usize, usize), pub paren: (usize, usize), pub args: Vec<Arg>, pub anchor: Option<&'static str> }
pub const ANCHORS: &[&str] = &["constructor", "message", "storage", "event", "topic", "impl", "extension", "function"];
pub fn is_anchor(a: &str, c: &Ctx) -> bool { c.open == "#[ink(" && ANCHORS.contains(&a) }

/// An attribute of `max` arguments at most, valid or at least known at that place, in one of several layouts.
pub fn doc(max: usize) -> Doc {
    let ctx = &CTX[choose(CTX.len())];
    let v = version_of(ctx);
    let mut have: Vec<&'static str> = vec![];
    let n = choose(max + 1);
    for _ in 0..n { let l = (ctx.args)(v, &have); assume(!l.is_empty()); have.push(l[choose(l.len())]) }
    let lay = choose(3);
    let (sep, pad, eq) = [(", ", "", " = "), (",", " ", "="), (" ,\n    ", "", " =  ")][lay];
    let mut code = String::from(ctx.pre);
    let a0 = code.len();
    code.push_str(ctx.open);
    let p1 = code.len() - 1;
    let p0 = a0 + ctx.open.rfind("::").map_or(2, |i| i + 2);
    let l = code.len();
    code.push_str(pad);
    let mut args = vec![];
    for (i, a) in have.iter().enumerate() {
        if i > 0 { code.push_str(sep) }
        let s = code.len();
        code.push_str(&spelled(a).replace(" = ", eq));
        args.push(Arg { name: a, n: (s, s + a.len()), full: (s, code.len()) });
    }
    code.push_str(pad);
    let r = code.len();
    code.push_str(")]");
    let a1 = code.len();
    code.push_str(ctx.post);
    let anchor = have.iter().copied().find(|a| is_anchor(a, ctx));
    Doc { code, v, ctx, attr: (a0, a1), path: (p0, p1), paren: (l, r), args, anchor }
}
/// A symbolic offset in `lo..=hi`.
pub fn offset(lo: usize, hi: usize) -> usize {
    assume(hi - lo < 256);
    let b = byte(&[]) as usize;
    assume(b <= hi - lo);
    lo + b
}
fn header(h: &Hover) -> &str { h.content.lines().find(|l| l.contains('`')).unwrap_or("") }
fn takes(name: &str, v: Version, ctor: bool) -> &'static str {
    let v5 = v == Version::V5;
    match name { "additional_contracts" | "keep_attr" | "namespace" | "signature_topic" | "url" => "&str", "backend" => "node | runtime_only", "env" | "environment" => "impl Environment", "extension" => if v5 { "u16" } else { "u32" }, "function" => "u16", "handle_status" | "derive" => "bool", "sandbox" => "impl drink::Sandbox", "selector" => if v5 && !ctor { "u32 | _ | @" } else { "u32 | _" }, _ => "" }
}
pub static JOBS: &[Job] = &[
    Job { name: "c12_hover", prop: "C12", tier: "quick", need: &["arg", "attr", "outside"], bound: "17 places x versions x up to 2 arguments x 3 layouts; selection: every (start, end) with both within 3 bytes of the attribute and at most 40 bytes apart (symbolic)", f: || {
        let d = doc(2);
        note_str(&d.code);
        let lo = d.attr.0.saturating_sub(3);
        let hi = (d.attr.1 + 3).min(d.code.len());
        let a = offset(lo, hi);
        let b = if choose(2) == 0 { a } else { let w = byte(&[0, 1, 2, 3, 5, 8, 13, 21, 40]) as usize; assume(a + w <= hi); a + w };
        let h = Analysis::new(&d.code, d.v).hover(rng(a, b));
        let arg = d.args.iter().find(|x| x.full.0 <= a && b <= x.full.1);
        // an empty selection at the very start of the attribute belongs to what precedes it only if that is no trivia
        let inside = if a == b { d.attr.0 <= a && a <= d.attr.1 } else { d.attr.0 <= a && b <= d.attr.1 };
        let border = a == b && (a == d.attr.0 || a == d.attr.1);
        match (&h, arg) {
            (Some(h), Some(x)) => {
                reach("arg");
                chk!(se(h.range) == x.n, "hover on argument `{}`: range is not that of the argument", x.name);
                let hd = header(h);
                chk!(hd.contains(&format!("({}", x.name)) || hd.contains(&format!("`{}`", x.name)), "hover on argument `{}` describes something else", x.name);
                let t = takes(x.name, d.v, false);
                if matches!(x.name, "selector" | "extension" | "function") { chk!(hd.contains(&format!(": {})", t)), "hover on argument `{}` describes the other version", x.name) }
            }
            (None, Some(x)) => chk!(false, "hover on argument `{}`: nothing", x.name),
            (Some(h), None) => {
                chk!(inside, "hover outside the attribute");
                reach("attr");
                if d.ctx.open == "#[ink(" {
                    // the primary argument, or the first one
                    let p = d.anchor.or(d.args.first().map(|x| x.name));
                    match p { Some(p) => {
                        let x = d.args.iter().find(|x| x.name == p).unwrap();
                        chk!(se(h.range) == x.n, "hover on the attribute: range is not that of its primary argument");
                        chk!(header(h).contains(&format!("({}", p)), "hover on the attribute does not describe its primary argument");
                    } None => chk!(false, "hover on an attribute without arguments") }
                } else {
                    chk!(se(h.range) == d.path, "hover on the attribute macro: range is not that of the macro name");
                    chk!(header(h).contains(&format!("{}]", &d.ctx.open[..d.ctx.open.len() - 1])), "hover on the attribute macro describes something else");
                }
            }
            (None, None) => {
                if inside && !border { chk!(d.args.is_empty() && (d.ctx.open == "#[ink(" || d.paren.0 <= a && b <= d.paren.1), "hover inside the attribute: nothing") } else { reach("outside") }
            }
        }
    } },
    Job { name: "c12_inlay", prop: "C12", tier: "quick", need: &["hint", "none"], bound: "17 places x versions x up to 3 arguments x 3 layouts; whole document or every range around the attribute (symbolic bounds)", f: || {
        let d = doc(3);
        note_str(&d.code);
        let (r, a, b) = if choose(2) == 0 { (None, 0, d.code.len()) } else {
            let lo = d.attr.0.saturating_sub(2);
            let hi = (d.attr.1 + 2).min(d.code.len());
            if d.args.len() > 2 || choose(2) == 0 { let a = offset(lo, hi); (Some(rng(a, d.code.len())), a, d.code.len()) } else { let b = offset(lo, hi); (Some(rng(0, b)), 0, b) }
        };
        let h = Analysis::new(&d.code, d.v).inlay_hints(r);
        // hints of the attribute under study (the rest of the document may have its own)
        let got: Vec<_> = h.iter().filter(|x| { let p = se(x.range).0; d.attr.0 <= p && p < d.attr.1 }).collect();
        for x in &h { let (s, t) = se(x.range); chk!(t <= d.code.len() && s <= t && usize::from(x.position) == t, "inlay hint is not at the end of its argument name"); chk!(a <= s && t <= b, "inlay hint outside the requested range") }
        let ctor = d.anchor == Some("constructor");
        let mut k = 0;
        for x in &d.args {
            let t = takes(x.name, d.v, ctor);
            if t.is_empty() || x.full.0 < a || x.full.1 > b { continue }
            reach("hint");
            chk!(k < got.len(), "inlay hint missing for `{}`", x.name);
            if k >= got.len() { continue }
            chk!(se(got[k].range) == x.n, "inlay hint of `{}` is elsewhere", x.name);
            chk!(got[k].label == t, "inlay hint of `{}` is `{}`", x.name, got[k].label);
            k += 1;
        }
        if k == 0 { reach("none") }
        chk!(k == got.len(), "inlay hint for an argument that takes no value or is out of range");
    } },
    Job { name: "c12_nested", prop: "C12", tier: "quick", need: &["hint"], bound: "nested arguments `backend(node)`, `backend(node(url = ..))`, `backend(runtime_only(sandbox = ..))` in 2 surroundings: hints for the whole document, hover at every offset", f: || {
        let (inner, hints) = pick(&[("node", &["backend"] as &[&str]), ("runtime_only", &["backend"]), ("node(url = \"ws://a\")", &["backend", "url"]), ("runtime_only(sandbox = a::B)", &["backend", "sandbox"])]);
        let (p, q) = pick(&[("", ""), ("environment = a::B, ", ""), ("", ", environment = a::B")]);
        let code = format!("#[ink_e2e::test({}backend({}){})]\nasync fn t() {{}}\n", p, inner, q);
        note_str(&code);
        let an = Analysis::new(&code, Version::V5);
        let h = an.inlay_hints(None);
        let mut want: Vec<&str> = hints.to_vec();
        if !p.is_empty() { want.insert(0, "environment") }
        if !q.is_empty() { want.push("environment") }
        chk!(h.len() == want.len(), "number of hints of nested arguments");
        for (x, w) in h.iter().zip(&want) {
            reach("hint");
            let (s, t) = se(x.range);
            chk!(&code[s..t] == *w && usize::from(x.position) == t, "inlay hint of nested `{}` is elsewhere", w);
            chk!(x.label == takes(w, Version::V5, false), "inlay hint of nested `{}` is `{}`", w, x.label);
        }
        let s = pos(&code, "backend");
        let e = s + "backend()".len() + inner.len();
        let o = offset(s, e);
        match an.hover(rng(o, o)) { Some(x) => chk!(se(x.range) == (s, s + 7) && header(&x).contains("(backend("), "hover on a nested argument"), None => chk!(false, "hover on a nested argument: nothing") }
    } },
    Job { name: "c12_sig", prop: "C12", tier: "quick", need: &["sig", "outside"], bound: "17 places x versions x up to 2 arguments x 3 layouts x every offset within 3 bytes of the attribute (symbolic)", f: || {
        let d = doc(2);
        note_str(&d.code);
        let o = offset(d.attr.0.saturating_sub(3), (d.attr.1 + 3).min(d.code.len()));
        let r = Analysis::new(&d.code, d.v).signature_help(at(o));
        let inside = d.paren.0 <= o && o <= d.paren.1;
        if !inside { reach("outside"); chk!(r.is_empty(), "signature help outside the argument list"); return }
        let focused = d.args.iter().find(|x| x.full.0 <= o && o <= x.full.1);
        // what the attribute may contain
        let names: Option<Vec<&'static str>> = match d.anchor {
            Some(a) => { let mut n = vec![a]; n.extend((d.ctx.args)(d.v, &[a])); Some(n) }
            None if d.ctx.open != "#[ink(" => Some((d.ctx.args)(d.v, &[])),
            None => None,
        };
        // signatures are those of the attribute, whatever the impl block
        let names = names.map(|mut n| { if d.ctx.name.starts_with("trait impl") && !n.contains(&"namespace") { n.push("namespace") } n });
        if let Some(n) = &names { chk!(r.len() == !n.is_empty() as usize, "{} signatures for an attribute whose kind is known", r.len()) }
        else if !d.args.is_empty() { chk!(!r.is_empty(), "no signature for a known argument") }
        for g in &r {
            reach("sig");
            note_str(&g.label);
            chk!(se(g.range) == d.paren, "signature applies elsewhere");
            let mut end = 0;
            let mut seen: Vec<&str> = vec![];
            for (i, p) in g.parameters.iter().enumerate() {
                let (s, t) = se(p.range);
                chk!(t <= g.label.len() && s < t, "parameter outside the label");
                if t > g.label.len() || s >= t { return }
                chk!(s == end + if i == 0 { 0 } else { 2 }, "parameters do not tile the label");
                end = t;
                let (name, ty) = g.label[s..t].split_once(": ").unwrap_or((&g.label[s..t], ""));
                chk!(!seen.contains(&name), "parameter `{}` twice", name);
                seen.push(name);
                if let Some(n) = &names { chk!(n.contains(&name), "parameter `{}` is not valid there", name); chk!(ty == takes(name, d.v, d.anchor == Some("constructor")), "parameter `{}` has type `{}`", name, ty) }
            }
            chk!(end == g.label.len(), "parameters do not tile the label");
            if let Some(n) = &names { chk!(n.len() == seen.len(), "a valid parameter is missing") }
            let act = g.active_parameter;
            chk!(act.map_or(false, |i| i < g.parameters.len()), "active parameter out of range");
            if let (Some(x), Some(i)) = (focused, act) { if seen.contains(&x.name) && i < seen.len() { chk!(seen[i] == x.name, "active parameter is not the one under the cursor") } }
        }
    } },
];
