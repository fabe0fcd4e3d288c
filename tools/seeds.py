"""Definitions of the planted bugs (see seed.py). Each was written from a property's text and the code."""
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, deps="core", count=1):
    SEEDS[id] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo, "deps": deps, "count": count}
A = "crates/analyzer/src/analysis/"; I = "crates/ir/src/"; L = "crates/lsp-server/src/"


def contract(body): return "#[ink::contract]\\nmod c {\\n    #[ink(storage)]\\n    pub struct C {}\\n    impl C {\\n        #[ink(constructor)]\\n        pub fn new() -> Self { C {} }\\n" + body + "    }\\n}\\n"
APPLY = """
#[allow(dead_code)]
fn apply(code: &str, edits: &[TextEdit]) -> String {
    let mut e: Vec<&TextEdit> = edits.iter().collect();
    e.sort_by_key(|e| e.range.start());
    let mut s = code.to_string();
    for x in e.iter().rev() { s.replace_range(usize::from(x.range.start())..usize::from(x.range.end()), &x.text) }
    s
}
"""
seed("c05-namespace-attr", "C05",
  [(I + "selector.rs", "utils::ink_arg_by_kind(callable.parent_impl_item()?.syntax(), InkArgKind::Namespace)?\n            .value()?", "utils::ink_attrs(callable.parent_impl_item()?.syntax())\n            .next()?\n            .args()\n            .iter()\n            .find(|arg| *arg.kind() == InkArgKind::Namespace)?\n            .value()?")],
  "an impl block with two ink! attributes where the namespace is on the second", "the namespace is ignored when the selector is derived",
  """use ink_analyzer_ir::*;
fn sel(attr: &str) -> [u8; 4] {
    let code = format!("#[ink::contract]\\nmod c {{\\n    {}\\n    impl C {{\\n        #[ink(message)]\\n        pub fn m(&self) {{}}\\n    }}\\n}}\\n", attr);
    InkFile::parse(&code).contracts()[0].messages()[0].composed_selector().unwrap().to_bytes()
}
fn main() { assert_eq!(sel("#[ink(impl, namespace = \\"a\\")]"), sel("#[ink(impl)]\\n    #[ink(namespace = \\"a\\")]")) }
""")
seed("c09-pub-async", "C09",
  [(A + "diagnostics/contract/ink_impl.rs", ".or_else(|| fn_item.const_token())\n                                    .or_else(|| fn_item.async_token())", ".or_else(|| fn_item.const_token())")],
  "a private callable that is `async` but not const", "the quickfix inserts `pub` between `async` and `fn`",
  """use ink_analyzer::*;
fn main() {
    let code = "%s";
    let d = Analysis::new(code, Version::V4).diagnostics();
    let f = d.iter().find(|x| x.message.contains("visibility")).unwrap().quickfixes.clone().unwrap();
    let s = apply(code, &f[0].edits);
    assert!(s.split_whitespace().collect::<Vec<_>>().join(" ").contains("pub async fn m"), "{}", s);
}
%s""" % (contract("        #[ink(message)]\\n        async fn m(&self) {}\\n"), APPLY))
seed("c17-self-assoc", "C17",
  [(A + "diagnostics/message.rs", '(return_type.to_string() == "Self").then', '(return_type.to_string().starts_with("Self")).then')],
  "a message whose return type is a path that starts with `Self` (e.g. an associated type or a type named SelfInfo)", "a valid message is reported as returning Self",
  """use ink_analyzer::*;
fn main() {
    let code = "%s";
    let d = Analysis::new(code, Version::V5).diagnostics();
    assert!(d.is_empty(), "{:?}", d);
}
""" % contract("        #[ink(message)]\\n        pub fn m(&self) -> SelfInfo { SelfInfo }\\n"))
seed("c17-tuple-types", "C17",
  [(A + "diagnostics/chain_extension/extension_fn.rs", """                .fields()
                .filter_map(|ty| extract_custom_types(&ty))
                .flatten()
                .collect::<Vec<_>>();""", """                .fields()
                .find_map(|ty| extract_custom_types(&ty))
                .into_iter()
                .flatten()
                .collect::<Vec<_>>();""")],
  "a chain extension function with a tuple type whose second or later element is a custom type without the SCALE traits", "the missing SCALE traits of that type are not reported",
  """use ink_analyzer::*;
fn main() {
    let code = "#[ink::chain_extension]\\npub trait X {\\n    type ErrorCode = E;\\n    #[ink(extension = 1)]\\n    fn a(x: (u8, H));\\n}\\n#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)]\\npub enum E {}\\nimpl ink::env::chain_extension::FromStatusCode for E {}\\npub struct H {}\\n";
    let d = Analysis::new(code, Version::V4).diagnostics();
    assert!(d.iter().any(|x| x.message.contains("scale")), "{:?}", d);
}
""")

seed("c07-derived", "C07",
  [(A + "diagnostics/contract.rs", "let mut seen_selectors: HashSet<u32> = HashSet::new();", "let mut seen_selectors: HashSet<(bool, u32)> = HashSet::new();"),
   (A + "diagnostics/contract.rs", "if seen_selectors.contains(&selector_value) {", "let key = (selector_arg.as_ref().is_some_and(|arg| arg.as_u32().is_some()), selector_value);\n            if seen_selectors.contains(&key) {"),
   (A + "diagnostics/contract.rs", "seen_selectors.insert(selector_value);", "seen_selectors.insert(key);")],
  "two messages of which one derives its selector from its name and the other gives the same value explicitly", "the overlap is not reported",
  """use ink_analyzer::*;
use ink_analyzer_ir::IsInkCallable;
fn main() {
    let code = "%s";
    let s = ink_analyzer_ir::InkFile::parse(code).contracts()[0].messages()[0].composed_selector().unwrap().into_be_u32();
    let code = code.replace("4242424242", &s.to_string());
    let d = Analysis::new(&code, Version::V4).diagnostics();
    assert!(d.iter().any(|x| x.message.contains("unique")), "{:?}", d);
}
""" % contract("        #[ink(message)]\\n        pub fn a(&self) {}\\n        #[ink(message, selector = 4242424242)]\\n        pub fn b(&self) {}\\n"))
seed("c11-sibling-dup", "C11",
  [(A + "utils.rs", """    let already_annotated_ink_args: Vec<InkArgKind> = ink_analyzer_ir::ink_attrs(attr_parent)
        .flat_map(|ink_attr| ink_attr.args().to_owned())""", """    let already_annotated_ink_args: Vec<InkArgKind> = ink_analyzer_ir::ink_attrs(attr_parent)
        .filter(|ink_attr| ink_attr.args().len() < 3)
        .flat_map(|ink_attr| ink_attr.args().to_owned())""")],
  "an ink! attribute with three or more arguments", "completions offer arguments that are already present",
  """use ink_analyzer::*;
fn main() {
    let code = "%s";
    let o = code.find(", )]").unwrap() + 2;
    let c = Analysis::new(code, Version::V4).completions(TextSize::from(o as u32));
    assert!(c.iter().all(|x| !x.label.starts_with("payable")), "{:?}", c);
}
""" % contract("        #[ink(message, payable, default, )]\\n        pub fn a(&self) {}\\n"))
seed("c11-v4-event", "C11",
  [(A + "completions.rs", """                                if version == Version::V5 {
                                    vec![
                                        InkMacroKind::ChainExtension,""", """                                if version == Version::V5 || focused_token_is_ink_crate_name {
                                    vec![
                                        InkMacroKind::ChainExtension,""")],
  "ink! 4, an attribute at the end of a file (no item yet) with the cursor on the crate name", "ink! 5 macros are completed in an ink! 4 project",
  """use ink_analyzer::*;
fn main() {
    let code = "#[ink";
    let c = Analysis::new(code, Version::V4).completions(TextSize::from(5));
    assert!(c.iter().all(|x| !x.label.ends_with("event")), "{:?}", c);
}
""")
seed("c06-u16-max", "C06",
  [(A + "diagnostics/common.rs", "if arg.value().and_then(MetaValue::as_u16).is_none() {", "if !arg\n                        .value()\n                        .and_then(MetaValue::as_u32)\n                        .is_some_and(|value| value < u32::from(u16::MAX))\n                    {")],
  "an ink! 5 function or extension id of exactly 65535", "the valid id is flagged",
  """use ink_analyzer::*;
fn main() {
    let code = "#[ink::chain_extension(extension = 0xFFFF)]\\npub trait X {\\n    type ErrorCode = E;\\n    #[ink(function = 1)]\\n    fn f();\\n}\\n";
    let d = Analysis::new(code, Version::V5).diagnostics();
    assert!(!d.iter().any(|x| x.message.contains("u16")), "{:?}", d);
}
""")

seed("c08-take3", "C08",
  [(I + "attrs.rs", "let primary_arg = args.iter().sorted().next().unwrap();", "let primary_arg = args.iter().take(3).sorted().next().unwrap();")],
  "an ink! attribute whose entity argument is the fourth one", "the attribute is taken for its first complementary argument",
  """use ink_analyzer_ir::*;
fn main() {
    let code = "#[ink::contract]\\nmod c {\\n    impl C {\\n        #[ink(selector = 1, payable, default, message)]\\n        pub fn f(&self) {}\\n    }\\n}\\n";
    assert_eq!(InkFile::parse(code).contracts()[0].messages().len(), 1);
}
""")
