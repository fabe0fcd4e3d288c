#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})
A="crates/analyzer/src/analysis/"; I="crates/ir/src/"; L="crates/lsp-server/src/"
p("C01","Analysis never panics and never hangs",
  "For every source text (valid ink! or not), every in-range cursor offset or selection range and both ink! language versions, every analysis entry point (diagnostics, completions, code actions, hover, inlay hints, signature help, migrate, extract) returns normally: it neither panics nor runs forever.",
  ["inputs","configurations"],"all source texts, all offsets/ranges inside the text, ink! 4 and 5",
  "Fixture tests run a few hundred hand-written snippets at hand-picked cursors; the crash is always in a combination (half-typed attribute, odd token at the cursor) nobody wrote down.",
  [A+"../analysis.rs",A+"diagnostics.rs",A+"completions.rs",A+"actions.rs",A+"hover.rs",A+"signature_help.rs",A+"inlay_hints.rs",A+"migrate.rs",A+"extract.rs",I+"attrs/parser.rs",I+"tree/item_at_offset.rs"],
  [("Option-returning AST lookups and checked offset arithmetic",A)],["ink_analyzer::Analysis methods"])
p("C02","LSP position and offset translation is exact and total",
  "For every document text, negotiated position encoding (UTF-8, UTF-16, UTF-32) and byte offset on a character boundary, translating the offset to an LSP position and back yields the same offset, and the position equals the number of preceding line breaks and of code units since the line start in that encoding. A position past the end of its line denotes the end of that line (before its line feed), one inside a multi-unit character a boundary of that character; no position or range sent by a client ever maps outside the document, to an inverted range, or crashes the server.",
  ["inputs","configurations"],"all texts, encodings, offsets, and all u32 line/character pairs",
  "Tests use ASCII positions read off the fixtures; wide characters, CRLF and out-of-range columns form an unbounded space.",
  [L+"translator/from_lsp.rs",L+"translator/to_lsp.rs",L+"translator.rs"],
  [("from_lsp::offset/text_range and to_lsp::position/range over LineIndex",L+"translator/")],["translated positions/offsets","LSP responses"])
p("C03","Every LSP request gets exactly one matching response",
  "For every sequence of client messages after initialization, each request (known or unknown method, well-formed or malformed parameters, open or unopened document) is answered by exactly one response carrying the same id, with either a result or an error; notifications get no response; and no message other than shutdown/exit terminates the server or stops later requests from being answered.",
  ["histories","inputs"],"all message sequences, methods, ids, parameter payloads",
  "Tests send a handful of well-formed messages in a fixed order.",
  [L+"dispatch.rs",L+"dispatch/routers/request.rs",L+"dispatch/routers/notification.rs",L+"dispatch/handlers/request.rs",L+"dispatch/handlers/notification.rs"],
  [("RequestRouter/NotificationRouter finish and error conversion",L+"dispatch/routers/")],["messages sent on the connection"])
p("C04","Server state and published diagnostics track the latest document",
  "After any history of didOpen, didChange and didClose notifications, every feature request is answered from the latest content of that document, the ink! version used is the one the document's project manifest (Cargo.toml) requires, diagnostics are published for a document when it changed and describe the content last received, and a closed document has its diagnostics cleared and answers as unknown; documents never affect one another.",
  ["histories"],"all interleavings of open/change/close/request over several documents",
  "Tests exercise one document with one open and one change.",
  [L+"memory.rs",L+"dispatch/handlers/notification.rs",L+"dispatch.rs",L+"dispatch/actions.rs"],
  [("Memory documents map and change tracking",L+"memory.rs")],["publishDiagnostics notifications, responses"],state=[{"name":"Memory","meaning":"open documents and the set of changed ones","where":L+"memory.rs"}])
p("C05","Selectors are computed as ink! defines them",
  "For every constructor or message, the selector is the explicit 4-byte big-endian value of its selector argument, whatever integer notation the analyzer accepts; otherwise the first 4 bytes of BLAKE2b-256 of the function name, prefixed by trait name and namespace (joined by ::) where applicable; `_` denotes a wildcard and `@` the reserved wildcard complement selector 0x9BAE9D5E.",
  ["inputs"],"all selector literals, identifiers and namespaces",
  "Tests compare a handful of literals.",
  [I+"selector.rs",I+"traits/entity.rs",I+"constructor.rs",I+"message.rs",I+"attrs/meta/value.rs"],
  [("Selector::compose, SelectorArg, MetaValue::as_u32",I+"selector.rs")],["composed_selector / selector_arg APIs"])
p("C06","An attribute argument value is flagged exactly when its type is wrong",
  "For every ink! attribute argument and every literal value, the analyzer reports a value diagnostic if and only if the value is not of the kind ink! requires for that argument in that language version (u32, u16 or wildcard/`@` for selector, u16 for extension codes, bool, string, identifier-like namespace, environment path, no value for flags).",
  ["inputs","configurations"],"all (argument, value, version) triples",
  "Unit tests contain a short list of good and bad values per argument.",
  [A+"diagnostics/common.rs",I+"attrs/args.rs",I+"attrs/meta/value.rs"],
  [("ensure_valid_attribute_arguments and InkArgValueKind",A+"diagnostics/common.rs")],["Analysis::diagnostics"])
p("C07","Overlapping selectors and ids are detected iff they are equal",
  "Two messages (or two constructors) of a contract are reported as overlapping if and only if their selectors are equal, and two functions of a chain extension if and only if their ids are equal, independent of the notation of the values (decimal, hexadecimal, octal or binary, with or without `_` and suffix, explicit or derived from the name), and messages are never confused with constructors.",
  ["inputs"],"all pairs of selector or id values and notations",
  "Equality of two arbitrary 32-bit values in arbitrary notations is a relational property tests sample at a few points.",
  [A+"diagnostics/contract.rs",A+"diagnostics/trait_definition.rs",A+"diagnostics/chain_extension.rs",I+"selector.rs"],
  [("ensure_no_overlapping_selectors / ids",A+"diagnostics/")],["Analysis::diagnostics"])
p("C08","Attribute meaning is independent of argument order and layout",
  "The kind the analyzer assigns to an ink! attribute is the one its arguments determine, independent of the order of the arguments and of whitespace or comments between tokens; every argument is recognised with exactly its own name and value and its own source range.",
  ["inputs"],"all permutations and layouts of attribute arguments",
  "Tests fix one spelling per attribute.",
  [I+"attrs.rs",I+"attrs/args.rs",I+"attrs/parser.rs",I+"attrs/meta.rs"],
  [("InkAttribute::cast primary argument sort; parse_meta_items",I+"attrs.rs")],["InkAttribute kind/args; Analysis::diagnostics"])
p("C09","Every suggested edit is applicable to the document it is for",
  "For every source and cursor, the text edits of every completion, code action, quickfix and migration have ranges that lie within the document on character boundaries, edits within one action do not overlap, every snippet agrees with its plain text up to white space once its placeholders are filled in, and the document that results from applying them still parses without new syntax errors when the original parsed cleanly.",
  ["inputs"],"all sources, cursors, versions",
  "Snapshots cover chosen fixtures only.",
  [A+"text_edit.rs",A+"text_edit/common.rs",A+"actions.rs",A+"actions/item.rs",A+"actions/attr.rs",A+"actions/entity.rs",A+"completions.rs",A+"migrate.rs"],
  [("TextEdit construction and format_edits",A+"text_edit.rs")],["TextEdit ranges and text"])
p("C10","Applying a quickfix resolves the diagnostic it is attached to",
  "For every diagnostic that carries quickfixes, applying any one of them to the document yields a document on which that diagnostic is no longer reported for that construct (unless the inserted code is a placeholder the user is asked to complete), and no diagnostic range or quickfix lies outside the document.",
  ["inputs"],"all sources with at least one fixable diagnostic",
  "Fixture tests compare the text of the edits; they do not re-run analysis over arbitrary inputs.",
  [A+"diagnostics.rs",A+"diagnostics/common.rs",A+"diagnostics/contract.rs",A+"diagnostics/message.rs",A+"diagnostics/event.rs"],
  [("quickfix construction next to each diagnostic",A+"diagnostics/")],["Analysis::diagnostics before/after"])
p("C11","Completions fit the prefix, position, version and existing arguments",
  "Every completion offered inside an ink! attribute is valid at that position: it extends the already typed prefix and replaces exactly the focused token, it belongs to the attribute macro or argument list being edited and to the project's ink! version, it neither duplicates nor conflicts with an argument already present, and no suggestion appears twice.",
  ["inputs","configurations"],"all prefixes, cursors, attribute contents, ink! versions",
  "Tests list expected completions for selected prefixes.",
  [A+"completions.rs",A+"utils.rs",I+"attrs/args.rs"],
  [("macro_completions/argument_completions, filters in utils",A+"completions.rs")],["Analysis::completions"])
p("C12","Hover, inlay hints and signature help describe the construct at the cursor",
  "Hover content is that of the ink! macro or argument whose source range contains the selection and the returned range is that item's; every inlay hint sits at the end of an argument that takes a value and is inside the requested range; signature help marks as active the parameter under the cursor and all its ranges lie inside its label.",
  ["inputs"],"all sources, ranges, cursors",
  "Tests pin a few cursors.",
  [A+"hover.rs",A+"inlay_hints.rs",A+"signature_help.rs"],
  [("hover/inlay_hints/signature_help",A)],["Analysis::hover, inlay_hints, signature_help"])
p("C13","Syntax of one ink! version is never suggested or accepted for the other",
  "With an ink! 4 project the analyzer never suggests ink! 5-only macros or arguments and flags their use, and with ink! 5 it never suggests and flags what ink! 5 removed; constructs common to both get the same verdict in both versions.",
  ["inputs","configurations"],"all attributes, cursors, both versions",
  "Each test fixes a version and a snippet.",
  [A+"diagnostics/common.rs",A+"completions.rs",A+"utils.rs",A+"actions/attr.rs"],
  [("Version checks",A)],["Analysis::diagnostics, completions, actions"])
p("C14","Migration to ink! 5 produces version 5 code and is idempotent",
  "For every ink! 4 source, the migration edits rewrite every ink! 4-only construct they cover (events, chain extension macros and ids, SCALE derives, e2e tests with their client calls and imports, cross-contract call builders, renamed host functions) to its ink! 5 form and leave everything else unchanged up to white space next to an edit, and migrating the result again changes nothing.",
  ["inputs"],"all ink! 4 sources",
  "Tests migrate fixed snippets once.",
  [A+"migrate.rs",A+"migrate/chain_extension.rs",A+"migrate/e2e_test.rs",A+"migrate/host_fn.rs"],
  [("migrate::{macros,chain_extension,e2e,...}",A+"migrate.rs")],["Analysis::migrate"])
p("C15","Project creation validates names and generates consistent projects",
  "A new project is generated exactly for names Cargo accepts and ink! can use (non-empty, alphanumeric with - or _, starting with a letter, not a Rust keyword), and its contract type name, module name, manifest and files consistently derive from that name; every other name is rejected with an error and no project.",
  ["inputs"],"all names",
  "Tests sample a few names.",
  ["crates/analyzer/src/codegen/",L+"dispatch/handlers/command.rs"],
  [("new_project name validation",'crates/analyzer/src/codegen')],["new_project result"])
p("C16","Analysis results move with the code",
  "Inserting text that carries no meaning (blank lines, comments, whitespace between items) before, after or between items moves every diagnostic and hint range along with the code it covers (ranges of items may grow over comments placed directly before them) and changes no verdict, whether it is inserted between items or between the tokens of an item; likewise renaming identifiers consistently changes no verdict.",
  ["inputs"],"all sources and insertions",
  "A relational property over pairs of runs; tests check single runs.",
  [A+"diagnostics.rs",I+"file.rs",I+"attrs.rs"],
  [("ranges derived from the syntax tree",A)],["Analysis::diagnostics, inlay_hints"])
p("C17","Contract and entity structure rules are reported exactly when broken",
  "A contract is reported exactly when it breaks a structural rule of ink!: exactly one storage item, at least one constructor and one message, at most one wildcard selector per kind (with its ink! 5 complement rules), and each callable, event, trait definition and chain extension has the visibility, receiver, signature and placement ink! requires.",
  ["inputs","configurations"],"all small contracts over these features",
  "Tests contain each rule once; combinations are exponential.",
  [A+"diagnostics/contract.rs",A+"diagnostics/constructor.rs",A+"diagnostics/message.rs",A+"diagnostics/common.rs",A+"diagnostics/event.rs",A+"diagnostics/trait_definition.rs",A+"diagnostics/chain_extension.rs"],
  [("ensure_* rules",A+"diagnostics/")],["Analysis::diagnostics"])
p("C18","Suggested names and ids never collide with existing ones",
  "Whenever the analyzer suggests a new selector, extension or function id, or a name for code it generates inside an existing entity (messages, constructors, functions, events, topics, errors, tests), the suggestion is valid and differs from every value already used in that scope.",
  ["inputs"],"all sets of existing ids and names",
  "Tests check one set of existing values.",
  [A+"utils.rs",A+"actions/entity.rs",A+"diagnostics/chain_extension.rs"],
  [("suggest_unique_id and unique name helpers",A+"utils.rs")],["quickfix and action edits"])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
