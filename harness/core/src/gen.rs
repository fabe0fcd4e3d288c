//! Document families: templates whose holes `⟦default¦alternative¦..⟧` are symbolic choices.
//! An alternative starting with `!`, `!4` or `!5` breaks a rule of ink! (in that version); `{word}` after it is a
//! word that the diagnostic for that rule contains; `!!` says that the analyzer may then ignore the rest of the construct. Every alternative is a case of the symbolic exploration;
//! at most `k` holes differ from their default.
#![allow(dead_code)]
use crate::doc::*;
use crate::sym::*;
use ink_analyzer::Version;

pub struct Gen { pub code: String, pub v: Version, pub bad: Vec<&'static str>, pub picks: Vec<usize> }

fn parse(t: &'static str) -> (Vec<&'static str>, Vec<Vec<&'static str>>) {
    let mut lits = vec![];
    let mut holes = vec![];
    let mut rest = t;
    while let Some(i) = rest.find('⟦') {
        lits.push(&rest[..i]);
        rest = &rest[i + '⟦'.len_utf8()..];
        let e = rest.find('⟧').unwrap();
        holes.push(rest[..e].split('¦').collect());
        rest = &rest[e + '⟧'.len_utf8()..];
    }
    lits.push(rest);
    (lits, holes)
}
/// Text of an alternative; if it breaks a rule in version `v`, the word that the report must contain; whether it masks the others.
fn alt(a: &'static str, v: Version) -> (&'static str, Option<&'static str>, bool) {
    if !a.starts_with('!') { return (a, None, false) }
    let mut a = &a[1..];
    let mut broken = true;
    let mask = a.starts_with('!');
    if mask { a = &a[1..] }
    if a.starts_with('4') { a = &a[1..]; broken = v == Version::V4 } else if a.starts_with('5') { a = &a[1..]; broken = v == Version::V5 }
    let mut word = "";
    if a.starts_with('{') { let e = a.find('}').unwrap(); word = &a[1..e]; a = &a[e + 1..] }
    (a, if broken { Some(word) } else { None }, mask && broken)
}
pub fn expand_at(t: &'static str, v: Version, picks: &[usize]) -> Gen {
    let (lits, holes) = parse(t);
    let mut code = String::with_capacity(t.len() + 64);
    let mut bad = vec![];
    let mut masks = vec![];
    for (i, l) in lits.iter().enumerate() {
        code.push_str(l);
        if i < holes.len() {
            let (x, b, m) = alt(holes[i][picks[i]], v);
            code.push_str(x);
            if let Some(b) = b { if m { masks.push(b) } else { bad.push(b) } }
        }
    }
    if !masks.is_empty() { bad = masks; bad.truncate(1) }
    Gen { code, v, bad, picks: picks.to_vec() }
}
/// All instances of the template with at most `k` non-default holes.
pub fn expand(t: &'static str, v: Version, k: usize) -> Gen {
    let (_, holes) = parse(t);
    let sizes: Vec<usize> = holes.iter().map(|h| h.len()).collect();
    let picks = vary(&sizes, k);
    expand_at(t, v, &picks)
}
pub struct Family { pub name: &'static str, pub v4: bool, pub v5: bool, pub t: &'static str }
pub fn family(name: &str, k: usize) -> Gen {
    let f = FAMILIES.iter().find(|f| f.name == name).unwrap();
    let v = if f.v4 && f.v5 { version(choose(2)) } else { version(f.v5 as usize) };
    expand(f.t, v, k)
}
pub fn raw(name: &str) -> &'static str { FAMILIES.iter().find(|f| f.name == name).unwrap().t }

pub static FAMILIES: &[Family] = &[
    Family { name: "message", v4: true, v5: true, t: "#[ink::contract]
mod c {
    #[ink(storage)]
    pub struct C {}

    impl C {
        #[ink(constructor)]
        pub fn new() -> Self { C {} }

        #[ink(message)]
        pub fn get(&self) {}

        ⟦¦/// Doc é.
        ⟧#[ink(message⟦¦, payable¦, default¦, selector = 7¦!{event}, event¦!{constructor}, constructor¦!{anonymous}, anonymous¦!{Duplicate}, message¦!{handle_status}, handle_status = true⟧)]
        ⟦pub ¦!{visibility}¦!{visibility}pub(crate) ¦!{visibility}pub(super) ⟧⟦¦!{const}const ¦!{async}async ¦!{unsafe}unsafe ¦!{ABI}extern \"C\" ⟧fn x⟦¦!{Generic}<T>¦!{Generic}<const N: usize>⟧(⟦&self¦&mut self¦!{receiver}¦!{receiver}self¦!{receiver}mut self¦& self⟧⟦¦, a: u8¦, a: u8, b: &str¦!{variadic}, a: ...⟧)⟦¦ -> bool¦!{Self} -> Self¦ -> Option<Self>¦ -> SelfInfo¦ -> Self::Out⟧ {}
    }
}
" },
    Family { name: "constructor", v4: true, v5: true, t: "#[ink::contract]
mod c {
    #[ink(storage)]
    pub struct C {}

    impl C {
        #[ink(message)]
        pub fn get(&self) {}

        #[ink(constructor)]
        pub fn new() -> Self { C {} }

        #[ink(constructor⟦¦, payable¦, default¦, selector = 7¦, selector = _¦!{selector}, selector = @¦!{storage}, storage¦!{message}, message¦!{topic}, topic⟧)]
        ⟦pub ¦!{visibility}¦!{visibility}pub(crate) ¦!{visibility}pub(self) ⟧⟦¦!{const}const ¦!{async}async ¦!{unsafe}unsafe ¦!{ABI}extern \"C\" ⟧fn x⟦¦!{Generic}<T>¦!{Generic}<'a>⟧(⟦¦a: u8¦a: u8, b: &str¦!{self}&self¦!{self}&mut self¦!{self}self¦!{self}mut self¦!{variadic}a: u8, b: ...⟧)⟦ -> Self¦ -> C¦ -> Result<Self, ()>¦!{return}⟧ { C {} }
    }
}
" },
    Family { name: "contract", v4: true, v5: true, t: "⟦¦//! Docs
¦!{contract}#[ink::contract]
mod d {
    #[ink(storage)]
    pub struct D {}
    impl D {
        #[ink(constructor)]
        pub fn new() -> Self { D {} }
        #[ink(message)]
        pub fn get(&self) {}
    }
}
⟧#[ink::contract⟦¦()¦(keep_attr = \"foo\")¦(env = ink::env::DefaultEnvironment)¦!{namespace}(namespace = \"a\")¦!{Unknown}(unknown)¦!{derive}(derive = true)⟧]
⟦¦pub ¦pub(crate) ⟧mod c {
    ⟦#[ink(storage)]¦!!{storage}¦!{storage}#[ink(storage)]
    pub struct Z {}
    #[ink(storage)]¦#[derive(Debug)]
    #[ink(storage)]¦!{conflicts}#[ink(storage, payable)]¦!{conflicts}#[ink(storage)]
    #[ink(event)]⟧
    ⟦pub ¦!{visibility}¦!{visibility}pub(crate) ⟧struct C {⟦¦ a: u8 ⟧}
    ⟦¦pub struct D {}¦use a::b;¦const X: u8 = 1;⟧

    impl C {
        ⟦#[ink(constructor)]¦!{constructor}⟧
        pub fn new() -> Self { C {} }

        ⟦#[ink(message)]¦!{message}⟧
        pub fn get(&self) {⟦¦!{__ink_} let __ink_x = 1; ¦ let ink_x = 1; ⟧}
    }
}
" },
    Family { name: "event", v4: true, v5: true, t: "#[ink::contract]
mod c {
    #[ink(storage)]
    pub struct C {}

    #[ink(event⟦¦, anonymous¦!4{signature_topic}, signature_topic = \"1111111111111111111111111111111111111111111111111111111111111111\"¦!{signature_topic}, signature_topic = \"11\"¦!{payable}, payable¦!{topic}, topic¦!{signature_topic}, anonymous, signature_topic = \"1111111111111111111111111111111111111111111111111111111111111111\"⟧)]
    ⟦pub ¦!{visibility}¦!{visibility}pub(crate) ⟧⟦struct¦!!{struct}enum⟧ E⟦¦!{Generic}<T>¦!{Generic}<'a>⟧ {⟦
        #[ink(topic)]
        a: u8,¦¦
        a: u8,¦!{selector}
        #[ink(selector = 1)]
        a: u8,¦!{cfg}
        #[cfg(unix)]
        a: u8,¦!{message}
        #[ink(message)]
        a: u8,¦
        #[doc = \"x\"]
        #[ink(topic)]
        a: u8,⟧
    }

    impl C {
        #[ink(constructor)]
        pub fn new() -> Self { C {} }

        #[ink(message)]
        pub fn get(&self) {}
    }
}
" },
    Family { name: "event2", v4: false, v5: true, t: "#[ink::event⟦¦()¦(anonymous)¦(signature_topic = \"1111111111111111111111111111111111111111111111111111111111111111\")¦!{payable}(payable)¦!{signature_topic}(signature_topic = 1)¦!{Unknown}(unknown)¦!{anonymous}(anonymous, signature_topic = \"1111111111111111111111111111111111111111111111111111111111111111\")⟧]
⟦pub ¦!{visibility}¦!{visibility}pub(crate) ⟧struct E⟦¦!{Generic}<T>⟧ {⟦
    #[ink(topic)]
    a: u8,¦¦
    a: u8,¦!{selector}
    #[ink(selector = 1)]
    a: u8,¦!{cfg}
    #[cfg(unix)]
    a: u8,⟧⟦¦
    #[ink(topic)]
    b: bool,¦
    b: bool,⟧
}
" },
    Family { name: "trait_def", v4: true, v5: true, t: "#[ink::trait_definition⟦¦()¦(namespace = \"foo\")¦(keep_attr = \"foo\")¦!{namespace}(namespace = 1)¦!{env}(env = a::B)¦!{Unknown}(unknown)⟧]
⟦pub ¦!{visibility}¦!{visibility}pub(crate) ⟧⟦¦!{unsafe}unsafe ⟧trait T⟦¦!{Generic}<U>⟧⟦¦!{supertraits}: Clone⟧ {⟦¦!{const}
    const X: u8;¦!{type}
    type X;¦!{Macros}
    m!();⟧
    #[ink(message⟦¦, payable¦, default¦, selector = 3¦!{ildcard}, selector = _¦!{event}, event⟧)]
    fn a⟦¦!{Generic}<U>⟧(⟦&self¦&mut self¦!{receiver}¦!{receiver}self⟧)⟦¦ -> u8⟧⟦;¦!{default} {}⟧

    ⟦#[ink(message)]¦!!{message}¦!!{constructor}#[ink(constructor)]⟧
    ⟦¦!{async}async ¦!{unsafe}unsafe ¦!{const}const ¦!{ABI}extern \"C\" ⟧fn b(&self);
}
" },
    Family { name: "impl", v4: true, v5: true, t: r##"#[ink::contract]
mod c {
    #[ink(storage)]
    pub struct C {}

    impl C {
        #[ink(constructor)]
        pub fn new() -> Self { C {} }

        #[ink(message)]
        pub fn get(&self) {}
    }

    ⟦¦#[ink(impl)]
    ¦#[ink(impl, namespace = "a")]
    ¦#[ink(namespace = "a")]
    ¦!{namespace}#[ink(impl, namespace = "1-")]
    ¦!{event}#[ink(impl, event)]
    ⟧⟦¦!{default}default ¦!{unsafe}unsafe ⟧impl⟦¦!{Generic}<U>⟧ C⟦¦!{Generic types}<u8>⟧ {
        ⟦¦const X: u8 = 1;
        ¦fn helper(&self) -> Self { C {} }
        ¦pub fn helper(self) {}
        ¦!{storage}#[ink(storage)]
        pub fn s() {}
        ¦!{topic}#[ink(topic)]
        pub fn s() {}
        ⟧#[ink(message)]
        ⟦pub ¦!{visibility}⟧fn x(⟦&self¦&mut self⟧) {⟦¦ let a = 1; ¦!{event}
            #[ink(event)]
            pub struct E {}
        ⟧}
    }
}
"## },
    Family { name: "trait_impl", v4: true, v5: true, t: r##"#[ink::trait_definition⟦¦(namespace = "n")⟧]
pub trait T {
    #[ink(message, payable, selector = 9)]
    fn a(&self, x: u8) -> u8;

    #[ink(message)]
    fn b(&mut self);
}

mod o { pub use super::T; pub mod p { pub use super::T; } }

#[ink::contract]
mod c {
    use super::T;

    #[ink(storage)]
    pub struct C {}

    impl C {
        #[ink(constructor)]
        pub fn new() -> Self { C {} }

        #[ink(message)]
        pub fn get(&self) {}
    }

    ⟦#[ink(impl)]
    ¦¦!{namespace}#[ink(impl, namespace = "a")]
    ⟧impl ⟦T¦super::T¦crate::T¦crate::o::p::T¦super::o::T⟧ for C {
        ⟦#[ink(message, payable, selector = 9)]¦#[ink(message)]
        #[ink(payable, selector = 9)]¦!{first}#[ink(selector = 9, payable, message)]¦!{payable}#[ink(message, selector = 9)]¦!{selector}#[ink(message, payable)]¦!{mismatch}#[ink(message, payable, selector = 8)]¦!{default}#[ink(message, payable, selector = 9, default)]¦!!{message}#[ink(payable, selector = 9)]¦!!{message}¦!!{mismatch}#[ink(message, payable, selector = _)]⟧
        ⟦¦!{visibility}pub ⟧fn a(⟦&self¦!{parameter}&mut self⟧⟦, x: u8¦,  x : u8¦!{parameter}¦!{parameter}, x: u16¦!{parameter}, y: u8¦!{parameter}, x: u8, y: u8⟧)⟦ -> u8¦->u8¦!{return}¦!{return} -> u16⟧ { 0 }
        ⟦
        #[ink(message)]
        fn b(&mut self) {}¦!!{Missing message}¦!!{declared}
        #[ink(message)]
        fn b(&mut self) {}
        #[ink(message)]
        fn z(&mut self) {}¦!{only contain}
        #[ink(message)]
        fn b(&mut self) {}
        const X: u8 = 1;¦!{return}
        #[ink(message)]
        fn b(&mut self) -> u8 {}¦!{parameter}
        #[ink(message)]
        fn b(&mut self, x: u8) {}⟧
    }
}
"## },
    Family { name: "chain4", v4: true, v5: false, t: r##"⟦¦use foo::Bar;
⟧#[ink::chain_extension⟦¦()¦!{extension}(extension = 1)¦!{payable}(payable)¦!{Unknown}(unknown)⟧]
⟦pub ¦!{visibility}¦!{visibility}pub(crate) ⟧⟦¦!{unsafe}unsafe ⟧trait X⟦¦!{Generic}<U>⟧⟦¦!{supertraits}: Clone⟧ {
    ⟦type ErrorCode = E;¦!!{Missing}¦!{named}type ErrorCode = E;
    type Other = E;¦!{Duplicate}type ErrorCode = E;
    type ErrorCode = E;¦!!{default type}type ErrorCode;¦!{Generic}type ErrorCode<T> = E;¦!{bounds}type ErrorCode: Clone = E;¦!!{FromStatusCode}type ErrorCode = Nope;¦!!{FromStatusCode}type ErrorCode = G;⟧⟦¦!{const}
    const Z: u8;¦!{acro}
    m!();⟧

    #[ink(extension = 1⟦¦, handle_status = true¦!{function}, function = 3¦!{message}, message⟧)]
    ⟦¦!{const}const ¦!{async}async ¦!{unsafe}unsafe ¦!{ABI}extern "C" ⟧fn a⟦¦!{Generic}<U>⟧(⟦¦a: u8¦a: u8, b: [G; 2]¦!{traits}a: H¦!{traits}a: &[Option<H>]¦!{self}&self¦!{self}self, b: u8¦!{variadic}a: u8, ...⟧)⟦¦ -> G¦ -> Result<(), G>¦!{Self::ErrorCode} -> Result<(), Self::ErrorCode>¦!{traits} -> (u8, H)⟧⟦;¦!{default} {}⟧

    ⟦#[ink(extension = 2)]¦#[ink(extension = 0x2)]¦!{unique}#[ink(extension = 1)]¦!{unique}#[ink(extension = 0x01)]¦!!{must be ink!}¦!!{must be ink!}#[ink(message)]¦!!{handle_status}#[ink(extension = 2, handle_status = 1)]¦#[ink(extension = 2, handle_status = false)]¦!{payable}#[ink(extension = 2, payable)]⟧
    fn b();
}

⟦#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)]¦#[derive(Debug)]
#[derive(scale::Encode, scale::Decode)]
#[cfg_attr(unix, doc = "x")]
#[cfg_attr(unix, derive(scale_info::TypeInfo))]¦!!{traits}¦!!{traits}#[derive(scale::Encode)]¦!!{TypeInfo}#[derive(scale::Encode, scale::Decode)]⟧
pub enum E { A }

⟦impl ink::env::chain_extension::FromStatusCode for E {
    fn from_status_code(status_code: u32) -> Result<(), Self> { Ok(()) }
}¦!{FromStatusCode}¦use ink::env::chain_extension::FromStatusCode;
impl FromStatusCode for E {
    fn from_status_code(status_code: u32) -> Result<(), Self> { Ok(()) }
}⟧

#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)]
pub struct G { a: u8 }

pub struct H { a: u8 }
"## },
    Family { name: "chain5", v4: false, v5: true, t: r##"⟦¦use foo::Bar;
⟧#[ink::chain_extension(⟦extension = 1¦extension = 0x10¦!{extension}¦!{extension}extension = 70000¦!{payable}extension = 1, payable¦!{Unknown}extension = 1, unknown⟧)]
⟦pub ¦!{visibility}¦!{visibility}pub(crate) ⟧⟦¦!{unsafe}unsafe ⟧trait X⟦¦!{Generic}<U>⟧⟦¦!{supertraits}: Clone⟧ {
    ⟦type ErrorCode = E;¦!!{Missing}¦!{named}type ErrorCode = E;
    type Other = E;¦!{Duplicate}type ErrorCode = E;
    type ErrorCode = E;¦!!{default type}type ErrorCode;¦!{Generic}type ErrorCode<T> = E;¦!{bounds}type ErrorCode: Clone = E;¦!!{FromStatusCode}type ErrorCode = Nope;¦!!{FromStatusCode}type ErrorCode = G;⟧⟦¦!{const}
    const Z: u8;¦!{acro}
    m!();⟧

    #[ink(function = 1⟦¦, handle_status = true¦!{extension}, extension = 3¦!{message}, message⟧)]
    ⟦¦!{const}const ¦!{async}async ¦!{unsafe}unsafe ¦!{ABI}extern "C" ⟧fn a⟦¦!{Generic}<U>⟧(⟦¦a: u8¦a: u8, b: [G; 2]¦!{traits}a: H¦!{traits}a: &[Option<H>]¦!{self}&self¦!{self}self, b: u8¦!{variadic}a: u8, ...⟧)⟦¦ -> G¦ -> Result<(), G>¦!{Self::ErrorCode} -> Result<(), Self::ErrorCode>¦!{traits} -> (u8, H)⟧⟦;¦!{default} {}⟧

    ⟦#[ink(function = 2)]¦#[ink(function = 0x2)]¦!{unique}#[ink(function = 1)]¦!{unique}#[ink(function = 0x01)]¦!!{must be ink!}¦!!{must be ink!}#[ink(message)]¦!!{handle_status}#[ink(function = 2, handle_status = 1)]¦#[ink(function = 2, handle_status = false)]¦!{payable}#[ink(function = 2, payable)]⟧
    fn b();
}

⟦#[ink::scale_derive(Encode, Decode, TypeInfo)]¦#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)]¦#[derive(Debug)]
#[derive(scale::Encode, scale::Decode)]
#[cfg_attr(unix, doc = "x")]
#[cfg_attr(unix, derive(scale_info::TypeInfo))]¦!!{traits}¦!!{traits}#[ink::scale_derive(Encode)]¦!!{TypeInfo}#[derive(scale::Encode, scale::Decode)]⟧
pub enum E { A }

⟦impl ink::env::chain_extension::FromStatusCode for E {
    fn from_status_code(status_code: u32) -> Result<(), Self> { Ok(()) }
}¦!{FromStatusCode}¦use ink::env::chain_extension::FromStatusCode;
impl FromStatusCode for E {
    fn from_status_code(status_code: u32) -> Result<(), Self> { Ok(()) }
}⟧

#[ink::scale_derive(Encode, Decode, TypeInfo)]
pub struct G { a: u8 }

pub struct H { a: u8 }
"## },
    Family { name: "misc", v4: true, v5: true, t: r##"⟦¦#![cfg_attr(not(feature = "std"), no_std)]
⟧#[ink::storage_item⟦¦(derive = true)¦(derive = false)¦()¦!{derive}(derive = 1)¦!{derive}(derive)¦!{Unknown}(unknown)¦!{env}(env = A)⟧]
⟦pub struct¦struct¦pub enum¦pub union¦!!{storage_item}pub trait¦!!{storage_item}mod⟧ S⟦¦<T>⟧ {⟦¦!{topic}
    #[ink(topic)]
    a: u8,⟧
}

⟦#[ink::test]¦#[ink::test]
#[ignore]¦!{Unknown}#[ink::test(unknown)]¦!{payable}#[ink::test(payable)]¦!{test}#[ink::test]
#[ink::contract]⟧
⟦fn¦async fn¦pub fn⟧ it_works⟦¦<T>⟧() {⟦¦ let a = 1; ¦!{message}
    #[ink(message)]
    fn a() {}
⟧}

⟦#[ink_e2e::test]¦#[ink_e2e::test(environment = ink::env::DefaultEnvironment)]¦#[ink_e2e::test(environment = Env)]¦!{Environment}#[ink_e2e::test(environment = Nope)]¦!{Environment}#[ink_e2e::test(environment = S)]¦!5{additional_contracts}#[ink_e2e::test(additional_contracts = "a")]¦!4{backend}#[ink_e2e::test(backend(node))]¦!4{backend}#[ink_e2e::test(backend(runtime_only))]¦!5{keep_attr}#[ink_e2e::test(keep_attr = "foo")]¦!{environment}#[ink_e2e::test(environment = 1)]⟧
async fn e2e⟦¦<Client: E2EBackend>⟧(mut client: Client) -> E2EResult<()> { Ok(()) }

pub enum Env {}

impl ink::env::Environment for Env {
    const MAX_EVENT_TOPICS: usize = 4;
    type AccountId = ink::primitives::AccountId;
}
"## },
    Family { name: "place", v4: true, v5: true, t: r##"#[ink::contract]
mod c {
    #[ink(storage)]
    pub struct C {}

    impl C {
        #[ink(constructor)]
        pub fn new() -> Self { C {} }

        #[ink(message)]
        pub fn get(&self) {⟦¦!{storage}
            #[ink(storage)]
            pub struct S {}
        ¦!{event}
            #[ink(event)]
            pub struct S {}
        ¦!{cannot be used}
            impl C {
                #[ink(message)]
                pub fn inner(&self) {}
            }
        ¦!{contract}
            #[ink::contract]
            mod d {}
        ⟧}
    }

    ⟦¦#[ink::trait_definition]
    pub trait T {
        #[ink(message)]
        fn m(&self);
    }
    ¦#[ink::storage_item]
    pub struct I {}
    ¦#[cfg(test)]
    mod tests {
        #[ink::test]
        fn t() {}
    }
    ¦!{must be defined}mod inner {
        #[ink(storage)]
        pub struct D {}
    }
    ¦!{must be defined}mod inner {
        #[ink(event)]
        pub struct D {}
    }
    ¦!{topic}#[ink(topic)]
    pub struct D {}
    ¦!{should be the first}#[ink(selector = 1)]
    pub struct D {}
    ¦!{Unknown}#[ink(unknown)]
    pub struct D {}
    ¦!{Unknown}#[ink::unknown]
    pub struct D {}
    ¦!4{event}#[ink::event]
    pub struct D {}
    ¦!{struct}#[ink(event)]
    fn f() {}
    ¦!{struct}#[ink(storage)]
    fn f() {}
    ¦!{fn}#[ink(message)]
    pub struct D {}
    ¦!{fn}#[ink(constructor)]
    pub struct D {}
    ¦!{should be the first}#[ink(anonymous)]
    pub struct D {}
    ¦!{trait}#[ink::trait_definition]
    pub struct D {}
    ¦!{message}mod inner {
        #[ink(message)]
        fn m(&self) {}
    }
    ⟧
}
⟦¦!{storage}#[ink(storage)]
pub struct D {}
¦!{event}#[ink(event)]
pub struct D {}
¦!{message}#[ink(message)]
fn d(&self) {}
¦!{contract}#[ink::contract]
fn d() {}
¦!4{event}#[ink::event]
pub struct D {}
¦!{fn}#[ink::test]
pub struct D {}
⟧
"## },
    // names, imports and aliases, possibly cyclic; nothing is claimed about which rules they break
    Family { name: "names", v4: true, v5: true, t: r##"⟦¦use self::*;¦use a::*;¦use crate::a::b::*;¦use self::E as F;
use self::F as E;¦use a::E;¦use E as T;¦use self::a as b;
use self::b as a;¦use {self::a::{self, *}, crate::T as _};⟧
#[ink::chain_extension(extension = 1)]
pub trait X {
    type ErrorCode = ⟦E¦a::E¦super::E¦crate::a::b::E¦F¦self::E¦b::E¦Self::E⟧;
    #[ink(function = 1)]
    fn f(a: ⟦u8¦E¦a::E¦b::b::E¦F¦Vec<E>⟧);
}
⟦pub enum E { A }¦type E = E;¦type E = F;
type F = E;¦type E = a::E;¦type E = self::E;¦type E = ink::env::DefaultEnvironment;¦¦type E = a::b::E;⟧
⟦impl ink::env::chain_extension::FromStatusCode for E {}¦impl FromStatusCode for E {}¦impl T for E {}
type T = T;¦impl a::T for E {}¦impl F for E {}⟧
mod a {
    ⟦¦use super::*;¦use self::*;¦use crate::*;¦use b::*;¦use super::b::*;¦pub use super::E;¦pub type E = super::E;¦use self::b as c;
use self::c as b;⟧
    mod b {
        ⟦¦use super::*;¦use super::super::*;¦use crate::a::*;¦pub use crate::a::E;¦pub type E = super::E;⟧
    }
}
#[ink_e2e::test(environment = ⟦E¦a::E¦F¦T⟧)]
async fn t() {}
"## },
];
