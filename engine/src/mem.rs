//! Copy-on-write guest memory with a symbolic shadow per page.
use std::rc::Rc;
pub const PAGE: usize = 4096;
#[derive(Clone)]
pub struct Page { pub data: [u8; PAGE + 8], pub sym: Option<Box<[u32; PAGE]>> }
#[derive(Clone)]
pub struct L2 { pub pages: [Option<Rc<Page>>; 512] }
#[derive(Clone)]
pub struct Mem { pub l1: Vec<Option<Rc<L2>>>, pub limit: u64 }
fn zero_page() -> Rc<Page> { Rc::new(Page { data: [0; PAGE + 8], sym: None }) }
const NONE: Option<Rc<Page>> = None;
impl Mem {
    pub fn new(limit: u64) -> Mem { Mem { l1: vec![None; (limit >> 21) as usize + 1], limit } }
    pub fn valid(&self, a: u64) -> bool { a >= 0x10000 && a < self.limit && !(0x7000_0000..0x8000_0000).contains(&a) }
    /// Page for reading; None if invalid address.
    pub fn page(&mut self, a: u64) -> Option<*const Page> {
        if !self.valid(a) { return None }
        let i = (a >> 21) as usize; let j = ((a >> 12) & 511) as usize;
        if let Some(l2) = &self.l1[i] { if let Some(p) = &l2.pages[j] { return Some(Rc::as_ptr(p)) } }
        self.page_mut(a).map(|p| p as *const Page)
    }
    pub fn page_mut(&mut self, a: u64) -> Option<*mut Page> {
        if !self.valid(a) { return None }
        let i = (a >> 21) as usize; let j = ((a >> 12) & 511) as usize;
        let l2 = self.l1[i].get_or_insert_with(|| Rc::new(L2 { pages: [NONE; 512] }));
        let l2 = Rc::make_mut(l2);
        let p = l2.pages[j].get_or_insert_with(zero_page);
        Some(Rc::make_mut(p) as *mut Page)
    }
}
