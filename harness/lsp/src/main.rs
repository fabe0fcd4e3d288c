#![allow(clippy::all)]
#[path = "../../common/sym.rs"]
mod sym;
#[path = "../../common/run.rs"]
mod run;
mod srv;
mod c02;
mod c02s;
mod c03;
mod c04;
mod c14p;
mod c15;

static MODS: &[&[run::Job]] = &[c02::JOBS, c02s::JOBS, c03::JOBS, c03::JOBS2, c04::JOBS, c04::JOBS2, c14p::JOBS, c15::JOBS];

#[no_mangle]
#[inline(never)]
pub extern "C" fn inksym_entry(job: u32) { (run::nth(MODS, job).f)() }
fn main() { run::drive(MODS, inksym_entry) }
