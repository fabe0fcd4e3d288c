#![allow(clippy::all)]
#[path = "../../common/sym.rs"]
mod sym;
#[path = "../../common/run.rs"]
mod run;
#[path = "../../common/doc.rs"]
mod doc;
mod gen;
mod c05;
mod c06;
mod c08;
mod c07;
mod c10;
mod c11;
mod c12;
mod cur;
mod c13;
mod c14;
mod c16;
mod c17;
mod c18;

static MODS: &[&[run::Job]] = &[c05::JOBS, c06::JOBS, c07::JOBS, c08::JOBS, c10::JOBS9, c10::JOBS10, c11::JOBS, c12::JOBS, cur::JOBS1, cur::JOBS1S, cur::JOBS1T, cur::JOBS9, cur::JOBS_ODD, cur::JOBS_DOC, cur::JOBS_TYPE, cur::JOBS_STRAY, c13::JOBS, c13::JOBS_SAME, c13::JOBS_SUG, c13::JOBS_FIX, c14::JOBS, c16::JOBS, c16::JOBS_GAP, c16::JOBS_GAP1, c16::JOBS_NAME, c16::JOBS_NAME0, c16::JOBS_NAME1, c16::JOBS_T, c17::JOBS, c18::JOBS];

#[no_mangle]
#[inline(never)]
pub extern "C" fn inksym_entry(job: u32) { (run::nth(MODS, job).f)() }
fn main() { run::drive(MODS, inksym_entry) }
