mod exec; mod expr; mod ir; mod mem; mod solver;
use exec::*;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};
extern "C" { pub fn fork() -> i32; pub fn _exit(c: i32) -> !; fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; fn getppid() -> i32; }
fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}
fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let ll = get("--ll").expect("--ll"); let out = get("--out").expect("--out");
    let jobs: Vec<(u32, String)> = get("--jobs").expect("--jobs").split(',').map(|s| (s.parse().unwrap(), s.to_string())).collect();
    let workers: i64 = get("--workers").map_or(1, |s| s.parse().unwrap());
    let timeout: f64 = get("--timeout").map_or(1e6, |s| s.parse().unwrap());
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    // the SipHash initialisation constant must only occur inside hooked hash_one functions
    let stray = stray_sip(m);
    let shared: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) as *const Shared) };
    let f = std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
    let mut mc = Machine::new(m, f, shared);
    mc.workers = workers; mc.deadline = t0 + Duration::from_secs_f64(timeout);
    if let Some(b) = get("--budget") { mc.budget = b.parse().unwrap() }
    if let Some(b) = get("--samples") { mc.samples = b.parse().unwrap() }
    if let Some(b) = get("--maxviol") { mc.maxviol = b.parse().unwrap() }
    mc.profile = args.iter().any(|a| a == "--profile");
    mc.sol.dump_dir = get("--dump-queries");
    mc.emit(format!("{{\"t\":\"meta\",\"load_s\":{:.3},\"functions\":{},\"z3\":{},\"stray_sip\":[{}]}}", t0.elapsed().as_secs_f64(), m.funcs.len(), jstr(&solver::version()), stray.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    unsafe { prctl(36, 1, 0, 0, 0); }
    shared.active.store(1, SeqCst); shared.procs.store(1, SeqCst);
    if let Some(f) = get("--dump-fn") { let id = m.fn_id(&f).unwrap(); let fx = m.func(id); for (i, x) in fx.code.iter().enumerate() { eprintln!("{} {:?}", i, x) } eprintln!("consts {:x?}", fx.consts); }
    let base = mc.st.clone();
    for (j, _) in jobs.iter().rev() {
        mc.flush();
        mc.st = base.clone(); mc.st.job = *j;
        mc.start("inksym_entry", &[*j as u64]);
        let s = mc.st.clone(); mc.work.push(s);
    }
    mc.flush();
    mc.run_all();
    mc.finish();
    // reap every descendant
    let mut bad = 0;
    loop { let mut st = 0; let r = unsafe { waitpid(-1, &mut st, 0) }; if r <= 0 { break } if st != 0 { bad += 1 } }
    let _ = getppid;
    let mut names = vec![];
    let txt = std::fs::read_to_string(&out).unwrap();
    let mut called = vec![false; m.funcs.len()];
    for l in txt.lines() { if let Some(p) = l.find("\"called\":[") { for x in l[p + 10..].trim_end_matches("]}").split(',') { if let Ok(i) = x.parse::<usize>() { called[i] = true } } } }
    for (i, c) in called.iter().enumerate() { if *c { let s = short(&m.funcs[i].name); if s.contains("ink_") { names.push(jstr(&s)) } } }
    mc.emit(format!("{{\"t\":\"end\",\"crashed_procs\":{},\"procs\":{},\"wall\":{:.3},\"all_functions\":{},\"functions\":[{}]}}", bad, shared.procs.load(SeqCst), t0.elapsed().as_secs_f64(), called.iter().filter(|c| **c).count(), names.join(",")));
}
fn stray_sip(m: &ir::Module) -> Vec<String> {
    let needle = b"8317987319222330741";
    let mut r = vec![]; let mut i = 0; let s = m.src;
    // function starts, sorted by position
    while let Some(p) = find_from(s, needle, i) {
        i = p + needle.len();
        let k = m.funcs.iter().filter(|f| f.body != 0 && f.body <= p).max_by_key(|f| f.body);
        if let Some(f) = k { if !f.name.contains("BuildHasher8hash_one") { let n = short(&f.name); if !r.contains(&n) { r.push(n) } } }
    }
    r
}
fn find_from(h: &[u8], n: &[u8], i: usize) -> Option<usize> { let f = n[0]; let mut k = i; while k + n.len() <= h.len() { match h[k..].iter().position(|b| *b == f) { None => return None, Some(p) => { k += p; if h[k..].starts_with(n) { return Some(k) } k += 1 } } } None }
