//! Job table and native driver.
pub struct Job {
    pub name: &'static str,
    pub prop: &'static str,
    pub tier: &'static str,
    /// Labels that some explored path must reach (guards against vacuity).
    pub need: &'static [&'static str],
    pub bound: &'static str,
    pub f: fn(),
}
pub fn nth(mods: &'static [&'static [Job]], n: u32) -> &'static Job {
    let mut n = n as usize;
    for m in mods { if n < m.len() { return &m[n] } n -= m.len() }
    panic!("no such job")
}
pub fn drive(mods: &'static [&'static [Job]], entry: extern "C" fn(u32)) {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("--list") => {
            for (i, j) in mods.iter().flat_map(|m| m.iter()).enumerate() { println!("{}\t{}\t{}\t{}\t{}\t{}", i, j.name, j.prop, j.tier, j.need.join(","), j.bound) }
        }
        #[cfg(not(inksym_ir))]
        Some("--enum") => enumerate(mods, &a[2], a.get(3).map_or(1_000_000, |x| x.parse().unwrap()), a.get(4).map_or(1, |x| x.parse().unwrap())),
        Some("--batch") => {
            for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
                let (j, h) = l.split_once(' ').unwrap();
                let d: Vec<u8> = if h == "-" { vec![] } else { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() };
                one(j.parse().unwrap(), d, entry);
            }
        }
        _ => {
            let d = a.get(2).map(|s| std::fs::read(s).unwrap()).unwrap_or_default();
            one(a[1].parse().unwrap(), d, entry);
            if crate::sym::failed() > 0 { std::process::exit(64) }
        }
    }
}
fn one(job: u32, d: Vec<u8>, entry: extern "C" fn(u32)) {
    crate::sym::load(d);
    entry(job);
    let (h, n) = crate::sym::finish();
    println!("HASH {:016x} {}", h, n);
}

/// Development only (never part of a check): runs a job over its choices at native speed and tallies failures.
#[cfg(not(inksym_ir))]
fn enumerate(mods: &'static [&'static [Job]], name: &str, limit: usize, show: usize) {
    use std::collections::BTreeMap;
    std::panic::set_hook(Box::new(|i| { let _ = std::fs::write("/tmp/last-panic", i.to_string()); }));
    for j in mods.iter().flat_map(|m| m.iter()).filter(|j| j.name == name || (name.ends_with('*') && j.name.starts_with(&name[..name.len() - 1]))) {
        let mut idx: Vec<u8> = vec![];
        let (mut n, mut bad, mut out): (usize, BTreeMap<String, (usize, Vec<String>)>, usize) = (0, BTreeMap::new(), 0);
        let t = std::time::Instant::now();
        loop {
            crate::sym::dev_start(idx.clone());
            let r = std::panic::catch_unwind(|| (j.f)());
            let (sizes, mut msgs, shown) = crate::sym::dev_end();
            if let Err(e) = r { if e.downcast_ref::<&str>() == Some(&"assume") { out += 1 } else { msgs.push(format!("PANIC {}", std::fs::read_to_string("/tmp/last-panic").unwrap_or_default())) } }
            n += 1;
            msgs.sort(); msgs.dedup();
            for m in msgs { let e = bad.entry(m).or_default(); e.0 += 1; if e.1.len() < show { e.1.push(shown.join("\n")) } }
            let mut s: Vec<(usize, usize)> = sizes;
            while let Some(l) = s.last_mut() { if l.0 + 1 < l.1 { l.0 += 1; break } s.pop(); }
            if s.is_empty() || n >= limit { break }
            idx = s.iter().map(|x| x.0 as u8).collect();
        }
        println!("== {}: {} cases ({} excluded), {} kinds of failure, {:?}", j.name, n, out, bad.len(), t.elapsed());
        for (m, (c, ex)) in bad { println!("-- {} x {}", c, m); for e in ex { println!("{}", e.lines().map(|l| format!("      {}", l)).collect::<Vec<_>>().join("\n")) } }
    }
}
