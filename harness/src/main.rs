//! drive list | drive run <iters> <seed> <outdir> | drive replay <contract> <file>
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use octh::src::native::{Discard, NativeSrc};
    use octh::{tables, Entry, Kind, Returned};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::Mutex;
    static LAST: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if let Ok(mut g) = LAST.lock() { *g = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default()); }
    }));
    /// Ok(true) ran, Ok(false) discarded, Err(message) contract violated.
    fn one(e: &Entry, s: &mut NativeSrc) -> Result<bool, String> {
        let must_panic = matches!(e.kind, Kind::Panics | Kind::NativePanics);
        match catch_unwind(AssertUnwindSafe(|| (e.run)(s))) {
            Ok(()) => Ok(true),
            Err(p) if p.is::<Discard>() => Ok(false),
            Err(p) if p.is::<Returned>() => Err("a call that must panic returned".into()),
            Err(_) if must_panic => Ok(true),
            Err(_) => Err(LAST.lock().map(|g| g.clone()).unwrap_or_default()),
        }
    }
    let a: Vec<String> = std::env::args().collect();
    let all: Vec<(&str, &Entry)> = tables().into_iter().flat_map(|(p, t)| t.iter().map(move |e| (p, e))).collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for (p, e) in all { println!("{p}\t{}\t{:?}\t{}", e.name, e.kind, e.note); },
        Some("known") => for (_, e) in all.iter().filter(|(_, e)| e.kind == Kind::Known) {
            // a listed defect, still there if its contract fails
            let r = one(e, &mut NativeSrc::random(1, Some(0)));
            println!("KNOWN\t{}\t{}\t{}", e.name, if r.is_err() { "fails" } else { "holds" }, e.note);
        },
        Some("replay") => {
            let e = all.iter().find(|(_, e)| e.name == a[2]).expect("unknown contract").1;
            let text = std::fs::read_to_string(&a[3]).unwrap();
            let vals: Vec<Vec<u8>> = text.lines().filter_map(|l| l.strip_prefix("val ")).map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
            let mut s = NativeSrc::replay(vals);
            match one(e, &mut s) {
                Ok(true) => println!("REPLAY holds"),
                Ok(false) => println!("REPLAY discarded"),
                Err(m) => { println!("REPLAY fails: {m}"); std::process::exit(1) }
            }
        }
        Some("run") => {
            let iters: u64 = a[2].parse().unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let out = &a[4];
            let budget: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(2000);
            let only = a.get(6);
            let big: &[usize] = &[0, 1, 2, 3, 4, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32766, 32767, 32768, 32769, 40000, 49151, 49152, 65533, 65534, 65535, 65536, 65537, 65538, 70000, 131071, 131072];
            let mut bad = 0;
            for (_, e) in &all {
                if e.kind == Kind::Known { continue }
                if let Some(o) = only { if o != e.name { continue } }
                let t0 = std::time::Instant::now();
                let (mut n, mut d) = (0u64, 0u64);
                let mut i = 0u64;
                let mut viol: Option<(Vec<Vec<u8>>, String)> = None;
                let mut lens_seen = false;
                while i < iters + if lens_seen { big.len() as u64 } else { 0 } {
                    // first the forced lengths (only if the contract draws lengths), then random
                    let force = if lens_seen && (i as usize) < big.len() { Some(big[i as usize]) } else { None };
                    let mut s = NativeSrc::random(seed.wrapping_mul(1_000_003).wrapping_add(i), if i == 0 { Some(0) } else { force });
                    let r = one(e, &mut s);
                    if i == 0 && s.lens > 0 { lens_seen = true }
                    match r {
                        Ok(true) => n += 1,
                        Ok(false) => d += 1,
                        Err(m) => { viol = Some((s.log, m)); break }
                    }
                    i += 1;
                    if t0.elapsed().as_millis() as u64 > budget && !(lens_seen && (i as usize) < big.len()) { break }
                }
                println!("RUN\t{}\t{n}\t{d}\t{}", e.name, t0.elapsed().as_millis());
                if let Some((log, m)) = viol {
                    bad += 1;
                    let f = format!("{out}/{}.native.txt", e.name);
                    let mut t = format!("contract {}\nmessage {}\n", e.name, m.replace('\n', " "));
                    for b in log { t.push_str("val "); t.push_str(&b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); t.push('\n'); }
                    std::fs::write(&f, t).unwrap();
                    println!("FAIL\t{}\t{f}\t{m}", e.name);
                }
            }
            std::process::exit(if bad > 0 { 1 } else { 0 });
        }
        _ => { eprintln!("usage: drive list|run|replay"); std::process::exit(2) }
    }
}
