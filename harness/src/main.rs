mod alloc;
mod case;
mod faults;
mod gen;
mod oracle;
mod props;
mod util;

use case::Case;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use util::Rng;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

static BEAT: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicU64 = AtomicU64::new(0);

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| &s[..]) {
        Some("writer") => faults::writer(&a[2], &a[3]),
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let c = Case::parse(&text);
            println!("{}", c.brief());
            match c.run() {
                Some(e) => {
                    println!("FAILS: {}", e);
                    std::process::exit(1);
                }
                None => println!("holds"),
            }
        }
        Some("hooks") => println!("{}", cfg!(rusty_git_verif)),
        Some("run") => campaign(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6]),
        _ => {
            eprintln!("usage: rg-harness run PROP SEED MILLIS MAX_CASES DIR | replay FILE");
            std::process::exit(2)
        }
    }
}

/// Runs cases until the time or the number of cases is used up. `dir/current`
/// always holds the case being run, so that it survives an abort.
fn campaign(prop: &str, seed: u64, millis: u64, max: u64, dir: &str) {
    std::panic::set_hook(Box::new(|i| {
        if BUSY.load(Ordering::Relaxed) == 0 {
            eprintln!("generator: {}", i)
        }
    }));
    let gens = props::gens(prop);
    let start = Instant::now();
    let mut rng = Rng::new(seed ^ 0x5EED_0000 ^ prop.bytes().fold(0u64, |a, c| a * 131 + c as u64));
    let mut distinct = HashSet::new();
    let (mut n, mut ops, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut accepts = 0u64;
    let mut samples = vec![];
    let mut fails: Vec<(Case, String)> = vec![];
    let cur = format!("{}/current", dir);
    // a case that never ends is a failing case
    let cur2 = cur.clone();
    std::thread::spawn(move || {
        let mut last = (0, 0u32);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if BUSY.load(Ordering::Relaxed) == 1 && b == last.0 {
                last.1 += 1;
                if last.1 > 120 {
                    let _ = std::fs::copy(&cur2, format!("{}.hang", cur2));
                    std::process::exit(99);
                }
            } else {
                last = (b, 0);
            }
        }
    });
    let total: usize = gens.iter().map(|g| g.1).sum();
    while n < max && fails.len() < 3 && (start.elapsed() < Duration::from_millis(millis) || n < 5) {
        let mut k = rng.below(total);
        let g = gens.iter().find(|g| { if k < g.1 { true } else { k -= g.1; false } }).unwrap();
        let c = (g.0)(&mut rng);
        if c.ops.is_empty() {
            continue;
        }
        let t = c.text();
        std::fs::write(&cur, &t).unwrap();
        BUSY.store(1, Ordering::Relaxed);
        let r = c.run();
        BUSY.store(0, Ordering::Relaxed);
        BEAT.fetch_add(1, Ordering::Relaxed);
        n += 1;
        ops += c.ops.len() as u64;
        if c.ops.iter().any(|o| o.expect != case::Expect::Any || o.tag.starts_with("h-") || o.tag == "object" || o.tag == "ref" || o.tag == "ref-get") {
            nontrivial += 1;
            let d: [u8; 20] = util::sha1(t.as_bytes());
            distinct.insert(u64::from_le_bytes(d[..8].try_into().unwrap()));
        }
        if c.ops.iter().any(|o| matches!(&o.expect, case::Expect::Is(s) if s.starts_with("ok"))) {
            accepts += 1;
        }
        if samples.len() < 3 && (n == 1 || rng.chance(1, 200)) {
            samples.push(c.brief());
        }
        if let Some(e) = r {
            fails.push((c, e));
        }
    }
    let mut s = format!(
        "{{\"cases\":{},\"operations\":{},\"nontrivial\":{},\"distinct\":{},\"accepting\":{},\"hooks\":{},\"samples\":[{}],\"failures\":[",
        n,
        ops,
        nontrivial,
        distinct.len(),
        accepts,
        cfg!(rusty_git_verif),
        samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
    );
    for (i, (c, e)) in fails.iter().enumerate() {
        let f = format!("{}/fail-{}.case", dir, i);
        std::fs::write(&f, c.text()).unwrap();
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("{{\"file\":{},\"error\":{},\"brief\":{}}}", js(&f), js(e), js(&c.brief())));
    }
    s.push_str("]}");
    std::fs::write(format!("{}/result.json", dir), s).unwrap();
}
