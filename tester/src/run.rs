// tN <cats> <seed> <histories> <steps> <millis> [--one <seed>]
// Differential replay against the real crate, one binary per (hash word, flag word) pair.
// Exit 0: nothing found; exit 1 with a line FOUND <json>.
use engine::*;
use std::panic;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

engine!(e, crate::HW, crate::FW);

static CUR: Mutex<String> = Mutex::new(String::new());
static MSG: Mutex<String> = Mutex::new(String::new());
static SINCE: AtomicU64 = AtomicU64::new(0); // milliseconds after start at which the current history began
static NOW: Mutex<(u64, usize)> = Mutex::new((0, 0));

fn one(seed: u64, steps: usize, w: [u64; 16]) -> (Vec<String>, Option<Fail>) {
    let mut cx = e::new_cx(seed, w);
    let header = format!("configuration {} (hash word/flag word), hashes by id: {:x?}", PAIR, cx.hs);
    cx.log.push(header);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| e::history(&mut cx, steps, &|s| *CUR.lock().unwrap() = s.to_string())));
    let f = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => Some(Fail { cat: format!("{}:panic", CUR.lock().unwrap()), msg: format!("panicked: {}", MSG.lock().unwrap()) }),
    };
    (cx.log, f)
}
fn wants(cats: &str, cat: &str) -> bool {
    cats.split(',').any(|c| c == "*" || c == cat || { let (a, b) = c.split_once(':').unwrap_or((c, "*")); let (x, y) = cat.split_once(':').unwrap(); (a == "*" || a == x) && (b == "*" || b == y) })
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn found(seed: u64, steps: usize, cat: &str, msg: &str, log: &[String]) -> ! {
    println!("FOUND {{\"config\": {}, \"seed\": {seed}, \"steps\": {steps}, \"cat\": {}, \"message\": {}, \"history\": [{}]}}", js(PAIR), js(cat), js(msg), log.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "));
    std::process::exit(1)
}
fn go() {
    panic::set_hook(Box::new(|i| { let s = format!("{i}"); *MSG.lock().unwrap() = s }));
    let a: Vec<String> = std::env::args().collect();
    let cats = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let hist: u64 = a[3].parse().unwrap();
    let steps: usize = a[4].parse().unwrap();
    let ms: u64 = a[5].parse().unwrap();
    let mut w = [3, 2, 3, 4, 3, 3, 5, 4, 4, 4, 1, 1, 1, 2, 3, 1u64];
    if let Ok(s) = std::env::var("TESTER_WEIGHTS") { for (i, x) in s.split(',').enumerate() { w[i] = x.parse().unwrap() } }
    let progress = std::env::var("TESTER_PROGRESS").ok();
    let t0 = Instant::now();
    let hang = if cfg!(debug_assertions) { 20000 } else { 10000 };
    let c2 = cats.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let since = SINCE.load(SeqCst);
        if since != 0 && t0.elapsed().as_millis() as u64 > since + hang {
            let cat = format!("{}:panic", CUR.lock().unwrap());
            let (s, st) = *NOW.lock().unwrap();
            if wants(&c2, &cat) { found(s, st, &cat, &format!("does not return: one history of {st} steps ran for more than {hang} ms"), &[]) }
            println!("HISTORIES 0\nOTHER {cat} 1");
            std::process::exit(0)
        }
    });
    let begin = |s: u64, st: usize| { *NOW.lock().unwrap() = (s, st); SINCE.store(t0.elapsed().as_millis() as u64 + 1, SeqCst); };
    if let Some(i) = a.iter().position(|x| x == "--one") {
        let s: u64 = a[i + 1].parse().unwrap();
        begin(s, steps);
        let (log, f) = one(s, steps, w);
        for l in &log { println!("{l}") }
        match f { Some(f) => { println!("FAIL [{}] {}", f.cat, f.msg); std::process::exit(1) } None => { println!("no failure"); std::process::exit(0) } }
    }
    let mut other = std::collections::BTreeMap::<String, u64>::new();
    let (mut n, mut ops) = (0, 0);
    while n < hist && t0.elapsed() < Duration::from_millis(ms) {
        let s = keys::mix2(seed, n);
        // short histories first: they make short replays
        let st = match n % 4 { 0 => steps / 4 + 3, 1 => steps / 2 + 3, _ => steps };
        n += 1;
        begin(s, st);
        if let Some(p) = &progress { let _ = std::fs::write(p, format!("{s} {st} {}", *CUR.lock().unwrap())); }
        let (log, f) = one(s, st, w);
        ops += log.len() - 1;
        if let Some(f) = f {
            if wants(&cats, &f.cat) { found(s, st, &f.cat, &f.msg, &log) }
            *other.entry(f.cat).or_insert(0) += 1;
        }
        if n == 1 { println!("SAMPLE {}", js(&log.iter().take(12).cloned().collect::<Vec<_>>().join(" ; "))) }
    }
    if let Some(p) = &progress { let _ = std::fs::write(p, "done"); }
    println!("HISTORIES {n} OPS {ops} WALL {:.1}", t0.elapsed().as_secs_f64());
    for (c, k) in other.iter() { println!("OTHER {c} {k}") }
}
fn main() { std::thread::Builder::new().stack_size(256 << 20).spawn(go).unwrap().join().unwrap() }
