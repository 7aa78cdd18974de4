//! Native side of the contracts: runs a harness on the real code with recorded inputs
//! (`replay run HARNESS FILE`) or looks for a failing input (`replay search HARNESS SEED SECS OUT`).
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;

enum Mode {
    File(HashMap<String, Vec<u8>>),
    Rand(u64),
    Same(u8),
}
struct Ctx {
    mode: Mode,
    seen: Vec<(String, Vec<u8>)>,
    times: HashMap<String, usize>,
    failed: Vec<String>,
    /// float comparisons: all, differing, and the largest relative difference, by name
    floats: HashMap<String, (u64, u64, f64)>,
    out: Option<String>,
}
impl Ctx {
    fn new(mode: Mode, out: Option<String>) -> Option<Ctx> {
        Some(Ctx { mode, seen: vec![], times: HashMap::new(), failed: vec![], floats: HashMap::new(), out })
    }
}
/// inputs taken before a wait that has not ended is given up (like a failed assumption)
const MOST: usize = 300_000;
static CTX: Mutex<Option<Ctx>> = Mutex::new(None);

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

fn rng(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn s<'a>(p: *const u8, n: usize) -> &'a str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}

fn gen(hint: &str, n: usize, st: &mut u64) -> Vec<u8> {
    let p: Vec<&str> = hint.split(':').collect();
    let mut out = Vec::with_capacity(n + 4);
    let num = |i: usize| p[i].parse::<f64>().unwrap();
    match p[0] {
        "f" => {
            let (lo, hi) = (num(1), num(2));
            while out.len() < n {
                let u = rng(st) as f64 / u64::MAX as f64;
                let r = rng(st);
                let v = lo + u * (hi - lo);
                let v = match (r >> 8) % if n == 4 { 4 } else { 64 } {
                    0 => [lo, hi, 0.0, 1.0, -1.0, v.round(), 1.5 * hi, -v][r as usize & 7],
                    _ => v,
                };
                out.extend_from_slice(&(v as f32).to_le_bytes());
            }
        }
        "i" => {
            let (lo, hi) = (num(1), num(2));
            while out.len() < n {
                let u = rng(st) as f64 / u64::MAX as f64;
                let r = rng(st);
                let v = (lo + u * (hi - lo)).round() as i16;
                let v = match (r >> 8) % if n == 2 { 4 } else { 64 } {
                    0 => [lo as i16, hi as i16, 0, 1, -1, i16::MIN, i16::MAX, r as i16][(r >> 16) as usize & 7],
                    _ => v,
                };
                out.extend_from_slice(&v.to_le_bytes());
            }
        }
        // MLX90641 code words; the listed words hold five bits only
        "hamming" => {
            let five: Vec<usize> = p[1].split(',').map(|x| x.parse().unwrap()).collect();
            let data = rng(st) % 8;
            let same = rng(st) as u16;
            let flips = rng(st) % 4;
            let bad = if flips == 3 { rng(st) as usize % (n / 2) } else { n };
            for k in 0..n / 2 {
                let r = (rng(st) >> 8) as u16;
                let d = match data {
                    0 => 0,
                    1 => 0x7FF,
                    2 => same,
                    3 => r & 0x1F,
                    4 => [0, 1, 0x3FF, 0x400, 0x7FF, 0x1F, 0x20, r][(rng(st) >> 8) as usize & 7],
                    5 => if rng(st) & 0x700 == 0 { r } else { 0 },
                    _ => r,
                };
                let mut w = d & if five.contains(&k) { 0x1F } else { 0x7FF };
                for (i, m) in [0x55Bu16, 0x66D, 0x78E, 0x7F0].iter().enumerate() {
                    w |= ((w & m & 0x7FF).count_ones() as u16 & 1) << (11 + i);
                }
                w |= (w.count_ones() as u16 & 1) << 15;
                if flips == 2 && rng(st) & 0x700 == 0 {
                    w ^= 1 << (rng(st) & 15);
                }
                if k == bad {
                    let b = rng(st);
                    w ^= 1 << (b & 15);
                    if b & 0x100 != 0 {
                        w ^= 1 << (b >> 9 & 15);
                    }
                }
                out.extend_from_slice(&w.to_be_bytes());
            }
        }
        _ => {
            let k = rng(st) % 4;
            for _ in 0..n {
                let r = rng(st);
                out.push(match k {
                    0 | 1 => r as u8,
                    2 => if r & 0x300 == 0 { r as u8 } else { 0 },
                    _ => [0u8, 1, 0x7f, 0x80, 0xff, 0x10, 0xf0, r as u8][(r >> 8) as usize & 7],
                });
            }
        }
    }
    out.truncate(n);
    out
}

#[no_mangle]
pub extern "C" fn vf_any(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let full = s(name, nl);
    let (base, hint) = full.split_once('@').unwrap_or((full, ""));
    let mut g = CTX.lock().unwrap();
    let c = g.as_mut().unwrap();
    if c.seen.len() >= MOST {
        drop(g);
        end(3)
    }
    let t = c.times.entry(base.to_string()).or_insert(0);
    let k = *t;
    *t += 1;
    let nm = if k > 0 { format!("{base}#{k}") } else { base.to_string() };
    let v = match &mut c.mode {
        Mode::File(m) => {
            match m.get(&nm) {
                Some(v) => {
                    let mut v = v.clone();
                    v.resize(n, 0);
                    v
                }
                None if k < 4 => vec![0; n],
                // beyond the recorded polls of an unbounded wait: anything, so that the wait ends
                None => gen(hint, n, &mut (k as u64)),
            }
        }
        Mode::Rand(st) => gen(hint, n, st),
        Mode::Same(b) => vec![*b; n],
    };
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, n) };
    c.seen.push((nm, v));
}

/// The run ends here: with a failure (1) if a check before this point has failed, with a possible
/// one (4) if only float values differ, and not in a way one rounding error can explain.
fn end(code: i32) -> ! {
    let (hard, soft, out) = {
        let g = CTX.lock().unwrap();
        let c = g.as_ref().unwrap();
        let soft = c.floats.values().any(|x| x.2 > 0.2 || x.0 >= 4 && x.1 * 4 >= x.0);
        (!c.failed.is_empty(), soft || c.out.is_none() && c.floats.values().any(|x| x.1 > 0), c.out.clone())
    };
    if let (true, Some(o)) = (hard || soft, out) {
        save(&o);
    }
    std::io::stdout().flush().ok();
    unsafe { _exit(if hard { 1 } else if soft { 4 } else { code }) }
}

fn fail(name: &str) {
    let mut g = CTX.lock().unwrap();
    let c = g.as_mut().unwrap();
    if !c.failed.iter().any(|x| x == name) {
        c.failed.push(name.to_string());
        println!("FAILED {name}");
    }
}
#[no_mangle]
pub extern "C" fn vf_check(c: bool, name: *const u8, nl: usize) {
    if !c {
        fail(s(name, nl));
    }
}
#[no_mangle]
pub extern "C" fn vf_feq(a: f32, b: f32, name: *const u8, nl: usize) {
    let (x, y) = (a as f64, b as f64);
    let d = if a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() || a == b {
        0.0
    } else if x.is_finite() && y.is_finite() { ((x - y).abs() - 1e-30).max(0.0) / x.abs().max(y.abs()) } else { 1.0 };
    let name = s(name, nl);
    let mut g = CTX.lock().unwrap();
    let f = g.as_mut().unwrap().floats.entry(name.to_string()).or_insert((0, 0, 0.0));
    f.0 += 1;
    if d > 2e-5 {
        if f.1 == 0 {
            println!("FAILED {name}: {a:e} {b:e}");
        }
        f.1 += 1;
        f.2 = f.2.max(d);
    }
}
#[no_mangle]
pub extern "C" fn vf_assume(c: bool) {
    if !c {
        end(3)
    }
}
#[no_mangle]
pub extern "C" fn vf_fn(_x: u16, _name: *const u8, _nl: usize) -> u16 {
    unreachable!("contracts are not run")
}
#[no_mangle]
pub extern "C" fn vf_cover(_c: bool, _name: *const u8, _nl: usize) {}

fn save(path: &str) {
    let g = CTX.lock().unwrap_or_else(|e| e.into_inner());
    let c = g.as_ref().unwrap();
    let mut f = std::fs::File::create(path).unwrap();
    for (n, v) in &c.seen {
        write!(f, "{n} ").unwrap();
        for b in v {
            write!(f, "{b:02x}").unwrap();
        }
        writeln!(f).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for t in vfharness::TABLES {
            for (n, _) in *t {
                println!("{n}");
            }
        }
        return;
    }
    let h = vfharness::TABLES.iter().flat_map(|t| t.iter()).find(|x| x.0 == a[2]).expect("harness").1;
    match a[1].as_str() {
        "run" => {
            let mut m = HashMap::new();
            for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
                if let Some((n, x)) = l.rsplit_once(' ') {
                    let v = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect();
                    m.insert(n.to_string(), v);
                }
            }
            *CTX.lock().unwrap() = Ctx::new(Mode::File(m), None);
            std::panic::set_hook(Box::new(|i| {
                println!("PANIC {i}");
                std::io::stdout().flush().ok();
                unsafe { _exit(1) }
            }));
            unsafe { alarm(60) };
            h();
            end(0)
        }
        "search" => {
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let t0 = std::time::Instant::now();
            let (mut i, mut soft) = (0u64, 0u64);
            while t0.elapsed().as_secs_f64() < secs && i < 2_000_000 {
                std::io::stdout().flush().ok();
                let pid = unsafe { fork() };
                if pid == 0 {
                    let out = a[5].clone();
                    let st = seed.wrapping_mul(0x1_0000_0001).wrapping_add(i << 20);
                    *CTX.lock().unwrap() = Ctx::new(match i {
                        0 => Mode::Same(0),
                        1 => Mode::Same(0xFF),
                        _ => Mode::Rand(st),
                    }, Some(out.clone()));
                    let o2 = out.clone();
                    std::panic::set_hook(Box::new(move |i| {
                        println!("PANIC {i}");
                        save(&o2);
                        std::io::stdout().flush().ok();
                        unsafe { _exit(1) }
                    }));
                    unsafe { alarm(20) };
                    h();
                    end(0)
                }
                let mut st = 0i32;
                unsafe { waitpid(pid, &mut st, 0) };
                // float values that differ: only if they do so again and again
                soft += (st == 0x400) as u64;
                if st == 0x100 || st == 0x400 && soft >= 5 && soft * 200 > i {
                    println!("FOUND after {} inputs", i + 1);
                    std::process::exit(1);
                }
                i += 1;
            }
            println!("NONE in {i} inputs");
        }
        _ => panic!("usage"),
    }
}
