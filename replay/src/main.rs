// Executable contracts: the properties of /verif/properties.jsonl as runtime checks over generated
// inputs, with oracles that do not use the code under test.  Used (a) to look for a failing input when
// the verifier rejects an obligation, and (b) as the bounded stand-in where no obligation is discharged.
//
//   replay search PROP SECS SEED OUT.json     explore; OUT.json gets counts, samples and the failures
//   replay case PROP SUB IDX SEED             run one case again (exit 1 when it fails)
#![allow(dead_code)]
extern crate la;
extern crate num;

mod ctx;
mod fuel;
mod mat;
mod q;
mod quat;
mod p_matrix;
mod p_num;
mod p_decomp;
mod p_misc;

use ctx::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// Fresh memory is filled with 0x7F, so that an element nobody wrote shows up the same way every time
// (as a huge float, a huge integer) instead of depending on what the heap held before.
struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0x7F, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Poison = Poison;

pub static CASE: Mutex<String> = Mutex::new(String::new());
static STARTED: AtomicU64 = AtomicU64::new(0); // ms since start, 0 = idle
pub static HANG_MS: u64 = 20_000;

fn subs() -> Vec<Sub> {
    let mut v = vec![];
    p_matrix::subs(&mut v);
    p_num::subs(&mut v);
    p_decomp::subs(&mut v);
    p_misc::subs(&mut v);
    v
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn run_case(s: &Sub, idx: u64, seed: u64) -> (Ctx, Result<(), String>) {
    let mut c = Ctx::new(s.prop, s.name, idx, seed);
    q::reset();
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut c)));
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(format!("unexpected panic: {}", panic_text(e))),
    };
    // an exact-arithmetic case whose numbers outgrew i128 (or needed an irrational root) says nothing
    if q::poisoned() {
        c.trivial = true;
        return (c, Ok(()));
    }
    (c, r)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Fail {
    sub: &'static str,
    idx: u64,
    msg: String,
    desc: String,
}

fn write_out(path: &str, prop: &str, evals: u64, distinct: u64, skipped: u64, per: &[(String, u64)], samples: &[String], fails: &[Fail]) {
    let mut o = String::new();
    o.push_str(&format!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"inconclusive\":{},", esc(prop), evals, distinct, skipped));
    o.push_str("\"subchecks\":{");
    o.push_str(&per.iter().map(|(n, k)| format!("{}:{}", esc(n), k)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"failures\":[");
    o.push_str(
        &fails
            .iter()
            .map(|f| format!("{{\"sub\":{},\"idx\":{},\"message\":{},\"input\":{}}}", esc(f.sub), f.idx, esc(&f.msg), esc(&f.desc)))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}\n");
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, path).unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let all = subs();
    if a.len() >= 2 && a[1] == "list" {
        for s in &all {
            println!("{} {}", s.prop, s.name);
        }
        return;
    }
    if a.len() >= 6 && a[1] == "case" {
        let (prop, sub, idx, seed) = (&a[2], &a[3], a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
        let s = match all.iter().find(|s| s.prop == prop && s.name == sub) {
            Some(s) => s,
            None => {
                println!("no such case");
                std::process::exit(2);
            }
        };
        let s2 = s.clone();
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(HANG_MS));
            println!("FAILS: no answer after {} s", HANG_MS / 1000);
            std::process::exit(1);
        });
        // big stack, as in search
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let (c, r) = run_case(&s2, idx, seed);
                println!("input: {}", c.desc);
                match r {
                    Ok(()) => {
                        println!("HOLDS");
                        0
                    }
                    Err(m) => {
                        println!("FAILS: {}", m);
                        1
                    }
                }
            })
            .unwrap();
        std::process::exit(h.join().unwrap_or(1));
    }
    if a.len() < 6 || a[1] != "search" {
        eprintln!("usage: replay search PROP SECS SEED OUT | case PROP SUB IDX SEED | list");
        std::process::exit(2);
    }
    let prop = a[2].clone();
    let secs: f64 = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let out = a[5].clone();
    let log = std::env::var("REPLAY_LOG").ok();
    let mine: Vec<Sub> = all.into_iter().filter(|s| s.prop == prop).collect();
    if mine.is_empty() {
        eprintln!("no checks for {}", prop);
        std::process::exit(2);
    }
    let t0 = Instant::now();
    {
        let out = out.clone();
        let prop = prop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let st = STARTED.load(Ordering::SeqCst);
            let now = t0.elapsed().as_millis() as u64 + 1;
            if st != 0 && now > st + HANG_MS {
                let c = CASE.lock().unwrap().clone();
                let mut it = c.splitn(3, '\u{1}');
                let sub: &'static str = Box::leak(it.next().unwrap_or("").to_string().into_boxed_str());
                let idx = it.next().unwrap_or("0").parse().unwrap_or(0);
                let desc = it.next().unwrap_or("").to_string();
                write_out(&out, &prop, 0, 0, 0, &[], &[], &[Fail { sub, idx, msg: format!("no answer after {} s", HANG_MS / 1000), desc }]);
                std::process::exit(1);
            }
        });
    }
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut idx = 0u64;
            let (mut evals, mut skipped) = (0u64, 0u64);
            let mut distinct: HashSet<u64> = HashSet::new();
            let mut per: Vec<(String, u64)> = mine.iter().map(|s| (s.name.to_string(), 0)).collect();
            let mut samples: Vec<String> = vec![];
            let mut fails: Vec<Fail> = vec![];
            'outer: loop {
                let mut any = false;
                for (k, s) in mine.iter().enumerate() {
                    if s.limit != 0 && idx >= s.limit {
                        continue;
                    }
                    any = true;
                    // every sub-check gets its first cases whatever the budget
                    if t0.elapsed().as_secs_f64() > secs && idx >= s.min {
                        continue;
                    }
                    *CASE.lock().unwrap() = format!("{}\u{1}{}\u{1}", s.name, idx);
                    if let Some(l) = &log {
                        let mut f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(l).unwrap();
                        writeln!(f, "{} {}", s.name, idx).unwrap();
                    }
                    STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    let (c, r) = run_case(s, idx, seed);
                    STARTED.store(0, Ordering::SeqCst);
                    if c.ended {
                        continue;
                    }
                    evals += 1;
                    per[k].1 += 1;
                    if c.trivial {
                        skipped += 1;
                    } else {
                        distinct.insert(c.hash());
                        if samples.len() < 3 || (idx == 17 && samples.len() < 8) {
                            samples.push(format!("{}: {}", s.name, c.desc));
                        }
                    }
                    if let Err(m) = r {
                        fails.push(Fail { sub: s.name, idx, msg: m, desc: c.desc.clone() });
                        if fails.len() >= 5 {
                            break 'outer;
                        }
                    }
                }
                idx += 1;
                if !any {
                    break;
                }
                if t0.elapsed().as_secs_f64() > secs && mine.iter().all(|s| idx >= s.min || (s.limit != 0 && idx >= s.limit)) {
                    break;
                }
                if !fails.is_empty() && t0.elapsed().as_secs_f64() > secs {
                    break;
                }
            }
            write_out(&out, &prop, evals, distinct.len() as u64, skipped, &per, &samples, &fails);
            if fails.is_empty() {
                0
            } else {
                1
            }
        })
        .unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}
