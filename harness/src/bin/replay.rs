//! Native execution of the harnesses on concrete inputs.
//!   replay run HARNESS HEX           one input, prints the outcome, exit 0 ok / 3 violation
//!   replay batch                     stdin: "HARNESS HEX" lines; prints "OUTCOME OBSHASH" lines
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
thread_local! {
    static INPUT: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0));
    static OBS: Cell<u64> = Cell::new(0);
    static EXPLAIN: Cell<bool> = Cell::new(false);
}
struct Cut;
struct Viol(String);
#[no_mangle]
pub extern "C-unwind" fn sx_byte() -> u8 {
    INPUT.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).copied().unwrap_or(0)
    })
}
#[no_mangle]
pub extern "C-unwind" fn sx_assume(b: bool) {
    if !b {
        panic_any(Cut)
    }
}
unsafe fn st(p: *const u8, l: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, l)).into_owned()
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sx_assert(b: bool, p: *const u8, l: usize) {
    if !b {
        panic_any(Viol(st(p, l)))
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sx_fail(p: *const u8, l: usize) -> ! {
    panic_any(Viol(format!("!{}", st(p, l))))
}
#[no_mangle]
pub extern "C-unwind" fn sx_obs(v: u64) {
    if EXPLAIN.with(|e| e.get()) {
        eprintln!("  obs {v:#x}");
    }
    OBS.with(|o| o.set((o.get().rotate_left(7) ^ v).wrapping_mul(0x9E3779B97F4A7C15)))
}
#[no_mangle]
pub extern "C-unwind" fn sx_cover(_p: *const u8, _l: usize) {}
#[no_mangle]
pub extern "C-unwind" fn sx_expect(_p: *const u8, _l: usize) {}
#[no_mangle]
pub extern "C-unwind" fn sx_conc(v: u64) -> u64 {
    v
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn run(f: extern "C-unwind" fn(), inp: Vec<u8>) -> (String, String, u64) {
    INPUT.with(|i| *i.borrow_mut() = (inp, 0));
    OBS.with(|o| o.set(0xcbf29ce484222325));
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    let o = OBS.with(|o| o.get());
    match r {
        Ok(()) => ("ok".into(), String::new(), o),
        Err(e) => {
            if e.downcast_ref::<Cut>().is_some() {
                ("assume".into(), String::new(), o)
            } else if let Some(v) = e.downcast_ref::<Viol>() {
                match v.0.strip_prefix('!') {
                    Some(m) => ("fail".into(), m.to_string(), o),
                    None => ("assert".into(), v.0.clone(), o),
                }
            } else {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                ("panic".into(), m, o)
            }
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let t = vh::table();
    let get = |n: &str| {
        t.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or_else(|| {
            eprintln!("replay: no harness {n}");
            std::process::exit(66)
        })
    };
    match a.first().map(|s| s.as_str()) {
        Some("list") => {
            for x in &t {
                println!("{}", x.0);
            }
        }
        Some("run") => {
            EXPLAIN.with(|e| e.set(a.len() > 3));
            let f = get(&a[1]);
            let inp = unhex(a.get(2).map(|s| s.as_str()).unwrap_or(""));
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || run(f, inp)).unwrap();
            let (c, m, o) = h.join().unwrap();
            println!("{c} {o:016x} {m}");
            std::process::exit(if c == "ok" || c == "assume" { 0 } else { 3 });
        }
        Some("batch") => {
            std::panic::set_hook(Box::new(|_| {}));
            let mut out = std::io::BufWriter::new(std::io::stdout());
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let (h, x) = l.split_once(' ').unwrap_or((&l, ""));
                let (c, _m, o) = run(get(h), unhex(x));
                writeln!(out, "{c} {o:016x}").unwrap();
            }
        }
        _ => std::process::exit(64),
    }
}
