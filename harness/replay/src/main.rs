//! Native implementation of the intrinsics: replays one recorded input.
//! usage: replay FILE   (line 1: harness, line 2: args, line 3: values)
//! exit 0: no violation; 1: reproduced (assert/panic); 3: input does not satisfy an assumption
use std::sync::Mutex;
static VALS: Mutex<(Vec<u64>, usize, Vec<u32>)> = Mutex::new((vec![], 0, vec![]));
fn next() -> u64 {
    let mut g = VALS.lock().unwrap();
    let i = g.1;
    g.1 += 1;
    g.0.get(i).copied().unwrap_or(0)
}
#[no_mangle]
pub extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
pub extern "C" fn sym_choice(n: u32) -> u32 {
    let v = next() as u32;
    if v >= n {
        eprintln!("choice out of range");
        std::process::exit(3);
    }
    v
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        eprintln!("assumption not met");
        std::process::exit(3);
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, code: u32) {
    if !c {
        println!("REPRODUCED assertion {}", code);
        std::process::exit(1);
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(id: u32) {
    println!("COVER {}", id);
}
#[no_mangle]
pub extern "C" fn sym_lut(_on: u32) {}
static REFUSAL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[no_mangle]
pub extern "C" fn sym_refusal(on: u32) {
    REFUSAL.store(on != 0, std::sync::atomic::Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn sym_arg(i: u32) -> u32 {
    VALS.lock().unwrap().2.get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
pub extern "C" fn sym_note(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    println!("note: {}", String::from_utf8_lossy(s));
}
fn main() {
    let f = std::env::args().nth(1).unwrap();
    let t = std::fs::read_to_string(&f).unwrap();
    let mut l = t.lines().filter(|l| !l.starts_with('#'));
    let h = l.next().unwrap().trim().to_string();
    let args: Vec<u32> = l.next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect();
    let vals: Vec<u64> = l.next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect();
    *VALS.lock().unwrap() = (vals, 0, args);
    let hf = match hx::HARNESSES.iter().find(|x| x.0 == h) {
        Some(x) => x.1,
        None => {
            eprintln!("unknown harness {}", h);
            std::process::exit(2);
        }
    };
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if REFUSAL.load(std::sync::atomic::Ordering::SeqCst) {
            println!("COVER 90");
            println!("OK");
            std::process::exit(0);
        }
        hook(i)
    }));
    // on a thread with a big stack, unless its depth is what is checked; a panic inside an extern "C" fn aborts (SIGABRT)
    let stack = if h == "h_deep" { 96 << 10 } else { 256 << 20 };
    let t = std::thread::Builder::new().stack_size(stack).spawn(move || hf()).unwrap();
    match t.join() {
        Ok(_) => {
            println!("OK");
        }
        Err(_) => std::process::exit(1),
    }
}
