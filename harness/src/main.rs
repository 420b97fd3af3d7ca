mod codec;
mod gen;
mod io;
mod layout;
mod obs;
mod session;
mod table;

use serde_json::Value;
use std::alloc::{GlobalAlloc, Layout, System};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn read_lines(p: &str) -> Vec<Value> {
    BufReader::new(File::open(p).expect("input"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("json"))
        .collect()
}


/// Refuses single allocations beyond 1 GiB: an allocation sized by bad data aborts the process,
/// which the driver reports.
struct Capped;
const CAP: usize = 1 << 30;
unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP { std::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP { std::ptr::null_mut() } else { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > CAP { std::ptr::null_mut() } else { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOC: Capped = Capped;

/// Runs `f` over the lines; OUT gets a line per input as it is finished, OUT.started the index of
/// each input as it is started (so that the driver knows which one ended the process).
fn par_run(inp: Vec<Value>, out: &str, f: impl Fn(&Value) -> Value + Sync) {
    let n = inp.len();
    let w = Mutex::new(BufWriter::new(File::create(out).unwrap()));
    let st = Mutex::new(File::create(format!("{out}.started")).unwrap());
    let next = AtomicUsize::new(0);
    let threads: usize = std::env::var("LAZH_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                writeln!(st.lock().unwrap(), "s {i}").unwrap();
                let mut v = f(&inp[i]);
                v["k"] = Value::from(i);
                let line = v.to_string();
                {
                    let mut w = w.lock().unwrap();
                    writeln!(w, "{line}").unwrap();
                    w.flush().unwrap();
                }
                writeln!(st.lock().unwrap(), "e {i}").unwrap();
            });
        }
    });
}

fn main() {
    if std::env::var("LAZH_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("obs") => par_run(read_lines(&a[2]), &a[3], obs::run),
        Some("codec") => par_run(read_lines(&a[2]), &a[3], codec::run),
        Some("run") => par_run(read_lines(&a[2]), &a[3], session::run),
        _ => {
            eprintln!("usage: lazh run SCRIPTS OUT");
            std::process::exit(2);
        }
    }
}
