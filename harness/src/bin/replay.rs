#[cfg(not(replay))]
fn main() {}

#[cfg(replay)]
fn main() {
    // replay ENTRY PARAMS INPUTS   (comma separated)
    let a: Vec<String> = std::env::args().collect();
    let list = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    unsafe {
        harness::sym::raw::PARAMS = list(&a[2]);
        harness::sym::raw::INPUTS = list(&a[3]);
    }
    let f = match harness::ENTRIES.iter().flat_map(|t| t.iter()).find(|e| e.0 == a[1]) {
        Some(e) => e.1,
        None => panic!("no entry {}", a[1]),
    };
    // A stack as large as a program's main thread has by default.
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || match std::panic::catch_unwind(|| f()) {
        Ok(()) => {
            println!("REPLAY-OK");
            0
        }
        Err(_) => {
            println!("REPLAY-PANIC");
            102
        }
    });
    std::process::exit(t.unwrap().join().unwrap_or(102))
}
