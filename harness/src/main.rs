//! Executes cases (one JSON object per line) on the library and writes one observation per
//! line.  `fuser-harness CASES OBSERVATIONS [skip-until-line]`

mod alloc;
mod bank;
mod cases;
mod interp;
mod json;
mod observe;

use std::fs;
use std::io::{ BufRead, BufReader, Write };
use std::panic;
use std::sync::atomic::{ AtomicI64, Ordering::SeqCst };
use std::sync::{ Arc, Mutex };

use json::*;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

const RLIMIT_AS: i32 = 9;
// what a case may take, and what a large one may take
const MAX_CPU_MS: [i64; 2] = [4_000, 20_000];
const MAX_WALL_MS: [i64; 2] = [40_000, 120_000];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 { fail("usage: fuser-harness CASES OBSERVATIONS [lines to skip]"); }
    let lines_to_skip: usize = args.get(3).map(|n| n.parse().unwrap()).unwrap_or(0);
    unsafe { setrlimit(RLIMIT_AS, &[3 << 30, 3 << 30]); }
    let input = BufReader::new(fs::File::open(&args[1]).unwrap_or_else(|_| fail("cannot read cases")));
    let output = Arc::new(Mutex::new(
        fs::OpenOptions::new().create(true).append(true).open(&args[2])
            .unwrap_or_else(|_| fail("cannot write observations")),
    ));
    panic::set_hook(Box::new(|_| ()));

    // the case being executed: its number (or -1), when it began
    let current = Arc::new(AtomicI64::new(-1));
    let began = Arc::new(AtomicI64::new(0));
    let wall = std::time::Instant::now();
    let began_wall = Arc::new(AtomicI64::new(0));
    let large = Arc::new(AtomicI64::new(0));

    {
        let (current, began, began_wall, large, output) =
            (current.clone(), began.clone(), began_wall.clone(), large.clone(), output.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let id = current.load(SeqCst);
            if id < 0 { continue; }
            let cpu = cases::cpu_ms() - began.load(SeqCst);
            let elapsed = wall.elapsed().as_millis() as i64 - began_wall.load(SeqCst);
            let size = large.load(SeqCst) as usize;
            if (cpu > MAX_CPU_MS[size] || elapsed > MAX_WALL_MS[size]) && current.load(SeqCst) == id {
                let line = obj(vec![("id", Int(id)), ("st", s("hang"))]).to_line() + "\n";
                let mut out = output.lock().unwrap();
                let _ = out.write_all(line.as_bytes());
                std::process::exit(3);
            }
        });
    }

    // an ordinary amount of stack, as a program's main thread has
    let worker = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        for (number, line) in input.lines().enumerate() {
            let line = line.expect("case line");
            if number < lines_to_skip || line.is_empty() { continue; }
            let case: *mut J = Box::into_raw(Box::new(json::parse(&line)));
            let shared: &'static J = unsafe { &*case };
            let id = shared.at("id").int();
            began.store(cases::cpu_ms(), SeqCst);
            began_wall.store(wall.elapsed().as_millis() as i64, SeqCst);
            large.store((shared.at("k").str() == "big") as i64, SeqCst);
            current.store(id, SeqCst);
            let result = panic::catch_unwind(|| cases::execute(shared));
            current.store(-1, SeqCst);
            observe::take_log();
            let mut fields = vec![("id".to_string(), Int(id))];
            match result {
                Ok(Obj(observed)) => {
                    fields.push(("st".to_string(), s("done")));
                    fields.extend(observed);
                },
                Ok(_) => unreachable!(),
                Err(payload) => match payload.downcast::<interp::Skip>() {
                    Ok(reason) => {
                        fields.push(("st".to_string(), s("skip")));
                        fields.push(("why".to_string(), s(&reason.0)));
                    },
                    Err(payload) => {
                        let why = payload.downcast_ref::<String>().cloned()
                            .or_else(|| payload.downcast_ref::<&str>().map(|t| t.to_string()))
                            .unwrap_or_default();
                        fields.push(("st".to_string(), s("panic")));
                        fields.push(("why".to_string(), s(&why)));
                    },
                },
            }
            interp::STORE.with(|store| store.borrow_mut().clear());
            unsafe { drop(Box::from_raw(case)); }
            let line = Obj(fields).to_line() + "\n";
            output.lock().unwrap().write_all(line.as_bytes()).expect("write observation");
        }
    }).expect("worker thread");
    if worker.join().is_err() { fail("worker failed"); }
}
