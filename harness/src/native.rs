//! Native replay: `h HARNESS FILE` runs the harness on every value list in FILE
//! (lines as written by symx) and compares what it observes; `h -v HARNESS V V V` runs one.
use crate::rt::{Stop, ST};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub struct Res {
    pub kind: char,
    pub code: u32,
    pub hash: u64,
    pub used: usize,
    pub msg: String,
}

pub fn run(f: fn(), vals: &[u64], log: bool) -> Res {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.vals = vals.to_vec();
        s.pos = 0;
        s.hash = 0xcbf29ce484222325;
        s.log = log;
        s.reached.clear();
    });
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    let (hash, used) = ST.with(|s| {
        let s = s.borrow();
        (s.hash, s.pos)
    });
    let (kind, code, msg) = match r {
        Ok(()) => ('o', 0, String::new()),
        Err(e) => match e.downcast_ref::<Stop>() {
            Some(Stop::Assume) => ('a', 0, String::new()),
            Some(Stop::Check(c)) => ('c', *c, String::new()),
            Some(Stop::End) => ('o', 0, String::new()),
            Some(Stop::Short) => ('s', 0, String::new()),
            None => ('p', 0, LAST.with(|l| l.borrow().clone())),
        },
    };
    Res { kind, code, hash, used, msg }
}

pub fn main(table: &'static [(&'static str, fn())]) {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || main2(table)).unwrap();
    if h.join().is_err() {
        std::process::exit(3)
    }
}

fn main2(table: &'static [(&'static str, fn())]) {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Stop>().is_none() {
            let m = match i.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => i.payload().downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default(),
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST.with(|x| *x.borrow_mut() = format!("{l} {m}"));
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let find = |n: &str| {
        table.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or_else(|| {
            eprintln!("no harness {n}");
            std::process::exit(3)
        })
    };
    if a.len() > 2 && a[1] == "-v" {
        let vals: Vec<u64> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
        let r = run(find(&a[2]), &vals, true);
        println!("result {} code {} hash {:x} {}", r.kind, r.code, r.hash, r.msg.replace(['\n', '\t'], " "));
        return;
    }
    // batch: one output line per input line: kind code hash msg
    let f = find(&a[1]);
    let rd = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    use std::io::Write;
    for l in rd.lines() {
        let l = l.unwrap();
        let c: Vec<&str> = l.split('\t').collect();
        let vals: Vec<u64> = c[3].split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let r = run(f, &vals, false);
        writeln!(out, "{}\t{}\t{:x}\t{}", r.kind, r.code, r.hash, r.msg.replace(['\n', '\t'], " ")).unwrap();
    }
}
