//! symx: bounded symbolic execution of rustc-emitted LLVM IR with Z3.
//! usage: symx FILE.ll OUTDIR harness[,harness..] [--jobs N] [--time S] [--total S] [--steps N] [--frontier N] [--trace]
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

struct Opt {
    ll: String,
    out: String,
    harness: Vec<String>,
    jobs: usize,
    time: f64,
    total: f64,
    steps: u64,
    frontier: usize,
    maxrec: usize,
    trace: bool,
    props: Vec<u64>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opt {
        ll: a[1].clone(),
        out: a[2].clone(),
        harness: a[3].split(',').map(|s| s.to_string()).collect(),
        jobs: 8,
        time: 600.0,
        total: 1e9,
        steps: 20_000_000,
        frontier: 600,
        maxrec: 400_000,
        trace: false,
        props: vec![],
    };
    let mut i = 4;
    while i < a.len() {
        match a[i].as_str() {
            "--jobs" => o.jobs = a[i + 1].parse().unwrap(),
            "--time" => o.time = a[i + 1].parse().unwrap(),
            "--total" => o.total = a[i + 1].parse().unwrap(),
            "--steps" => o.steps = a[i + 1].parse().unwrap(),
            "--frontier" => o.frontier = a[i + 1].parse().unwrap(),
            "--maxrec" => o.maxrec = a[i + 1].parse().unwrap(),
            "--props" => o.props = a[i + 1].split(',').map(|x| x.parse().unwrap()).collect(),
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            x => panic!("option {x}"),
        }
        i += 2;
    }
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || run(o)).unwrap();
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}

fn drain(ex: &mut Exec, f: &mut std::io::BufWriter<std::fs::File>, written: &mut usize, maxrec: usize) {
    for r in ex.out.drain(..) {
        if r.kind == 'o' {
            *written += 1;
            if *written > maxrec {
                continue;
            }
        }
        let v: Vec<String> = r.vals.iter().map(|x| x.to_string()).collect();
        let msg = r.msg.replace(['\n', '\t'], " ");
        writeln!(f, "{}\t{}\t{:x}\t{}\t{}", r.kind, r.code, r.hash, v.join(" "), msg).unwrap();
    }
}

fn run(mut o: Opt) -> i32 {
    let t0 = Instant::now();
    let text = match std::fs::read_to_string(&o.ll) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("symx: {}: {e}", o.ll);
            return 3;
        }
    };
    let text: &'static str = Box::leak(text.into_boxed_str());
    let m = ir::Module::load(text);
    let mut ex = Exec::new(m);
    ex.max_steps = o.steps;
    ex.trace = o.trace;
    ex.props = o.props.clone();
    let load_t = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    std::fs::create_dir_all(&o.out).unwrap();
    let (each, t1) = (o.time, Instant::now());
    let names = std::mem::take(&mut o.harness);
    for (i, h) in names.iter().enumerate() {
        // of what is left, up to four times a fair share
        let share = (o.total - t1.elapsed().as_secs_f64()) / (names.len() - i) as f64;
        o.time = each.min((4.0 * share).max(3.0));
        // each harness in a child so that state never leaks between them
        let pid = unsafe { fork() };
        if pid == 0 {
            let c = harness(&mut ex, h, &o, load_t);
            unsafe { _exit(c) }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            eprintln!("symx: harness {h} failed (status {st:#x})");
            rc = 3;
        }
    }
    rc
}

fn shared() -> &'static [AtomicU64; 64] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const [AtomicU64; 64])
    }
}

fn harness(ex: &mut Exec, h: &str, o: &Opt, load_t: f64) -> i32 {
    let t0 = Instant::now();
    let st = match ex.start(h) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("symx: {e}");
            return 3;
        }
    };
    ex.work.push_back(st);
    let path = |i: usize, k: &str| format!("{}/{}.{}.{}", o.out, h, i, k);
    let mut f0 = std::io::BufWriter::new(std::fs::File::create(path(0, "paths")).unwrap());
    let mut written = 0;
    let mut truncated = 0u64;
    // breadth-first until there is enough work for everybody
    while let Some(s) = ex.work.pop_front() {
        let enough = ex.work.len() + 1 >= o.frontier || ex.work.len() >= 4 * o.jobs && t0.elapsed().as_secs_f64() > 0.7;
        if enough && o.jobs > 1 {
            ex.work.push_front(s);
            break;
        }
        if t0.elapsed().as_secs_f64() > o.time {
            ex.work.push_front(s);
            truncated = ex.work.len() as u64;
            ex.work.clear();
            break;
        }
        ex.run(s, true);
        drain(ex, &mut f0, &mut written, o.maxrec);
    }
    f0.flush().unwrap();
    if ex.work.is_empty() {
        stat(ex, &path(0, "stat"), truncated, t0.elapsed().as_secs_f64());
        merge(o, h, 1, t0.elapsed().as_secs_f64(), load_t);
        return 0;
    }
    let base_stats = std::mem::take(&mut ex.stats);
    let (bq, bc, bt) = (ex.solver.queries, ex.solver.cert, ex.solver.time);
    let states: Vec<State> = ex.work.drain(..).collect();
    let n = states.len();
    let sh = shared();
    let mut pids = vec![];
    for w in 1..=o.jobs {
        let pid = unsafe { fork() };
        if pid == 0 {
            ex.solver.queries = 0;
            ex.solver.cert = 0;
            ex.solver.time = 0.0;
            let mut f = std::io::BufWriter::new(std::fs::File::create(path(w, "paths")).unwrap());
            let mut truncated = 0u64;
            let mut written = 0;
            let cap = o.maxrec / o.jobs;
            'outer: loop {
                let i = sh[0].fetch_add(1, Ordering::SeqCst) as usize;
                if i >= n {
                    break;
                }
                // spread: interleave so neighbours (similar cost) go to different workers
                ex.work.push_back(states[i].clone());
                while let Some(s) = ex.work.pop_back() {
                    ex.run(s, false);
                    if ex.out.len() > 256 {
                        drain(ex, &mut f, &mut written, cap);
                    }
                    if t0.elapsed().as_secs_f64() > o.time {
                        truncated += ex.work.len() as u64 + (n.saturating_sub(sh[0].load(Ordering::SeqCst) as usize)) as u64;
                        if i + 1 >= n && ex.work.is_empty() {
                            truncated = 0;
                        }
                        break 'outer;
                    }
                }
            }
            drain(ex, &mut f, &mut written, cap);
            f.flush().unwrap();
            stat(ex, &path(w, "stat"), truncated, t0.elapsed().as_secs_f64());
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut rc = 0;
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        if st != 0 {
            eprintln!("symx: worker failed: status {st:#x}");
            rc = 3;
        }
    }
    ex.stats = base_stats;
    ex.solver.queries = bq;
    ex.solver.cert = bc;
    ex.solver.time = bt;
    stat(ex, &path(0, "stat"), 0, 0.0);
    if rc == 0 {
        merge(o, h, o.jobs + 1, t0.elapsed().as_secs_f64(), load_t);
    }
    rc
}

fn stat(ex: &Exec, p: &str, truncated: u64, wall: f64) {
    let mut f = std::fs::File::create(p).unwrap();
    let s = &ex.stats;
    let mut w = |k: &str, v: String| writeln!(f, "{k} {v}").unwrap();
    w("paths", s.paths.to_string());
    w("assumed", s.assumed.to_string());
    w("steps", s.steps.to_string());
    w("forks", s.forks.to_string());
    w("checks", s.checks.to_string());
    w("checks_sym", s.checks_sym.to_string());
    w("tables", s.tables.to_string());
    w("maxdepth", s.maxdepth.to_string());
    w("maxsteps", s.maxsteps.to_string());
    w("queries", ex.solver.queries.to_string());
    w("certified", ex.solver.cert.to_string());
    w("cache_hits", ex.solver.cache_hits.to_string());
    w("solver_s", format!("{:.4}", ex.solver.time));
    w("truncated", truncated.to_string());
    w("wall", format!("{wall:.3}"));
    for (k, v) in &s.reach {
        w("reach", format!("{k} {v}"));
    }
    for ((k, c, m), n) in &s.viol {
        w("viol", format!("{k} {c} {n} {}", m.replace('\n', " ")));
    }
    for f in ex.fns_seen() {
        w("fn", f.to_string());
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn merge(o: &Opt, h: &str, n: usize, wall: f64, load_t: f64) {
    let mut num: BTreeMap<String, f64> = BTreeMap::new();
    let mut reach: BTreeMap<u64, u64> = BTreeMap::new();
    let mut viol: BTreeMap<(String, String, String), u64> = BTreeMap::new();
    let mut fns: std::collections::BTreeSet<String> = Default::default();
    for i in 0..n {
        let p = format!("{}/{}.{}.stat", o.out, h, i);
        let t = std::fs::read_to_string(&p).unwrap_or_default();
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap();
            match k {
                "reach" => {
                    let (a, b) = v.split_once(' ').unwrap();
                    *reach.entry(a.parse().unwrap()).or_default() += b.parse::<u64>().unwrap();
                }
                "viol" => {
                    let mut it = v.splitn(4, ' ');
                    let (a, b, c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
                    let m = it.next().unwrap_or("");
                    *viol.entry((a.into(), b.into(), m.into())).or_default() += c.parse::<u64>().unwrap();
                }
                "fn" => {
                    fns.insert(v.to_string());
                }
                "maxdepth" | "maxsteps" | "wall" => {
                    let e = num.entry(k.into()).or_default();
                    *e = e.max(v.parse().unwrap());
                }
                _ => *num.entry(k.into()).or_default() += v.parse::<f64>().unwrap(),
            }
        }
        let _ = std::fs::remove_file(&p);
    }
    let mut s = String::from("{");
    s.push_str(&format!("\"harness\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"z3\":{}", js(h), wall, load_t, js(&solver::z3_version())));
    for (k, v) in &num {
        if k != "wall" {
            s.push_str(&format!(",{}:{}", js(k), v));
        }
    }
    s.push_str(",\"reach\":{");
    s.push_str(&reach.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    s.push_str("},\"viol\":[");
    s.push_str(&viol.iter().map(|((a, b, m), n)| format!("{{\"kind\":{},\"code\":{},\"n\":{},\"msg\":{}}}", js(a), b, n, js(m))).collect::<Vec<_>>().join(","));
    s.push_str("],\"functions\":[");
    s.push_str(&fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    s.push_str("]}\n");
    std::fs::write(format!("{}/{}.json", o.out, h), s).unwrap();
    // join the path files
    let mut all = std::fs::File::create(format!("{}/{}.paths", o.out, h)).unwrap();
    for i in 0..n {
        let p = format!("{}/{}.{}.paths", o.out, h, i);
        if let Ok(mut f) = std::fs::File::open(&p) {
            std::io::copy(&mut f, &mut all).unwrap();
        }
        let _ = std::fs::remove_file(&p);
    }
}
