//! symx: symbolic execution of rustc-emitted LLVM IR with z3.
//! usage: symx IR.ll JOBS OUTDIR [--par N] [--time SECS] [--smt DIR MAX]
//! JOBS: one job per line: harness arg arg ...
mod exec;
mod expr;
mod ir;
mod mem;
mod parse;
mod z3;
use std::io::Write;

extern "C" {
    fn fork() -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Opt {
    time: u64,
    smt: Option<(String, u64)>,
    max_steps: u64,
    max_viols: usize,
    confirm: u64,
}

fn run_job(p: &'static ir::Program, sp: std::rc::Rc<Vec<exec::Sp>>, idx: usize, line: &str, opt: &Opt) -> String {
    let mut it = line.split_whitespace();
    let h = it.next().unwrap().to_string();
    let args: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
    let t0 = std::time::Instant::now();
    let fi = match p.fidx.get(&h) {
        Some(f) if p.funcs[*f as usize].defined => *f,
        _ => return format!("{{\"job\":{},\"error\":\"no such harness\"}}", js(line)),
    };
    let mut en = exec::Engine::new(p, sp);
    en.args = args;
    en.max_steps = opt.max_steps;
    en.max_viols = opt.max_viols;
    en.confirm_max = opt.confirm;
    en.confirm_time = opt.confirm as f64 / 8.0;
    en.deadline = t0 + std::time::Duration::from_secs(opt.time);
    if let Some((d, n)) = &opt.smt {
        let dir = format!("{}/{}", d, idx);
        let _ = std::fs::create_dir_all(&dir);
        en.smt_dir = Some(dir);
        en.smt_max = *n;
    }
    en.called[fi as usize] = true;
    let s = en.init_state(fi);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| en.run(s)));
    let err = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(p) => Some(format!(
            "engine panic {}",
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    };
    let viols: Vec<String> = en
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"msg\":{},\"code\":{},\"values\":{},\"stack\":{},\"notes\":{}}}",
                js(&v.msg),
                v.code,
                jl(&v.values.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
                jl(&v.stack.iter().map(|x| js(x)).collect::<Vec<_>>()),
                jl(&v.notes.iter().map(|x| js(x)).collect::<Vec<_>>())
            )
        })
        .collect();
    let samples: Vec<String> = en
        .samples
        .iter()
        .map(|v| {
            format!(
                "{{\"values\":{},\"covers\":{},\"notes\":{}}}",
                jl(&v.values.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
                jl(&v.covers.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
                jl(&v.notes.iter().map(|x| js(x)).collect::<Vec<_>>())
            )
        })
        .collect();
    let mut fns: Vec<String> = vec![];
    for (i, c) in en.called.iter().enumerate() {
        if *c {
            let f = &p.funcs[i];
            fns.push(js(f.pretty.as_deref().unwrap_or(&f.name)));
        }
    }
    if en.profile {
        let mut v: Vec<_> = en.fork_sites.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (k, n) in v.iter().take(20) {
            eprintln!("{:8} {}", n, k);
        }
    }
    let st = &en.st;
    format!(
        "{{\"job\":{},\"error\":{},\"paths\":{},\"dropped\":{},\"instrs\":{},\"forks\":{},\"asserts\":{},\"asserts_const\":{},\"asserts_prop\":{},\"confirmed\":{},\"assert_queries\":{},\"branch_queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"max_steps\":{},\"covers\":{{{}}},\"samples\":{},\"violations\":{},\"functions\":{}}}",
        js(line),
        err.map(|e| js(&e)).unwrap_or("null".into()),
        st.paths,
        st.dropped,
        st.instrs,
        st.forks,
        st.asserts,
        st.asserts_const,
        st.asserts_prop,
        st.confirmed,
        st.assert_queries,
        st.branch_queries,
        st.cache_hits,
        en.z3.n_sat,
        en.z3.n_unsat,
        en.z3.n_unknown,
        en.z3.time,
        t0.elapsed().as_secs_f64(),
        st.max_steps,
        st.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
        jl(&samples),
        jl(&viols),
        jl(&fns)
    )
}

fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(main2).unwrap();
    match t.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(2),
    }
}

fn main2() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let text: &'static str = Box::leak(std::fs::read_to_string(&a[1]).expect("IR file").into_boxed_str());
    let jobs: Vec<String> = std::fs::read_to_string(&a[2])
        .expect("jobs file")
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| l.to_string())
        .collect();
    let out = a[3].clone();
    std::fs::create_dir_all(&out).unwrap();
    let mut par = 8;
    let mut opt = Opt { time: 600, smt: None, max_steps: 400_000_000, max_viols: 1, confirm: 40 };
    let mut total = u64::MAX / 2;
    let mut grace = u64::MAX / 2;
    let mut i = 4;
    while i < a.len() {
        match a[i].as_str() {
            "--total" => {
                total = a[i + 1].parse().unwrap();
                i += 2
            }
            "--grace" => {
                grace = a[i + 1].parse().unwrap();
                i += 2
            }
            "--par" => {
                par = a[i + 1].parse().unwrap();
                i += 2
            }
            "--time" => {
                opt.time = a[i + 1].parse().unwrap();
                i += 2
            }
            "--confirm" => {
                opt.confirm = a[i + 1].parse().unwrap();
                i += 2
            }
            "--steps" => {
                opt.max_steps = a[i + 1].parse().unwrap();
                i += 2
            }
            "--viols" => {
                opt.max_viols = a[i + 1].parse().unwrap();
                i += 2
            }
            "--smt" => {
                opt.smt = Some((a[i + 1].clone(), a[i + 2].parse().unwrap()));
                i += 3
            }
            x => panic!("option {}", x),
        }
    }
    let mut p = parse::parse_module(text);
    for fi in 0..p.funcs.len() as u32 {
        parse::parse_body(&mut p, text, fi);
    }
    let p: &'static ir::Program = Box::leak(Box::new(p));
    let sp = std::rc::Rc::new(exec::specials(p));
    let start = std::time::Instant::now();
    let mut running: Vec<i32> = vec![];
    let mut crashed = 0;
    // since when a violation is known: little more is worth waiting for
    let mut found: Option<std::time::Instant> = None;
    let mut reap = |running: &mut Vec<i32>, found: &mut Option<std::time::Instant>| unsafe {
        let mut st = 0;
        let pid = waitpid(-1, &mut st, 1);
        if pid > 0 {
            running.retain(|x| *x != pid);
            if st == 1 << 8 && found.is_none() {
                *found = Some(std::time::Instant::now());
            }
        } else {
            if found.map_or(false, |t| t.elapsed().as_secs() >= grace) {
                for p in running.iter() {
                    kill(*p, 9);
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(3));
        }
    };
    for (i, j) in jobs.iter().enumerate() {
        while running.len() >= par {
            reap(&mut running, &mut found);
        }
        let f = format!("{}/{}.json", out, i);
        let _ = std::fs::remove_file(&f);
        let left = total.saturating_sub(start.elapsed().as_secs());
        if left < 5 || found.map_or(false, |t| t.elapsed().as_secs() >= grace) {
            continue;
        }
        opt.time = opt.time.min(left);
        unsafe {
            let pid = fork();
            if pid == 0 {
                let lim = [12u64 << 30, 12u64 << 30];
                setrlimit(9, &lim);
                let r = run_job(p, sp.clone(), i, j, &opt);
                let v = r.contains("\"violations\":[{");
                let t = format!("{}.part", f);
                let mut fh = std::fs::File::create(&t).unwrap();
                fh.write_all(r.as_bytes()).unwrap();
                fh.flush().unwrap();
                std::fs::rename(&t, &f).unwrap();
                _exit(v as i32);
            }
            running.push(pid);
        }
    }
    while !running.is_empty() {
        reap(&mut running, &mut found);
    }
    for (i, j) in jobs.iter().enumerate() {
        let f = format!("{}/{}.json", out, i);
        if !std::path::Path::new(&f).exists() {
            crashed += 1;
            std::fs::write(&f, format!("{{\"job\":{},\"error\":\"not finished\"}}", js(j))).unwrap();
        }
    }
    if crashed > 0 {
        2
    } else {
        0
    }
}
