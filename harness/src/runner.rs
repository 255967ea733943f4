//! Command line of a harness binary:
//!   list
//!   worker PROP SEED TIER THREADS PROGRESS_FILE   -> JSON summary on stdout
//!   one PROP FACET TAPE_FILE                      -> exit 0 held, 1 violated (message on stdout)
//!   tape PROP FACET SEED IDX                      -> the tape of a search case, hex
use crate::core::*;
use std::io::Write as _;

const TAPE_MAX: usize = 1 << 16;

pub fn in_big_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap()
}

pub fn run(facets: fn() -> Vec<Facet>) {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for f in facets() {
                println!("{} {} {} {}", f.prop, f.name, f.quick, f.thorough)
            }
        }
        Some("worker") => worker(facets, &a[2], a[3].parse().unwrap(), &a[4], a[5].parse().unwrap(), &a[6]),
        Some("one") => {
            let (p, n) = (a[2].clone(), a[3].clone());
            let tape = unhex(&std::fs::read_to_string(&a[4]).unwrap());
            let r = in_big_thread(move || {
                let f = facets().into_iter().find(|f| f.prop == p && f.name == n).expect("facet");
                let mut ctx = Ctx { want_sample: true, ..Default::default() };
                let r = run_tape(&f, &mut Src::replay(tape), &mut ctx);
                (r, ctx.sample)
            });
            if let Some(s) = r.1 {
                println!("case: {s}")
            }
            match r.0 {
                Ok(()) => println!("held"),
                Err(e) => {
                    println!("violated: {}", e.0);
                    std::process::exit(1)
                }
            }
        }
        Some("tape") => {
            let f = facets().into_iter().find(|f| f.prop == a[2] && f.name == a[3]).expect("facet");
            let mut s = Src::random(case_seed(a[4].parse().unwrap(), &f, a[5].parse().unwrap()));
            let t = s.bytes(TAPE_MAX);
            println!("{}", hex_full(&t));
        }
        _ => {
            eprintln!("usage: see the top of runner.rs");
            std::process::exit(2)
        }
    }
}

fn worker(facets: fn() -> Vec<Facet>, prop: &str, seed: u64, tier: &str, threads: usize, progress: &str) {
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VH_FACET").ok();
    let pf = std::fs::OpenOptions::new().create(true).write(true).read(true).truncate(true).open(progress).expect("progress file");
    let mut out = vec![];
    let mut failed = false;
    for (fi, f) in facets().iter().enumerate() {
        if f.prop != prop || only.as_deref().map_or(false, |o| o != f.name) {
            continue;
        }
        let n = if tier == "thorough" { f.thorough } else { f.quick };
        let n = ((n as f64 * scale) as u64).max(1);
        {
            use std::os::unix::fs::FileExt;
            pf.set_len(0).unwrap();
            pf.write_at(&(fi as u64 + 1).to_le_bytes(), 8 * 64).unwrap();
        }
        let t0 = std::time::Instant::now();
        let mut sum = search(f, seed, n, threads, Some(&pf));
        let mut failure = serde_json::Value::Null;
        if let Some((idx, tape, msg)) = sum.failure.take() {
            failed = true;
            let fail0 = msg.clone();
            let ff = Facet { ..*f };
            let tape0 = tape.clone();
            let pf2 = pf.try_clone().unwrap();
            // a shrinking candidate may crash the process: the original index is recorded
            {
                use std::os::unix::fs::FileExt;
                pf2.set_len(0).unwrap();
                pf2.write_at(&(fi as u64 + 1).to_le_bytes(), 8 * 64).unwrap();
                pf2.write_at(&(idx + 1).to_le_bytes(), 0).unwrap();
            }
            let (tape, msg) = in_big_thread(move || {
                let t0 = std::time::Instant::now();
                shrink(tape, msg, 30_000, |t| {
                    if t0.elapsed().as_secs() > 40 {
                        return None;
                    }
                    let mut c = Ctx::default();
                    run_tape(&ff, &mut Src::replay(t.to_vec()), &mut c).err().map(|e| e.0)
                })
            });
            failure = serde_json::json!({"index": idx, "tape": hex_full(&tape), "message": msg, "original_tape": hex_full(&tape0), "original_message": fail0});
        }
        out.push(serde_json::json!({
            "facet": f.name, "rule": f.rule, "evaluations": sum.evaluations, "distinct_nontrivial": sum.distinct.len(),
            "labels": sum.labels, "samples": sum.samples.iter().take(2).collect::<Vec<_>>(), "known": sum.known,
            "failure": failure, "wall_s": t0.elapsed().as_secs_f64(),
        }));
        if failed {
            break;
        }
    }
    let mut o = std::io::stdout();
    writeln!(o, "{}", serde_json::json!({ "property": prop, "facets": out })).unwrap();
    o.flush().unwrap();
}
