//! worker CHECK --seed S --tier quick|thorough --out FILE [--one IDX] [--threads N] [--secs T]
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vharness::checks::{self, STAGE_BITS};
use vharness::engine;
use vharness::rng::{hash_str, Rng};
use vharness::stats::{json_str, Ctx, Violation};
use vharness::watch;

#[global_allocator]
static ALLOC: watch::Counting = watch::Counting;

struct Args {
    check: String,
    seed: u64,
    tier: String,
    out: String,
    slots: Option<String>,
    one: Option<u64>,
    threads: usize,
    secs: u64,
    scale: f64,
}

fn args() -> Args {
    let mut a = Args {
        check: String::new(),
        seed: 1,
        tier: "quick".into(),
        out: String::new(),
        slots: None,
        one: None,
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16),
        secs: 300,
        scale: 1.0,
    };
    let mut it = std::env::args().skip(1);
    a.check = it.next().expect("check id");
    while let Some(k) = it.next() {
        let v = it.next().expect("option value");
        match k.as_str() {
            "--seed" => a.seed = v.parse().unwrap(),
            "--tier" => a.tier = v,
            "--out" => a.out = v,
            "--slots" => a.slots = Some(v),
            "--one" => a.one = Some(v.parse().unwrap()),
            "--threads" => a.threads = v.parse().unwrap(),
            "--secs" => a.secs = v.parse().unwrap(),
            "--scale" => a.scale = v.parse().unwrap(),
            _ => panic!("unknown option {k}"),
        }
    }
    a
}

fn case_rng(check: &str, stage: &str, seed: u64, i: u64) -> Rng {
    Rng::of(&[hash_str(check), hash_str(stage), seed, i])
}

fn write_report(a: &Args, done: bool, total: Ctx, stages: &[(String, u64, u64)], secs: f64) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!("\"complete\": {done},\n\"wall_s\": {secs:.2},\n"));
    s.push_str(&format!("\"evaluations\": {},\n\"distinct_nontrivial\": {},\n", total.evaluations, total.distinct.len()));
    let list = |v: &[(String, String)]| v.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ");
    let c: Vec<_> = total.counters.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    s.push_str(&format!("\"counters\": {{{}}},\n", list(&c)));
    let c: Vec<_> = total.maxima.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    s.push_str(&format!("\"maxima\": {{{}}},\n", list(&c)));
    let c: Vec<_> = total.distinct_obs.iter().map(|(k, v)| (k.clone(), v.len().to_string())).collect();
    s.push_str(&format!("\"distinct\": {{{}}},\n", list(&c)));
    let c: Vec<_> = stages.iter().map(|(n, d, w)| (n.clone(), format!("[{d}, {w}]"))).collect();
    s.push_str(&format!("\"stages\": {{{}}},\n", list(&c)));
    let mut samples = total.samples;
    samples.truncate(12);
    s.push_str(&format!("\"samples\": [{}],\n", samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",\n")));
    let mut v = total.violations;
    v.sort_by_key(|x| x.idx);
    s.push_str(&format!(
        "\"violations\": [{}]\n}}\n",
        v.iter().map(|x| format!("{{\"idx\": {}, \"what\": {}}}", x.idx, json_str(&x.what))).collect::<Vec<_>>().join(",\n")
    ));
    if a.out.is_empty() {
        println!("{s}");
    } else {
        let tmp = format!("{}.tmp", a.out);
        std::fs::File::create(&tmp).and_then(|mut f| f.write_all(s.as_bytes())).expect("write report");
        std::fs::rename(&tmp, &a.out).expect("rename report");
    }
}

fn main() {
    let a = args();
    engine::quiet_panics();
    let t0 = Instant::now();
    let stages = checks::stages(&a.check);
    if stages.is_empty() {
        eprintln!("no stages for {}", a.check);
        std::process::exit(2);
    }
    {
        let b = args();
        watch::watchdog(move |case, what| {
            let mut cx = Ctx::default();
            cx.violations.push(Violation { idx: case, what: what.to_string() });
            write_report(&b, false, cx, &[], 0.0);
            std::process::exit(0);
        });
    }

    if let Some(one) = a.one {
        let st = (one >> STAGE_BITS) as usize;
        let i = one & ((1 << STAGE_BITS) - 1);
        watch::VERBOSE.store(true, Relaxed);
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, || {
                    watch::register(0, None);
                    watch::case(one);
                    let mut cx = Ctx { idx: one, ..Ctx::default() };
                    (stages[st].run)(&mut cx, i, case_rng(&a.check, stages[st].name, a.seed, i));
                    tx.send(cx).unwrap();
                })
                .unwrap();
        });
        write_report(&a, true, rx.recv().unwrap(), &[], t0.elapsed().as_secs_f64());
        return;
    }

    let file: Option<&'static std::fs::File> =
        a.slots.as_ref().map(|p| &*Box::leak(Box::new(std::fs::File::create(p).expect("slot file"))));
    let deadline = t0 + Duration::from_secs(a.secs);
    let total = Mutex::new(Ctx::default());
    let mut per_stage = vec![];
    let mut complete = true;
    for (si, st) in stages.iter().enumerate() {
        let want = ((if a.tier == "thorough" { st.thorough } else { st.quick }) as f64 * a.scale).ceil() as u64;
        if want == 0 {
            continue;
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..a.threads {
                let (next, done, stop, total, a) = (&next, &done, &stop, &total, &a);
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, move || {
                        watch::register(t, file);
                        let mut cx = Ctx::default();
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= want || stop.load(Relaxed) != 0 || Instant::now() > deadline {
                                break;
                            }
                            cx.idx = ((si as u64) << STAGE_BITS) | i;
                            watch::case(cx.idx);
                            let c0 = Instant::now();
                            (st.run)(&mut cx, i, case_rng(&a.check, st.name, a.seed, i));
                            let ms = c0.elapsed().as_millis() as u64;
                            if std::env::var_os("SLOW").is_some() && ms > 2_000 {
                                eprintln!("{} {} {ms} ms", st.name, cx.idx);
                            }
                            cx.max("slowest case (ms)", ms);
                            done.fetch_add(1, Relaxed);
                            if cx.violations.len() >= 10 {
                                stop.store(1, Relaxed);
                            }
                        }
                        total.lock().unwrap().merge(cx);
                    })
                    .unwrap();
            }
        });
        let d = done.load(Relaxed);
        complete &= d == want;
        per_stage.push((st.name.to_string(), d, want));
    }
    write_report(&a, complete, total.into_inner().unwrap(), &per_stage, t0.elapsed().as_secs_f64());
}
