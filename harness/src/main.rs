//! Runs the real library under workloads while monitors watch for violations.
//!
//!   gmon run <property> --seed N --tier quick|thorough --out FILE [--threads N] [--reverse] [--cases N] [--cap SECONDS] [--tiny]
//!   gmon replay <property> <case> --seed N --tier T [--tiny]
mod alloc;
mod ctx;
mod drive;
mod gen;
mod model;
mod obs;
mod props;
mod rng;

use ctx::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Case = fn(&mut Ctx) -> R;

struct Prop {
    id: &'static str,
    f: Case,
    /// cases per tier
    quick: u64,
    thorough: u64,
}

fn registry() -> Vec<Prop> {
    use props::*;
    let p = |id, f: Case, quick, thorough| Prop { id, f, quick, thorough };
    vec![
        p("C01", rules::c01, 24000, 480000),
        p("C02", rules::c02, 24000, 480000),
        p("C03", rules::c03, 48000, 960000),
        p("C04", rules::c04, 24000, 400000),
        p("C05", rules::c05, 8000, 240000),
        p("C06", game::c06, 16000, 320000),
        p("C07", board::c07, 14000, 400000),
        p("C08", board::c08, 48000, 640000),
        p("C09", board::c09, 24000, 480000),
        p("C10", rules::c10, 80000, 1600000),
        p("C11", board::c11, 24000, 400000),
        p("C12", game::c12, 4800, 64000),
        p("C13", sgf::c13, 20000, 480000),
        p("C14", sgf::c14, 70000, 1600000),
        p("C15", game::c15, 48000, 640000),
        #[cfg(feature = "full")]
        p("C16", game::c16, 9000, 160000),
        p("C17", rules::c17, 50000, 800000),
        #[cfg(feature = "full")]
        p("C18", game::c18, 15000, 240000),
        p("C19", board::c19, 120000, 2400000),
        p("C20", board::c20, 1500, 20000),
        p("C21", total::c21, 800, 24000),
        p("C22", total::c22, 40000, 960000),
        p("C23", rules::c23, 4000, 160000),
        p("C24", board::c24, 24000, 400000),
        p("C25", total::c25, 5000, 200000),
        #[cfg(feature = "values")]
        p("C26", value::c26, 4000, 60000),
        #[cfg(feature = "values")]
        p("C27", value::c27, 120000, 1600000),
        #[cfg(feature = "values")]
        p("C28", value::c28, 8000, 160000),
    ]
}

struct Found {
    case: u64,
    msg: String,
    trace: String,
}

#[derive(Default)]
struct Total {
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeSet<String>,
    blocked: Vec<Found>,
    nblocked: u64,
    done: u64,
    found: Vec<Found>,
    digests: Vec<(u64, u64)>,
}

struct Opt {
    seed: u64,
    tier: Tier,
    out: String,
    slots: String,
    threads: usize,
    reverse: bool,
    from: u64,
    cases: Option<u64>,
    cap: u64,
    stuck: u64,
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// Runs one case; the panic of a library call becomes a verdict.
fn run_case(p: &Prop, cx: &mut Ctx, case: u64) -> R {
    cx.start_case(case);
    set_driving(false);
    OP.with(|o| o.set("oracle"));
    PANIC.with(|x| x.borrow_mut().take());
    match catch_unwind(AssertUnwindSafe(|| (p.f)(cx))) {
        Ok(r) => r,
        Err(_) => {
            let driving = DRIVING.with(|d| d.get());
            set_driving(false);
            let op = OP.with(|o| o.get());
            let (msg, at) = PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default();
            let text = format!("{op} panicked at {at}: {msg}");
            if at.starts_with("src/") {
                return Err(Stop::Blocked(format!("the monitor could not go on: {text}")));
            }
Err(Stop::Violation(if driving { format!("{text} (a supported call that gives no answer)") } else { text }))
        }
    }
}

fn cpu_ticks(tid: i32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let v: Vec<&str> = r.split_whitespace().collect();
    Some(v.get(11)?.parse::<u64>().ok()? + v.get(12)?.parse::<u64>().ok()?)
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, at)));
    }));
}

fn my_tid() -> i32 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn worker(p: &Prop, o: &Opt, ncases: u64, next: &AtomicU64, stop: &AtomicBool, slot: &'static Slot, k: usize, total: &Mutex<Total>, start: Instant) {
    slot.tid.store(my_tid(), Ordering::Relaxed);
    SLOT.with(|s| s.set(Some(slot)));
    let file = if o.slots.is_empty() { None } else { std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&o.slots).ok() };
    let mut cx = Ctx::new(p.id, o.tier, o.seed, ncases);
    loop {
        if stop.load(Ordering::Relaxed) || start.elapsed() > Duration::from_secs(o.cap) {
            break;
        }
        let i = next.fetch_add(1, Ordering::Relaxed);
        if i >= ncases {
            break;
        }
        let case = o.from + if o.reverse { ncases - 1 - i } else { i };
        if let Some(f) = &file {
            use std::os::unix::fs::FileExt;
            f.write_at(format!("{:>20}\n", case + 1).as_bytes(), 21 * k as u64).ok();
        }
        slot.case.store(case + 1, Ordering::Relaxed);
        let r = run_case(p, &mut cx, case);
        slot.case.store(0, Ordering::Relaxed);
        let mut t = total.lock().unwrap();
        t.done += 1;
        if let Some(d) = cx.digest {
            t.digests.push((case, d));
        }
        match r {
            Ok(()) => (),
            Err(Stop::Blocked(msg)) => {
                t.nblocked += 1;
                if t.blocked.len() < 5 {
                    t.blocked.push(Found { case, msg, trace: cx.describe() });
                }
            }
            Err(Stop::Violation(msg)) => {
                t.found.push(Found { case, msg, trace: cx.describe() });
                if t.found.len() >= 5 {
                    stop.store(true, Ordering::Relaxed);
                }
            }
        }
    }
    if let Some(f) = &file {
        use std::os::unix::fs::FileExt;
        f.write_at(format!("{:>20}\n", 0).as_bytes(), 21 * k as u64).ok();
    }
    let mut t = total.lock().unwrap();
    t.evals += cx.evals;
    t.distinct.extend(cx.distinct.drain());
    for (k, v) in cx.counters {
        *t.counters.entry(k).or_default() += v;
    }
    for (k, v) in cx.maxima {
        let e = t.maxima.entry(k).or_default();
        *e = (*e).max(v);
    }
    for s in cx.samples {
        let k = t.samples.len() as u64;
        t.samples.push((k, s));
    }
    t.known.extend(cx.known);
}

fn watchdog(slots: &'static [Slot], limit: u64, over: &AtomicBool) {
    let mut seen: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
    while !over.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(500));
        for (k, s) in slots.iter().enumerate() {
            let (case, tid) = (s.case.load(Ordering::Relaxed), s.tid.load(Ordering::Relaxed));
            let Some(now) = (if tid != 0 { cpu_ticks(tid) } else { None }) else { continue };
            if case == 0 || seen[k].0 != case {
                seen[k] = (case, now);
            } else if now - seen[k].1 > limit * 100 {
                println!("STUCK case={} driving={}", case - 1, s.driving.load(Ordering::Relaxed));
                std::process::exit(4);
            }
        }
    }
}

static SLOTS: [Slot; 64] = [const { Slot { tid: AtomicI32::new(0), case: AtomicU64::new(0), driving: AtomicBool::new(false) } }; 64];

fn slots(n: usize) -> &'static [Slot] {
    &SLOTS[..n]
}

fn run(p: &Prop, o: &Opt) -> i32 {
    let start = Instant::now();
    let ncases = o.cases.unwrap_or(if o.tier == Tier::Quick { p.quick } else { p.thorough });
    let total = Mutex::new(Total::default());
    let (next, stop, over) = (AtomicU64::new(0), AtomicBool::new(false), AtomicBool::new(false));
    let sl = slots(o.threads);
    std::thread::scope(|s| {
        let wd = (o.stuck > 0).then(|| s.spawn(|| watchdog(sl, o.stuck, &over)));
        let mut hs = vec![];
        for k in 0..o.threads {
            let (total, next, stop) = (&total, &next, &stop);
            let b = std::thread::Builder::new().stack_size(32 << 20);
            hs.push(b.spawn_scoped(s, move || worker(p, o, ncases, next, stop, &sl[k], k, total, start)).unwrap());
        }
        for h in hs {
            h.join().unwrap();
        }
        over.store(true, Ordering::Relaxed);
        drop(wd);
    });
    let mut t = total.into_inner().unwrap();
    t.found.sort_by_key(|f| f.case);
    t.digests.sort();
    let mut s = String::from("{");
    s += &format!("\"property\":{},\"cases\":{},\"planned\":{ncases},\"evaluations\":{},\"distinct\":{},", json(p.id), t.done, t.evals, t.distinct.len());
    s += &format!("\"wall\":{:.2},\"nblocked\":{},", start.elapsed().as_secs_f64(), t.nblocked);
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect::<Vec<_>>().join(",");
    s += &format!("\"counters\":{{{}}},\"maxima\":{{{}}},", map(&t.counters), map(&t.maxima));
    s += &format!("\"samples\":[{}],", t.samples.iter().take(4).map(|x| json(&x.1)).collect::<Vec<_>>().join(","));
    s += &format!("\"known\":[{}],", t.known.iter().map(|x| json(x)).collect::<Vec<_>>().join(","));
    let list = |v: &[Found]| v.iter().map(|f| format!("{{\"case\":{},\"message\":{},\"trace\":{}}}", f.case, json(&f.msg), json(&f.trace))).collect::<Vec<_>>().join(",");
    s += &format!("\"blocked\":[{}],\"violations\":[{}],", list(&t.blocked), list(&t.found));
    s += &format!("\"digests\":{{{}}}}}\n", t.digests.iter().map(|(c, d)| format!("\"{c}\":\"{d:x}\"")).collect::<Vec<_>>().join(","));
    if o.out.is_empty() {
        print!("{s}");
    } else {
        std::fs::write(&o.out, s).expect("writing the result");
    }
    i32::from(!t.found.is_empty())
}

fn main() {
    hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let o = Opt {
        seed: num("--seed", 1),
        tier: if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        out: get("--out").unwrap_or_default(),
        slots: get("--slots").unwrap_or_default(),
        threads: num("--threads", 8) as usize,
        from: num("--from", 0),
        reverse: a.iter().any(|x| x == "--reverse"),
        cases: get("--cases").and_then(|v| v.parse().ok()),
        cap: num("--cap", 100_000),
        stuck: num("--stuck", 60),
    };
    if a.iter().any(|x| x == "--tiny") {
        props::total::TINY.store(true, Ordering::Relaxed);
    }
    let reg = registry();
    let find = |id: &str| reg.iter().find(|p| p.id == id);
    match (a.first().map(|s| s.as_str()), a.get(1).and_then(|id| find(id))) {
        (Some("run"), Some(p)) => std::process::exit(run(p, &o)),
        (Some("replay"), Some(p)) => {
            let case = a.get(2).and_then(|v| v.parse().ok()).expect("replay <property> <case>");
            let ncases = o.cases.unwrap_or(if o.tier == Tier::Quick { p.quick } else { p.thorough });
            let sl = slots(1);
            let code = std::thread::scope(|s| {
                static OVER: AtomicBool = AtomicBool::new(false);
                let over = &OVER;
                if o.stuck > 0 {
                    s.spawn(move || watchdog(sl, o.stuck, over));
                }
                let b = std::thread::Builder::new().stack_size(32 << 20);
                let h = b
                    .spawn_scoped(s, || {
                        sl[0].tid.store(my_tid(), Ordering::Relaxed);
                        SLOT.with(|s| s.set(Some(&sl[0])));
                        let mut cx = Ctx::new(p.id, o.tier, o.seed, ncases);
                        sl[0].case.store(case + 1, Ordering::Relaxed);
                        let r = run_case(p, &mut cx, case);
                        println!("{}", cx.describe());
                        for k in &cx.known {
                            println!("KNOWN {k}");
                        }
                        if let Some(d) = cx.digest {
                            println!("digest {d:x}");
                        }
                        match r {
                            Ok(()) => {
                                println!("OK case {case}: {} evaluations", cx.evals);
                                0
                            }
                            Err(Stop::Blocked(m)) => {
                                println!("BLOCKED {m}");
                                2
                            }
                            Err(Stop::Violation(m)) => {
                                println!("VIOLATED {m}");
                                1
                            }
                        }
                    })
                    .unwrap();
                let c = h.join().unwrap();
                over.store(true, Ordering::Relaxed);
                c
            });
            std::process::exit(code);
        }
        _ => {
            eprintln!("properties: {}", reg.iter().map(|p| p.id).collect::<Vec<_>>().join(" "));
            std::process::exit(3);
        }
    }
}
