//! symx: symbolic executor for the LLVM IR of the code under check.
mod exec;
mod expr;
mod ll;
mod mem;
mod prog;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job {
    h: usize,
    trace: Vec<u64>,
    model: Vec<u8>,
}

#[derive(Default)]
struct Viol {
    count: u64,
    samples: Vec<Vec<u8>>,
}

#[derive(Default)]
struct Res {
    stats: Stats,
    started: bool,
    incomplete: bool,
    viols: BTreeMap<(String, String), Viol>,
    covers: BTreeMap<u32, u64>,
    samples: BTreeMap<u64, (Vec<u8>, String, u64)>, // key: pseudo-random rank
    errors: BTreeMap<String, (u64, Vec<u8>)>,
    funcs: HashSet<u32>,
    busy: f64,
    first: Option<Instant>,
    last: Option<Instant>,
}

struct Shared {
    q: Mutex<(Vec<Job>, usize)>, // jobs, active workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    res: Vec<Mutex<Res>>,
}

fn rank(b: &[u8], seed: u64) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64 ^ seed.wrapping_mul(0xbf58476d1ce4e5b9);
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h = h.wrapping_mul(0x94d049bb133111eb);
    h ^ (h >> 31)
}

fn trace_vec(st: &State) -> Vec<u64> {
    let mut v = vec![];
    let mut t = st.trace.as_ref();
    while let Some(n) = t {
        v.push(n.v);
        t = n.prev.as_ref();
    }
    v.reverse();
    v
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    threads: usize,
    seed: u64,
    nsamples: usize,
    deadline: Instant,
    steps: u64,
    viol_samples: usize,
    stop_viols: u64,
}

fn add_stats(a: &mut Stats, b: &Stats) {
    a.paths += b.paths;
    a.assumed += b.assumed;
    a.forks += b.forks;
    a.instrs += b.instrs;
    a.cert += b.cert;
    a.cert_hits += b.cert_hits;
    a.unknown += b.unknown;
    a.cheap_models += b.cheap_models;
    a.asserts += b.asserts;
    a.sym_asserts += b.sym_asserts;
    a.measure += b.measure;
    a.nonbox += b.nonbox;
    a.queries += b.queries;
    a.unsat += b.unsat;
    a.sat += b.sat;
    a.solver_secs += b.solver_secs;
    a.max_steps = a.max_steps.max(b.max_steps);
    a.decisions += b.decisions;
}

fn worker(p: &prog::Prog, sh: &Shared, hs: &[u32], o: &Opts) {
    let mut w = Worker::new(p, o.steps);
    loop {
        let job = {
            let mut g = sh.q.lock().unwrap();
            g.1 -= 1;
            loop {
                if sh.stop.load(SeqCst) {
                    sh.cv.notify_all();
                    return;
                }
                // lowest harness index first, then LIFO
                if let Some(best) = (0..g.0.len()).min_by_key(|i| (g.0[*i].h, usize::MAX - *i)) {
                    g.1 += 1;
                    break g.0.remove(best);
                }
                if g.1 == 0 {
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                    return;
                }
                sh.hungry.fetch_add(1, SeqCst);
                g = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                sh.hungry.fetch_sub(1, SeqCst);
            }
        };
        let t0 = Instant::now();
        let h = job.h;
        let mut st = w.initial(hs[h]);
        w.fseen[hs[h] as usize] = true;
        if !job.trace.is_empty() {
            st.replay = Some(Rc::new(job.trace));
            st.rmodel = Some(Rc::new(job.model));
        }
        w.pending.push(st);
        let mut loc = Res::default();
        let mut spill = false;
        while let Some(mut st) = w.pending.pop() {
            if sh.hungry.load(SeqCst) > 0 && !w.pending.is_empty() || (spill && !w.pending.is_empty()) {
                let k = if spill { w.pending.len() } else { 1 };
                let give: Vec<State> = w.pending.drain(..k).collect();
                let mut g = sh.q.lock().unwrap();
                for s in give {
                    if s.replay.is_some() {
                        unreachable!();
                    }
                    g.0.push(Job { h, trace: trace_vec(&s), model: s.model.clone() });
                }
                sh.cv.notify_all();
            }
            spill = false;
            let s0 = st.steps;
            let m0 = w.stats.measure;
            let end = w.run(&mut st);
            let _ = m0;
            w.stats.instrs += st.steps - s0;
            w.stats.max_steps = w.stats.max_steps.max(st.steps);
            let n = st.dom.len();
            st.model.truncate(n);
            let mut outcome = String::new();
            let mut viol: Option<(String, String)> = None;
            match end {
                End::Dead => continue,
                End::Assumed => {
                    w.stats.assumed += 1;
                }
                End::Done => {
                    w.stats.paths += 1;
                    outcome = "ok".into();
                }
                End::Assert(id) => {
                    w.stats.paths += 1;
                    outcome = format!("assert:{}", id);
                    viol = Some(("assert".into(), id.to_string()));
                }
                End::Panic(l) => {
                    w.stats.paths += 1;
                    outcome = format!("panic:{}", l);
                    viol = Some(("panic".into(), l));
                }
                End::Hang => {
                    w.stats.paths += 1;
                    outcome = "hang".into();
                    let f = st.frames.iter().rev().map(|f| p.m.funcs[f.f as usize].name.clone()).find(|n| n.contains("yaml_peg")).unwrap_or_default();
                    viol = Some(("hang".into(), f));
                }
                End::Stack => {
                    w.stats.paths += 1;
                    outcome = "stack".into();
                    viol = Some(("stack".into(), String::new()));
                }
                End::Unreach(m) => {
                    w.stats.paths += 1;
                    outcome = "abort".into();
                    viol = Some(("abort".into(), m));
                }
                End::Err(m) => {
                    let m = if let Some(f) = st.frames.last() { format!("{} [in {} @{}]", m, p.m.funcs[f.f as usize].name, f.pc) } else { m };
                    let e = loc.errors.entry(m).or_insert((0, st.model.clone()));
                    e.0 += 1;
                    loc.incomplete = true;
                }
            }
            match w.measure(&st) {
                Some(m) => w.stats.measure += m,
                None => w.stats.nonbox += 1,
            }
            if !outcome.is_empty() {
                for c in 0..64 {
                    if st.covers >> c & 1 == 1 {
                        *loc.covers.entry(c).or_insert(0) += 1;
                    }
                }
                let oh = w.out_hash(&st);
                if let Some(k) = viol {
                    let v = loc.viols.entry(k).or_default();
                    v.count += 1;
                    if v.samples.len() < o.viol_samples {
                        v.samples.push(st.model.clone());
                    }
                }
                let r = rank(&st.model, o.seed);
                if loc.samples.len() < o.nsamples || *loc.samples.keys().next_back().unwrap() > r {
                    loc.samples.insert(r, (st.model.clone(), outcome, oh));
                    if loc.samples.len() > o.nsamples {
                        loc.samples.pop_last();
                    }
                }
            }
            if Instant::now() > o.deadline {
                sh.stop.store(true, SeqCst);
            }
            if sh.stop.load(SeqCst) && !w.pending.is_empty() {
                loc.incomplete = true;
                w.pending.clear();
            }
            if w.cx.nodes.len() > 3_000_000 {
                spill = true;
                // convert everything pending into jobs, then start with a fresh context
                let mut g = sh.q.lock().unwrap();
                for s in w.pending.drain(..) {
                    g.0.push(Job { h, trace: trace_vec(&s), model: s.model.clone() });
                }
                drop(g);
                sh.cv.notify_all();
                w.reset();
                spill = false;
            }
        }
        w.flush_z3();
        let mut r = sh.res[h].lock().unwrap();
        r.started = true;
        add_stats(&mut r.stats, &w.stats);
        w.stats = Stats::default();
        r.incomplete |= loc.incomplete;
        for (k, v) in loc.viols {
            let e = r.viols.entry(k).or_default();
            e.count += v.count;
            e.samples.extend(v.samples);
            e.samples.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
            e.samples.truncate(o.viol_samples);
        }
        for (k, v) in loc.covers {
            *r.covers.entry(k).or_insert(0) += v;
        }
        for (k, v) in loc.errors {
            let e = r.errors.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
        for (k, v) in loc.samples {
            r.samples.insert(k, v);
        }
        while r.samples.len() > o.nsamples {
            r.samples.pop_last();
        }
        for (i, s) in w.fseen.iter_mut().enumerate() {
            if *s {
                r.funcs.insert(i as u32);
                *s = false;
            }
        }
        r.busy += t0.elapsed().as_secs_f64();
        if r.first.is_none() {
            r.first = Some(t0);
        }
        r.last = Some(Instant::now());
        let nv: u64 = r.viols.values().map(|v| v.count).sum();
        if o.stop_viols > 0 && nv > o.stop_viols {
            // enough counterexamples for this harness: drop its remaining jobs
            let mut g = sh.q.lock().unwrap();
            let before = g.0.len();
            g.0.retain(|j| j.h != h);
            if g.0.len() != before {
                r.incomplete = true;
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut out = String::new();
    let mut hs: Vec<String> = vec![];
    let mut o = Opts { threads: 8, seed: 1, nsamples: 100, deadline: Instant::now() + Duration::from_secs(600), steps: 5_000_000, viol_samples: 3, stop_viols: 0 };
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--out" => out = v,
            "--threads" => o.threads = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap_or(1),
            "--samples" => o.nsamples = v.parse().unwrap(),
            "--time" => o.deadline = Instant::now() + Duration::from_secs(v.parse().unwrap()),
            "--steps" => o.steps = v.parse().unwrap(),
            "--viol-samples" => o.viol_samples = v.parse().unwrap(),
            "--stop-viols" => o.stop_viols = v.parse().unwrap(),
            "--harness" => hs.extend(v.split(',').map(|s| s.to_string())),
            f => {
                file = f.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let text = std::fs::read(&file).expect("read ll");
    let t0 = Instant::now();
    let p = match prog::Prog::new(text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("symx: {}", e);
            std::process::exit(3);
        }
    };
    let load = t0.elapsed().as_secs_f64();
    let mut ids = vec![];
    for h in &hs {
        match p.fidx.get(h) {
            Some(f) if p.m.funcs[*f as usize].body.is_some() => ids.push(*f),
            _ => {
                eprintln!("symx: no harness {}", h);
                std::process::exit(3);
            }
        }
    }
    let sh = Shared {
        q: Mutex::new((ids.iter().enumerate().rev().map(|(h, _)| Job { h, trace: vec![], model: vec![] }).collect(), o.threads)),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        res: ids.iter().map(|_| Mutex::new(Res::default())).collect(),
    };
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || worker(&p, &sh, &ids, &o)).unwrap();
        }
    });
    let left: HashSet<usize> = sh.q.lock().unwrap().0.iter().map(|j| j.h).collect();
    let mut j = String::new();
    let _ = write!(j, "{{\"z3\":{},\"load_s\":{:.3},\"threads\":{},\"harnesses\":[", js(&z3::version()), load, o.threads);
    for (hi, h) in hs.iter().enumerate() {
        let r = sh.res[hi].lock().unwrap();
        let s = &r.stats;
        if hi > 0 {
            j.push(',');
        }
        let complete = r.started && !r.incomplete && !left.contains(&hi);
        let wall = match (r.first, r.last) {
            (Some(a), Some(b)) => (b - a).as_secs_f64(),
            _ => 0.0,
        };
        let _ = write!(
            j,
            "\n{{\"name\":{},\"complete\":{},\"started\":{},\"paths\":{},\"assumed\":{},\"forks\":{},\"decisions\":{},\"instrs\":{},\"max_steps\":{},\"asserts\":{},\"sym_asserts\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"cert\":{},\"cert_hits\":{},\"cheap_models\":{},\"solver_s\":{:.3},\"busy_s\":{:.3},\"wall_s\":{:.3},\"measure\":{:.9},\"nonbox\":{}",
            js(h), complete, r.started, s.paths, s.assumed, s.forks, s.decisions, s.instrs, s.max_steps, s.asserts, s.sym_asserts, s.queries, s.unsat, s.sat, s.unknown, s.cert, s.cert_hits, s.cheap_models, s.solver_secs, r.busy, wall, s.measure, s.nonbox
        );
        j.push_str(",\"covers\":{");
        for (k, (c, n)) in r.covers.iter().enumerate() {
            let _ = write!(j, "{}\"{}\":{}", if k > 0 { "," } else { "" }, c, n);
        }
        j.push_str("},\"violations\":[");
        for (k, ((kind, key), v)) in r.viols.iter().enumerate() {
            let _ = write!(j, "{}{{\"kind\":{},\"key\":{},\"count\":{},\"samples\":[{}]}}", if k > 0 { "," } else { "" }, js(kind), js(key), v.count, v.samples.iter().map(|b| format!("\"{}\"", hex(b))).collect::<Vec<_>>().join(","));
        }
        j.push_str("],\"errors\":[");
        for (k, (m, n)) in r.errors.iter().enumerate() {
            let _ = write!(j, "{}{{\"msg\":{},\"count\":{},\"sample\":\"{}\"}}", if k > 0 { "," } else { "" }, js(m), n.0, hex(&n.1));
        }
        j.push_str("],\"samples\":[");
        for (k, (_, (b, oc, oh))) in r.samples.iter().enumerate() {
            let _ = write!(j, "{}{{\"bytes\":\"{}\",\"outcome\":{},\"hash\":\"{:016x}\"}}", if k > 0 { "," } else { "" }, hex(b), js(oc), oh);
        }
        let names: BTreeSet<&str> = r.funcs.iter().map(|f| p.m.funcs[*f as usize].name.as_str()).collect();
        j.push_str("],\"functions\":[");
        for (k, n) in names.iter().enumerate() {
            let _ = write!(j, "{}{}", if k > 0 { "," } else { "" }, js(n));
        }
        j.push_str("]}");
    }
    j.push_str("\n]}\n");
    if out.is_empty() {
        print!("{}", j);
    } else {
        std::fs::write(&out, j).unwrap();
    }
}
